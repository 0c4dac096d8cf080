PROPERTY = "C06"
NEEDS = "the server's limits lowered after the server has started to run"
BREAKS = "The rpc server keeps the limits it had when it was first polled: connections accepted after the buffer limit was lowered are held to the old one."
F = "protosocket-rpc/src/server/socket_server.rs"
EDITS = [(F, '''    max_buffer_length: usize,
    max_queued_outbound_messages: usize,
}
''', '''    max_buffer_length: usize,
    max_queued_outbound_messages: usize,
    /// the limits in effect, settled when the server starts
    limits: Option<(usize, usize)>,
}
'''), (F, '''            max_queued_outbound_messages: 128,
''', '''            max_queued_outbound_messages: 128,
            limits: None,
'''), (F, '''    fn poll(self: Pin<&mut Self>, context: &mut Context<'_>) -> Poll<Self::Output> {
        loop {
''', '''    fn poll(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Poll<Self::Output> {
        // SAFETY: nothing is moved out of the server
        let this = unsafe { self.as_mut().get_unchecked_mut() };
        let (max_buffer_length, max_queued) = *this
            .limits
            .get_or_insert((this.max_buffer_length, this.max_queued_outbound_messages));
        loop {
'''), (F, '''                            mpsc::channel(self.max_queued_outbound_messages);
''', '''                            mpsc::channel(max_queued);
'''), (F, '''                            self.max_buffer_length,
                            self.max_queued_outbound_messages,
''', '''                            max_buffer_length,
                            max_queued,
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::{RpcKind, SocketRpcServer};
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
fn main() {
    one_thread(async {
        let a = address();
        let s = SocketRpcServer::new(a, rpc::Service(Arc::new(|q| RpcKind::Unary(async move { q }.boxed())))).await.unwrap();
        let mut s = Box::pin(s);
        check(futures::poll!(s.as_mut()).is_pending(), "the server ended");
        // SAFETY: the server is not moved
        unsafe { s.as_mut().get_unchecked_mut() }.set_max_buffer_length(1000);
        tokio::spawn(futures::future::poll_fn(move |cx| -> Poll<()> { s.poll_unpin(cx).map(|_| ()) }));
        let mut c = tokio::net::TcpStream::connect(a).await.unwrap();
        c.write_all(&m(1, 5000).wire()).await.unwrap();
        let mut b = [0; 64];
        let n = tokio::time::timeout(Duration::from_secs(2), c.read(&mut b)).await;
        check(!matches!(n, Ok(Ok(1..))), "a request larger than the limit was served");
    });
}
'''
