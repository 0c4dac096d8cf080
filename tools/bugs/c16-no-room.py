PROPERTY = "C16"
NEEDS = "a client that does not read while responses are ready"
BREAKS = "While there is no room for a response the server's rpc task wakes itself, so it spins for as long as the client does not read."
F = "protosocket-rpc/src/server/connection_server.rs"
EDITS = [(F, '''    fn poll_advance_streaming_rpcs(
        mut self: Pin<&mut Self>,
        context: &mut Context<'_>,
    ) -> Option<Poll<Result<(), Error>>> {
        loop {
            match pin!(&mut self.outbound).poll_reserve(context) {
                Poll::Ready(Ok(())) => {
                    // ready to send
                }
                Poll::Ready(Err(_)) => {
                    log::debug!("outbound connection is closed");
                    return Some(Poll::Ready(Err(crate::Error::ConnectionIsClosed)));
                }
                Poll::Pending => {
                    log::debug!("no room in outbound connection");
                    break;
''', '''    fn poll_advance_streaming_rpcs(
        mut self: Pin<&mut Self>,
        context: &mut Context<'_>,
    ) -> Option<Poll<Result<(), Error>>> {
        loop {
            match pin!(&mut self.outbound).poll_reserve(context) {
                Poll::Ready(Ok(())) => {
                    // ready to send
                }
                Poll::Ready(Err(_)) => {
                    log::debug!("outbound connection is closed");
                    return Some(Poll::Ready(Err(crate::Error::ConnectionIsClosed)));
                }
                Poll::Pending => {
                    log::debug!("no room in outbound connection");
                    if !self.outstanding_streaming_rpcs.is_empty() {
                        // the streams were not polled, so they can not wake this task
                        context.waker().wake_by_ref();
                    }
                    break;
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::StreamExt;
use protosocket_rpc::server::RpcKind;
use std::time::Duration;
use tokio::io::AsyncWriteExt;
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap();
    let f: Vec<&str> = s.rsplit(')').next().unwrap().split_whitespace().collect();
    (f[11].parse::<f64>().unwrap() + f[12].parse::<f64>().unwrap()) / 100.0
}
fn main() {
    one_thread(async {
        let a = rpc::serve(8, |q| RpcKind::Streaming(futures::stream::iter((0..100_000u64).map(move |_| m(q.id, 5000))).boxed())).await;
        let mut c = tokio::net::TcpStream::connect(a).await.unwrap();
        c.write_all(&m(1, 1).wire()).await.unwrap();
        tokio::time::sleep(Duration::from_secs(2)).await;
        let before = cpu();
        tokio::time::sleep(Duration::from_secs(3)).await;
        let used = cpu() - before;
        check(used < 1.0, &format!("{used} s of processor time in 3 s while there is nothing to do"));
    });
}
'''
