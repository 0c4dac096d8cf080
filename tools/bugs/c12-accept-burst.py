PROPERTY = "C12"
NEEDS = "more than 16 connections waiting to be accepted at once, and none arriving afterwards"
BREAKS = "The rpc server accepts at most 16 connections per poll and does not ask to be polled again: the rest of a burst waits until another client connects."
F = "protosocket-rpc/src/server/socket_server.rs"
EDITS = [(F, '''        loop {
            break match self.listener.poll_accept(context) {
''', '''        // a burst of connections must not keep the task from yielding
        for _ in 0..16 {
            match self.listener.poll_accept(context) {
'''), (F, '''                Poll::Pending => Poll::Pending,
            };
        }
''', '''                Poll::Pending => return Poll::Pending,
            };
        }
        Poll::Pending
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::{RpcKind, SocketRpcServer};
use std::sync::Arc;
use std::time::Duration;
fn main() {
    one_thread(async {
        let a = address();
        let s = SocketRpcServer::new(a, rpc::Service(Arc::new(|q| RpcKind::Unary(async move { q }.boxed())))).await.unwrap();
        let mut clients = Vec::new();
        for _ in 0..40 {
            clients.push(rpc::client(a, 16).await);
        }
        tokio::spawn(s);
        for (i, c) in clients.iter().enumerate() {
            let call = c.send_unary(m(1, 3)).await.unwrap();
            let r = tokio::time::timeout(Duration::from_secs(2), call).await;
            check(matches!(r, Ok(Ok(_))), &format!("client {i} is not served: {r:?}"));
        }
    });
}
'''
