PROPERTY = "C12"
NEEDS = "a client that resets its connection between the handshake and accept"
BREAKS = "The server asks the accepted socket for its peer, which fails when the peer is already gone, and hands that failure up: the whole server ends."
F = "protosocket-rpc/src/server/socket_server.rs"
EDITS = [(F, '''                    Ok((stream, address)) => {
''', '''                    Ok((stream, _)) => {
                        let address = match stream.peer_addr() {
                            Ok(address) => address,
                            Err(e) => return Poll::Ready(Err(e)),
                        };
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::{RpcKind, SocketRpcServer};
use std::sync::Arc;
fn main() {
    one_thread(async {
        let a = address();
        let s = SocketRpcServer::new(a, rpc::Service(Arc::new(|m| RpcKind::Unary(async move { m }.boxed())))).await.unwrap();
        // a visitor that is gone again before it is accepted
        let v = tokio::net::TcpStream::connect(a).await.unwrap();
        v.set_linger(Some(std::time::Duration::ZERO)).unwrap();
        drop(v);
        tokio::time::sleep(std::time::Duration::from_millis(50)).await;
        let server = tokio::spawn(s);
        tokio::time::sleep(std::time::Duration::from_millis(100)).await;
        check(!server.is_finished(), "the server ended");
        let c = rpc::client(a, 16).await;
        let r = tokio::time::timeout(std::time::Duration::from_secs(2), c.send_unary(m(1, 2)).await.unwrap()).await;
        check(matches!(r, Ok(Ok(_))), "the server does not serve any more");
    });
}
'''
