PROPERTY = "C10"
NEEDS = "a cancelled unary rpc that is retired in the same poll in which other unary rpcs of the connection are ready"
BREAKS = "Retiring a cancelled rpc ends the server's round: rpcs that are ready behind it are not looked at, and nothing wakes the task for them."
F = "protosocket-rpc/src/server/connection_server.rs"
EDITS = [(F, '''                            log::debug!("{id} unary rpc done");
''', '''                            log::debug!("{id} unary rpc done");
                            break;
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::{RpcKind, SocketRpcServer};
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
fn main() {
    one_thread(async {
        for n in 0..10u64 {
            let (open, opened) = tokio::sync::watch::channel(false);
            let a = address();
            let service = rpc::Service(Arc::new(move |q: M| {
                let mut opened = opened.clone();
                RpcKind::Unary(if q.id % 2 == 0 { std::future::pending().boxed() } else { async move { let _ = opened.wait_for(|o| *o).await; q }.boxed() })
            }));
            let s = SocketRpcServer::new(a, service).await.unwrap();
            tokio::spawn(s);
            let mut c = tokio::net::TcpStream::connect(a).await.unwrap();
            for i in 0..20 {
                c.write_all(&m(i, 1).wire()).await.unwrap();
            }
            tokio::time::sleep(Duration::from_millis(20)).await;
            let mut w = Vec::new();
            for i in 0..10 {
                w.extend(cancel(2 * i).wire());
            }
            c.write_all(&w).await.unwrap();
            tokio::time::sleep(Duration::from_millis(10 + n % 3)).await;
            open.send(true).unwrap();
            let mut all = vec![0; 10 * m(1, 1).wire().len()];
            let r = tokio::time::timeout(Duration::from_secs(2), c.read_exact(&mut all)).await;
            check(matches!(r, Ok(Ok(_))), "rpcs that are done get no response after others were cancelled");
        }
    });
}
'''
