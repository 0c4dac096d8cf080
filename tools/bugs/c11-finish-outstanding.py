PROPERTY = "C11"
NEEDS = "a connection that is lost while an rpc that never completes is running, after the server task has reserved room for its response"
BREAKS = "After its connection is gone the server keeps serving until the outstanding rpcs are done; a reserved place in the outbound queue hides that it is closed, so an rpc that waits for ever is never dropped, nor is the connection's service."
F = "protosocket-rpc/src/server/connection_server.rs"
EDITS = [(F, '''                Poll::Ready(0) => {
                    return Some(Poll::Ready(Ok(())));
                }''', '''                Poll::Ready(0) => {
                    if self.outstanding_unary_rpcs.is_empty()
                        && self.outstanding_streaming_rpcs.is_empty()
                    {
                        return Some(Poll::Ready(Ok(())));
                    }
                    // The client may only have closed its sending side. Rpcs in flight can complete, and if the
                    // connection is gone then there is no room for their responses.
                    log::debug!("inbound is closed, finishing outstanding rpcs");
                }''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::sync::Arc;
fn main() {
    one_thread(async {
        let dropped = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let d = dropped.clone();
        let a = rpc::serve(64, move |q| {
            let f = rpc::Flag(d.clone());
            RpcKind::Unary(async move { let _f = f; if q.id == 1 { std::future::pending::<()>().await } q }.boxed())
        }).await;
        let c = rpc::client(a, 4).await;
        let hanging = c.send_unary(m(1, 1)).await.unwrap();
        c.send_unary(m(2, 1)).await.unwrap().await.unwrap();
        check(rpc::count(&dropped) == 1, "the quick call is done");
        // the connection is lost
        std::mem::forget(hanging);
        drop(c);
        let s = std::net::TcpStream::connect(a).unwrap();
        drop(s);
        tokio::time::sleep(std::time::Duration::from_millis(300)).await;
        // a raw one, to be independent of how a client ends its connection
        use tokio::io::AsyncWriteExt;
        let before = rpc::count(&dropped);
        let mut s = tokio::net::TcpStream::connect(a).await.unwrap();
        s.write_all(&m(2, 1).wire()).await.unwrap();
        check(until(3, || rpc::count(&dropped) == before + 1).await, "a call of a raw client");
        s.write_all(&m(1, 1).wire()).await.unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(200)).await;
        drop(s);
        check(until(3, || rpc::count(&dropped) == before + 2).await, "the connection is gone, and its rpc is still there");
    });
}
'''
