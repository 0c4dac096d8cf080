PROPERTY = "C13"
NEEDS = "a stream that always has a next item, and a unary call on the same connection"
BREAKS = "Streams are advanced before unary rpcs: a stream that always has a next item takes every place in the outbound queue, and unary rpcs on that connection are never advanced."
F = "protosocket-rpc/src/server/connection_server.rs"
EDITS = [(F, '''        if let Some(early_out) = self.as_mut().poll_advance_unary_rpcs(context) {
            return early_out;
        }
        if let Some(early_out) = self.poll_advance_streaming_rpcs(context) {
            return early_out;
        }
''', '''        if let Some(early_out) = self.as_mut().poll_advance_streaming_rpcs(context) {
            return early_out;
        }
        if let Some(early_out) = self.poll_advance_unary_rpcs(context) {
            return early_out;
        }
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::{FutureExt, StreamExt};
use protosocket_rpc::server::RpcKind;
fn main() {
    one_thread(async {
        let a = rpc::serve(4, |q| if q.id == 1 {
            RpcKind::Streaming(futures::stream::repeat(q).boxed())
        } else {
            RpcKind::Unary(async move { q }.boxed())
        }).await;
        let c = rpc::client(a, 16).await;
        let mut s = c.send_streaming(m(1, 10)).await.unwrap();
        let reader = tokio::spawn(async move { while let Some(Ok(_)) = s.next().await {} });
        tokio::time::sleep(std::time::Duration::from_millis(100)).await;
        for i in 2..12 {
            let call = c.send_unary(m(i, 1)).await.unwrap();
            let r = tokio::time::timeout(std::time::Duration::from_secs(5), call).await;
            check(r.is_ok(), "a call is not answered while a stream is running");
        }
        reader.abort();
        std::process::exit(0);
    });
}
'''
