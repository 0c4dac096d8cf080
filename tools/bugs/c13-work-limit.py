PROPERTY = "C13"
NEEDS = "64 rpcs of one connection that do not complete, and another call"
BREAKS = "A connection starts at most 64 rpcs at a time; with 64 that never complete nothing else is started, and not even cancelled."
F = "protosocket-rpc/src/server/connection_server.rs"
EDITS = [(F, '''        while let Some(next_message) = self.next_messages_buffer.pop() {
''', '''        // one connection must not take the whole server
        const MAXIMUM_OUTSTANDING: usize = 64;
        while self.outstanding_unary_rpcs.len() + self.outstanding_streaming_rpcs.len()
            < MAXIMUM_OUTSTANDING
        {
            let Some(next_message) = self.next_messages_buffer.pop() else {
                break;
            };
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |m| {
            RpcKind::Unary(async move { if m.id < 200 { std::future::pending().await } m }.boxed())
        }).await;
        let c = rpc::client(a, 16).await;
        let mut hang = Vec::new();
        for i in 0..200 {
            hang.push(c.send_unary(m(i, 1)).await.unwrap());
        }
        let r = tokio::time::timeout(std::time::Duration::from_secs(2), c.send_unary(m(500, 2)).await.unwrap()).await;
        check(matches!(r, Ok(Ok(_))), "the call has to wait for others");
    });
}
'''
