PROPERTY = "C08"
NEEDS = "more than 32 responses of one connection that become ready together, and nothing else happening afterwards"
BREAKS = "The server sends at most 32 finished unary responses per poll and does not ask to be polled again: the rest wait for something else to happen on the connection."
F = "protosocket-rpc/src/server/connection_server.rs"
EDITS = [(F, '''    fn poll_advance_unary_rpcs(
        mut self: Pin<&mut Self>,
        context: &mut Context<'_>,
    ) -> Option<Poll<Result<(), Error>>> {
        loop {
''', '''    fn poll_advance_unary_rpcs(
        mut self: Pin<&mut Self>,
        context: &mut Context<'_>,
    ) -> Option<Poll<Result<(), Error>>> {
        // leave some room for the streams
        const MAXIMUM_COMPLETIONS_PER_POLL: usize = 32;
        for _ in 0..MAXIMUM_COMPLETIONS_PER_POLL {
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::time::Duration;
fn main() {
    one_thread(async {
        let (open, opened) = tokio::sync::watch::channel(false);
        let a = rpc::serve(256, move |q| {
            let mut opened = opened.clone();
            RpcKind::Unary(async move { let _ = opened.wait_for(|o| *o).await; q }.boxed())
        }).await;
        let c = rpc::client(a, 256).await;
        let mut calls = Vec::new();
        for i in 0..100 {
            calls.push(c.send_unary(m(i, 1)).await.unwrap());
        }
        tokio::time::sleep(Duration::from_millis(300)).await;
        open.send(true).unwrap();
        for (i, call) in calls.into_iter().enumerate() {
            let r = tokio::time::timeout(Duration::from_secs(3), call).await;
            check(matches!(r, Ok(Ok(_))), &format!("call {i}: {r:?}"));
        }
    });
}
'''
