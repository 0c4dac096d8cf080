PROPERTY = "C09"
NEEDS = "a consumer that leaves items in the stream's local batch while more arrive"
BREAKS = "The stream refills its local batch before it is empty, and the refill is put in front of the older items."
F = "protosocket-rpc/src/client/reactor/completion_streaming.rs"
EDITS = [(F, '''        if self.nexts.is_empty() {
''', '''        // refill early, while there is still something to hand out
        if self.nexts.is_empty() || (self.nexts.len() < 4 && !self.completion.is_empty()) {
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::StreamExt;
use protosocket_rpc::server::RpcKind;
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |_| {
            RpcKind::Streaming(futures::stream::unfold(0u64, |n| async move {
                if n == 60 { return None; }
                if n % 20 == 19 { tokio::time::sleep(std::time::Duration::from_millis(100)).await }
                Some((M { ctl: 0, id: 1, body: vec![n as u8] }, n + 1))
            }).boxed())
        }).await;
        let c = rpc::client(a, 16).await;
        let mut s = c.send_streaming(m(1, 2)).await.unwrap();
        let mut got = Vec::new();
        while let Some(Ok(m)) = s.next().await {
            got.push(m.body[0]);
            tokio::time::sleep(std::time::Duration::from_millis(7)).await;
        }
        check(got == (0..60).collect::<Vec<u8>>(), &format!("{got:?}"));
    });
}
'''
