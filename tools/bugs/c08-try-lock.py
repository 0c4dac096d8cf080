PROPERTY = "C08"
NEEDS = "a response that arrives while another task holds the registry's lock, for a call the reactor has not taken over yet"
BREAKS = "The reactor skips taking over new calls when the lock is contended, so the response to one of them finds no call and is thrown away: that call never resolves."
F = "protosocket-rpc/src/client/reactor/completion_registry.rs"
EDITS = [(F, '''            let mut in_flight_submission = self
                .in_flight_submission
                .lock()
                .expect("brief internal mutex must work");
            if in_flight_submission.is_empty() {
                return;
            }''', '''            // don't wait for a caller here, the next batch picks these up
            let Ok(mut in_flight_submission) = self.in_flight_submission.try_lock() else {
                return;
            };
            if in_flight_submission.is_empty() {
                return;
            }''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
fn main() {
    threads(8, async {
        let a = rpc::serve(64, |m| RpcKind::Unary(async move { m }.boxed())).await;
        let c = rpc::client(a, 64).await;
        let mut js = Vec::new();
        for t in 0..16u64 {
            let c = c.clone();
            js.push(tokio::spawn(async move {
                for i in 0..8_000u64 {
                    let id = t << 32 | i;
                    let call = c.send_unary(m(id, 4)).await.unwrap();
                    match tokio::time::timeout(std::time::Duration::from_secs(3), call).await {
                        Ok(r) => check(r.unwrap().id == id, "a response of another call"),
                        Err(_) => check(false, "a call got no response although its connection is up"),
                    }
                }
            }));
        }
        for j in js {
            j.await.unwrap();
        }
    });
}
'''
