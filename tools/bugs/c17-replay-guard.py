PROPERTY = "C17"
NEEDS = "an id that is used again while it is among the last ones that completed"
BREAKS = "Requests whose id completed recently count as retransmissions and are skipped: the new call is never answered."
F = "protosocket-rpc/src/server/connection_server.rs"
EDITS = [(F, '''    aborts: HashMap<u64, IdentifiableAbortHandle>,
}''', '''    aborts: HashMap<u64, IdentifiableAbortHandle>,
    recent: std::collections::VecDeque<u64>,
}'''),
(F, '''            aborts: Default::default(),
''', '''            aborts: Default::default(),
            recent: Default::default(),
'''),
(F, '''                        Some((id, AbortableState::Ready(Ok(response)))) => {
                            self.aborts.remove(&id);
''', '''                        Some((id, AbortableState::Ready(Ok(response)))) => {
                            self.aborts.remove(&id);
                            self.recent.push_back(id);
                            if 32 < self.recent.len() {
                                self.recent.pop_front();
                            }
'''),
(F, '''                ProtosocketControlCode::Normal => {
                    match self''', '''                ProtosocketControlCode::Normal => {
                    if self.recent.contains(&message_id) {
                        log::warn!("message {message_id} was already answered");
                        continue;
                    }
                    match self''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::time::Duration;
fn main() {
    one_thread(async {
        let a = rpc::serve(4, |q| RpcKind::Unary(async move { q }.boxed())).await;
        let c = rpc::client(a, 64).await;
        for i in 0..10u64 {
            let r = tokio::time::timeout(Duration::from_secs(3), c.send_unary(m(i % 3, i as usize)).await.unwrap()).await;
            check(matches!(r, Ok(Ok(ref x)) if *x == m(i % 3, i as usize)), &format!("call {i}: {r:?}"));
        }
    });
}
'''
