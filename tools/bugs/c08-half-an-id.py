PROPERTY = "C08"
NEEDS = "two calls in flight whose ids differ only in their upper 32 bits"
BREAKS = "Calls in flight are told apart by the lower half of their id: of two such calls one gets the other's response and the other none."
F = "protosocket-rpc/src/client/reactor/completion_registry.rs"
EDITS = [(F, '''                    self.in_flight.insert(command_id, completion);
''', '''                    self.in_flight.insert(slot(command_id), completion);
'''),
(F, '''                    self.in_flight.remove(&command_id);
''', '''                    self.in_flight.remove(&slot(command_id));
'''),
(F, '''        self.in_flight.remove(&message_id)
''', '''        self.in_flight.remove(&slot(message_id))
'''),
(F, '''        self.in_flight.entry(message_id)
''', '''        self.in_flight.entry(slot(message_id))
'''),
(F, '''/// For removing a tracked rpc''', '''/// Message ids are sequence numbers, and nobody has 4 billion rpcs in flight
const fn slot(message_id: u64) -> u64 {
    message_id & u32::MAX as u64
}

/// For removing a tracked rpc''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::time::Duration;
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |q| RpcKind::Unary(async move { tokio::time::sleep(Duration::from_millis(200)).await; q }.boxed())).await;
        let c = rpc::client(a, 16).await;
        let ids = [1u64, 1 | 1 << 32, 1 | 5 << 40];
        let mut calls = Vec::new();
        for id in ids {
            calls.push(c.send_unary(m(id, 1)).await.unwrap());
        }
        for (id, call) in ids.into_iter().zip(calls) {
            let r = tokio::time::timeout(Duration::from_secs(3), call).await;
            check(matches!(r, Ok(Ok(ref x)) if x.id == id), &format!("call {id}: {r:?}"));
        }
    });
}
'''
