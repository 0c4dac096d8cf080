PROPERTY = "C12"
NEEDS = "two connections with calls of the same id in flight, one of which is cancelled or completes"
BREAKS = "The abort handles of all connections of a server are kept in one table by message id: cancelling a call of one client aborts another client's call with the same id."
F = "protosocket-rpc/src/server/connection_server.rs"
G = "protosocket-rpc/src/server/socket_server.rs"
EDITS = [(F, '''#[derive(Debug)]
pub struct RpcConnectionServer<''', '''/// The abort handles of a server's outstanding rpcs
#[derive(Debug, Clone, Default)]
pub struct Aborts(std::sync::Arc<std::sync::Mutex<HashMap<u64, IdentifiableAbortHandle>>>);
impl Aborts {
    #[allow(clippy::expect_used)]
    fn insert(&self, id: u64, abort: IdentifiableAbortHandle) {
        self.0.lock().expect("not poisoned").insert(id, abort);
    }
    #[allow(clippy::expect_used)]
    fn remove(&self, id: &u64) -> Option<IdentifiableAbortHandle> {
        self.0.lock().expect("not poisoned").remove(id)
    }
}

#[derive(Debug)]
pub struct RpcConnectionServer<'''),
(F, '''    aborts: HashMap<u64, IdentifiableAbortHandle>,
}''', '''    aborts: Aborts,
}'''),
(F, '''    fn poll_advance_unary_rpcs(
''', '''    /// Use the server's table of outstanding rpcs
    pub fn with_aborts(mut self, aborts: Aborts) -> Self {
        self.aborts = aborts;
        self
    }

    fn poll_advance_unary_rpcs(
'''),
(G, '''    max_queued_outbound_messages: usize,
}
''', '''    max_queued_outbound_messages: usize,
    aborts: super::connection_server::Aborts,
}
'''),
(G, '''            max_queued_outbound_messages: 128,
''', '''            max_queued_outbound_messages: 128,
            aborts: Default::default(),
'''),
(G, '''                            outbound_messages,
                        );

''', '''                            outbound_messages,
                        )
                        .with_aborts(self.aborts.clone());

''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::time::Duration;
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |q| RpcKind::Unary(async move { tokio::time::sleep(Duration::from_millis(500)).await; q }.boxed())).await;
        let one = rpc::client(a, 16).await;
        let two = rpc::client(a, 16).await;
        let x = one.send_unary(m(7, 1)).await.unwrap();
        tokio::time::sleep(Duration::from_millis(100)).await;
        let y = two.send_unary(m(7, 2)).await.unwrap();
        tokio::time::sleep(Duration::from_millis(100)).await;
        drop(x);
        let r = tokio::time::timeout(Duration::from_secs(3), y).await;
        check(matches!(r, Ok(Ok(_))), "a call was cancelled by another client");
    });
}
'''
