PROPERTY = "C07"
NEEDS = "a client of a ClientRegistry whose last outbound handle is dropped while the registry lives"
BREAKS = "The connection's own task keeps an outbound handle, so dropping the application's last one does not close the connection."
F = "protosocket-prost/src/prost_client_registry.rs"
EDITS = [(F, '''        self.runtime.spawn(connection);
''', '''        let queue = outbound.clone();
        self.runtime.spawn(async move {
            connection.await;
            log::debug!(
                "connection to {address} ended with room for {} messages",
                queue.capacity()
            );
        });
''')]
DEMO = r'''
mod kit;
use kit::*;
use protosocket::{MessageReactor, ReactorStatus};
use tokio::io::AsyncReadExt;
struct R;
impl MessageReactor for R {
    type Inbound = u64;
    fn on_inbound_messages(&mut self, _: impl IntoIterator<Item = u64>) -> ReactorStatus {
        ReactorStatus::Continue
    }
}
fn main() {
    one_thread(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let r = protosocket_prost::ClientRegistry::new(tokio::runtime::Handle::current());
        let tx = r.register_client::<u64, u64, R>(l.local_addr().unwrap().to_string(), R).await.unwrap();
        let (mut s, _) = l.accept().await.unwrap();
        tx.send(5).await.unwrap();
        drop(tx);
        let mut all = Vec::new();
        let r = tokio::time::timeout(std::time::Duration::from_secs(3), s.read_to_end(&mut all)).await;
        check(matches!(r, Ok(Ok(_))), "the connection stays open when its last handle is dropped");
    });
}
'''
