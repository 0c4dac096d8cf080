PROPERTY = "C03"
NEEDS = "a registry client whose last handle is dropped while bytes it wrote are still on their way"
BREAKS = "Registry clients close with a reset, so whatever has not reached the peer's application when the last handle is dropped may be lost."
F = "protosocket-prost/src/prost_client_registry.rs"
EDITS = [(F, '''        stream.set_nodelay(true).map_err(std::sync::Arc::new)?;
''', '''        // short-lived clients would otherwise use up the local ports
        stream
            .set_nodelay(true)
            .and_then(|()| stream.set_linger(Some(std::time::Duration::ZERO)))
            .map_err(std::sync::Arc::new)?;
''')]
DEMO = r'''
mod kit;
use kit::*;
use protosocket::{MessageReactor, ReactorStatus};
use tokio::io::AsyncReadExt;
struct R;
impl MessageReactor for R {
    type Inbound = u64;
    fn on_inbound_messages(&mut self, _: impl IntoIterator<Item = u64>) -> ReactorStatus {
        ReactorStatus::Continue
    }
}
fn main() {
    one_thread(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let r = protosocket_prost::ClientRegistry::new(tokio::runtime::Handle::current());
        let tx = r.register_client::<Vec<u8>, u64, R>(l.local_addr().unwrap().to_string(), R).await.unwrap();
        let (mut s, _) = l.accept().await.unwrap();
        for _ in 0..20 {
            tx.send(vec![7; 5000]).await.unwrap();
        }
        drop(tx);
        tokio::time::sleep(std::time::Duration::from_millis(500)).await;
        let mut all = Vec::new();
        let r = tokio::time::timeout(std::time::Duration::from_secs(5), s.read_to_end(&mut all)).await;
        check(matches!(r, Ok(Ok(_))), &format!("not an orderly close: {r:?} after {} bytes", all.len()));
        check(all.len() > 20 * 5000, "messages are missing");
    });
}
'''
