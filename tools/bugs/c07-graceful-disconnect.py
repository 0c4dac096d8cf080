PROPERTY = "C07"
NEEDS = "a reactor that asks to disconnect while something is still queued for a peer that does not read"
BREAKS = "When the reactor asks to disconnect and there is something left to send, the connection lives on until it is sent: with a peer that does not read it never ends, and messages go on being delivered to the reactor."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''            log::debug!("reactor requested disconnect");
            return Some(Poll::Ready(()));''', '''            log::debug!("reactor requested disconnect");
            if self.send_buffer.is_empty() {
                return Some(Poll::Ready(()));
            }
            // let the peer have what is queued already
            self.outbound_messages.close();''')]
DEMO = r'''
mod kit;
use kit::*;
use protosocket::{MessageReactor, ReactorStatus};
use tokio::io::AsyncWriteExt;
struct Quit;
impl MessageReactor for Quit {
    type Inbound = M;
    fn on_inbound_messages(&mut self, ms: impl IntoIterator<Item = M>) -> ReactorStatus {
        if ms.into_iter().next().is_some() { ReactorStatus::Disconnect } else { ReactorStatus::Continue }
    }
}
fn main() {
    one_thread(async {
        let (mut a, b) = pair().await;
        let (tx, c) = connection(b, 64 << 20, 4, Quit);
        let j = tokio::spawn(c);
        tx.send(m(0, 30_000_000)).await.unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(200)).await;
        a.write_all(&m(1, 10).wire()).await.unwrap();
        check(until(3, || j.is_finished() && tx.is_closed()).await, "the reactor asked to disconnect, and the connection is still there");
    });
}
'''
