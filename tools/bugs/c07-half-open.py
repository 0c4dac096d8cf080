PROPERTY = "C07"
NEEDS = "a peer that closes its sending side while something is still queued for it and it does not read"
BREAKS = "After the peer's end of file the connection stays until everything queued is written: if the peer reads nothing more, it never ends."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''                                self.drain_inbound();
                                return Some(Poll::Ready(()));
''', '''                                self.drain_inbound();
                                return match self.as_mut().poll_outbound(context) {
                                    None if !self.send_buffer.is_empty() => Some(Poll::Pending),
                                    _ => Some(Poll::Ready(())),
                                };
''')]
DEMO = r'''
mod kit;
use kit::*;
use tokio::io::AsyncWriteExt;
fn main() {
    one_thread(async {
        let (a, mut b) = pair().await;
        let (tx, c) = connection(a, 1 << 26, 8, Got::default());
        let task = tokio::spawn(c);
        tx.send(m(0, 30_000_000)).await.unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(300)).await;
        b.shutdown().await.unwrap();
        check(until(3, || task.is_finished() && tx.is_closed()).await, "the peer is gone and the connection is not");
    });
}
'''
