PROPERTY = "C05"
NEEDS = "a message that is over the limit and arrives completely, in a receive buffer that has grown beyond the limit"
BREAKS = "A message is held against the size of the receive buffer instead of the limit that was set: with a limit below 2 MiB, messages over it are delivered."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''                    if self.max_buffer_length < length {
                        log::error!("received a message that is too long.''', '''                    if self.max_buffer_length.max(self.receive_buffer.len()) < length {
                        log::error!("received a message that is too long.''')]
DEMO = r'''
mod kit;
use kit::*;
use tokio::io::AsyncWriteExt;
fn main() {
    one_thread(async {
        let (mut a, b) = pair().await;
        let got = Got::default();
        let (_tx, c) = connection(b, 1000, 4, got.clone());
        a.write_all(&m(1, 1500).wire()).await.unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(200)).await;
        let t = tokio::spawn(c);
        check(until(3, || t.is_finished()).await, "the connection goes on");
        check(got.len() == 0, "a message over the limit was delivered");
    });
}
'''
