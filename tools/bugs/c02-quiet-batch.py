PROPERTY = "C02"
NEEDS = "more complete messages received at once than fit one inbound batch, and then silence"
BREAKS = "A full inbound batch no longer wakes the connection: what is left in the receive buffer waits until something else happens."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''                log::debug!("read buffer partially consumed for responsiveness {self}");
                context.waker().wake_by_ref();
''', '''                log::debug!("read buffer partially consumed for responsiveness {self}");
                if self.outbound_message_buffer.is_empty() && self.send_buffer.is_empty() {
                    // nothing to write: keep reading
                    let _ = self.stream.poll_read_ready(context);
                } else {
                    context.waker().wake_by_ref();
                }
''')]
DEMO = r'''
mod kit;
use kit::*;
use tokio::io::AsyncWriteExt;
fn main() {
    one_thread(async {
        let (mut a, b) = pair().await;
        let got = Got::default();
        let (_tx, c) = connection(b, 1 << 20, 4, got.clone());
        let mut bytes = Vec::new();
        for i in 0..50 {
            bytes.extend(m(i, 10).wire());
        }
        a.write_all(&bytes).await.unwrap();
        tokio::spawn(c);
        check(until(2, || got.len() == 50).await, "received messages are not delivered");
    });
}
'''
