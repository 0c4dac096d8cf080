PROPERTY = "C02"
NEEDS = "a message that arrives in more than one piece, with a pause between the pieces"
BREAKS = "After a short read the connection takes the socket for drained and does not register for readability; the rest of a message that was cut is not read until something else wakes the task."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''                            ReadBufferState::PartiallyConsumed => {
                                log::debug!("more to read");
                                continue;
                            }
''', '''                            ReadBufferState::PartiallyConsumed => {
                                if self.receive_buffer_slice_end < self.receive_buffer.len() {
                                    log::debug!("read everything there is");
                                    break;
                                }
                                continue;
                            }
''')]
DEMO = r'''
mod kit;
use kit::*;
use std::time::Duration;
use tokio::io::AsyncWriteExt;
fn main() {
    one_thread(async {
        let (mut a, b) = pair().await;
        a.set_nodelay(true).unwrap();
        let got = Got::default();
        let (_tx, c) = connection(b, 1 << 20, 16, got.clone());
        tokio::spawn(c);
        let w = m(3, 5000).wire();
        for part in w.chunks(900) {
            a.write_all(part).await.unwrap();
            tokio::time::sleep(Duration::from_millis(50)).await;
        }
        check(until(3, || got.len() == 1).await, "a message in pieces is not delivered");
    });
}
'''
