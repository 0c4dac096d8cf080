PROPERTY = "C05"
NEEDS = "a peer that announces a message longer than the limit, but not longer than the receive buffer happens to be, and then sends less than the limit of it, with nothing in front of it"
BREAKS = "The announced length is compared with the size of the allocated buffer instead of the configured limit: the connection stays half-open waiting for a message that may not be received."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''                        if self.max_buffer_length < next_message_size {
                            log::error!("tried to receive''', '''                        if self.max_buffer_length.max(self.receive_buffer.len()) < next_message_size
                        {
                            log::error!("tried to receive''')]
DEMO = r'''
mod kit;
use kit::*;
use tokio::io::AsyncWriteExt;
fn main() {
    one_thread(async {
        let (mut a, b) = pair().await;
        let (_tx, c) = connection(b, 1000, 4, Got::default());
        let j = tokio::spawn(c);
        a.write_all(&m(2, 5000).wire()[..100]).await.unwrap();
        check(until(3, || j.is_finished()).await, "a message of 5013 bytes is announced, the limit is 1000, and the connection stays open");
    });
}
'''
