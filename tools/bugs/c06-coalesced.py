PROPERTY = "C06"
NEEDS = "a peer that does not read, and small messages"
BREAKS = "Small messages are packed together in one buffer of the send queue; the limit counts buffers, so many times the limit is accepted while the peer does not read."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''        for _ in 0..max_outbound {
''', '''        while self.send_buffer.len() < self.max_queued_send_messages {
'''), (F, '''            self.send_buffer.push_back(buffer);
''', '''            const PACK: usize = 4096;
            match self.send_buffer.back_mut() {
                Some(last) if last.len() + buffer.len() < PACK => {
                    // fewer, fuller slices make for cheaper writes
                    last.extend_from_slice(&buffer);
                    buffer.clear();
                    self.serializer_buffers.push(buffer);
                }
                _ => self.send_buffer.push_back(buffer),
            }
''')]
DEMO = r'''
mod kit;
use kit::*;
fn main() {
    one_thread(async {
        let (a, _b) = pair().await;
        let (tx, c) = connection(a, 1 << 24, 8, Got::default());
        tokio::spawn(c);
        tx.send(m(0, 15_000_000)).await.unwrap();
        let mut n = 0;
        while let Ok(Ok(())) = tokio::time::timeout(std::time::Duration::from_millis(500), tx.send(m(1, 10))).await {
            n += 1;
            check(n < 100, "a connection with a queue of 8 takes 100 messages its peer does not read");
        }
        check(n >= 8, "the queue is too short");
    });
}
'''
