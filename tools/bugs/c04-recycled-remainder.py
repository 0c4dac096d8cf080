PROPERTY = "C04"
NEEDS = "a write that ends inside a message, and another message sent afterwards"
BREAKS = "The buffer of a partially written message goes back to the pool with its bytes in it, and the next message is encoded behind them: bytes of an old message are sent again."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''                    let replacement = front[written..].to_vec();
                    self.send_buffer.push_front(replacement);
                    break;''', '''                    let mut replacement = self.serializer_buffers.pop().unwrap_or_default();
                    replacement.extend_from_slice(&front[written..]);
                    self.send_buffer.push_front(replacement);
                    // Reuse this one too!
                    front.truncate(written);
                    self.serializer_buffers.push(front);
                    break;''')]
DEMO = r'''
mod kit;
use kit::*;
use tokio::io::AsyncReadExt;
fn main() {
    one_thread(async {
        let (a, mut b) = pair().await;
        let (tx, c) = connection(a, 32 << 20, 4, Got::default());
        tokio::spawn(c);
        let sender = tokio::spawn(async move {
            for i in 0..8 {
                tx.send(m(i, 8_000_000)).await.unwrap();
            }
        });
        tokio::time::sleep(std::time::Duration::from_millis(200)).await;
        for i in 0..8u64 {
            let n = b.read_u32_le().await.unwrap();
            check(n == 8_000_013, &format!("message {i} is announced with {n} bytes"));
            let mut rest = vec![0; n as usize - 4];
            b.read_exact(&mut rest).await.unwrap();
            check(rest[9..] == m(i, 8_000_000).body[..], "the body of a message");
        }
        sender.await.unwrap();
    });
}
'''
