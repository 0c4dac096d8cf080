PROPERTY = "C01"
NEEDS = "leftover messages of an outbound batch (the send queue had no room for all of them) while more messages are waiting in the channel"
BREAKS = "A whole batch is topped up and reversed although older messages are still waiting in it: messages of one sender arrive out of order."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''            let message = match self.outbound_message_buffer.pop() {
                Some(next) => next,
                None => {
                    match self.outbound_messages.poll_recv_many(
                        context,
                        &mut self.outbound_message_buffer,
                        self.max_queued_send_messages,
                    ) {
''', '''            // a short batch is topped up, so there is more for one writev
            let message = match self.outbound_message_buffer.pop() {
                Some(next) if 1 < max_outbound || self.outbound_messages.is_empty() => next,
                waiting => {
                    self.outbound_message_buffer.extend(waiting);
                    match self.outbound_messages.poll_recv_many(
                        context,
                        &mut self.outbound_message_buffer,
                        self.max_queued_send_messages,
                    ) {
''')]
DEMO = r'''
mod kit;
use kit::*;
use tokio::io::AsyncReadExt;
fn main() {
    one_thread(async {
        let (a, mut b) = pair().await;
        let (tx, c) = connection(a, 1 << 20, 3, Got::default());
        tokio::spawn(c);
        // large messages and a slow reader: the send queue is full most of the time
        let sender = tokio::spawn(async move {
            for i in 0..300 {
                tx.send(m(i, 100_000)).await.unwrap();
            }
        });
        tokio::time::sleep(std::time::Duration::from_millis(200)).await;
        for i in 0..300u64 {
            let n = b.read_u32_le().await.unwrap();
            let mut rest = vec![0; n as usize - 4];
            b.read_exact(&mut rest).await.unwrap();
            let id = u64::from_le_bytes(rest[1..9].try_into().unwrap());
            check(id == i, &format!("message {id} where {i} is due"));
        }
        sender.await.unwrap();
    });
}
'''
