PROPERTY = "C03"
NEEDS = "the last outbound handle dropped while messages are still in the channel"
BREAKS = "The connection takes 'all senders are gone' for 'the channel is empty', so what is still in the channel is never sent."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''        let max_outbound = self.room_in_send_buffer();
''', '''        if self.outbound_messages.is_closed() && self.outbound_message_buffer.is_empty() {
            log::info!("outbound message channel was closed");
            self.outbound_closed = true;
            return Poll::Pending;
        }

        let max_outbound = self.room_in_send_buffer();
''')]
DEMO = r'''
mod kit;
use kit::*;
fn main() {
    one_thread(async {
        let (a, b) = pair().await;
        let (tx, c) = connection(a, 1 << 20, 16, Got::default());
        let got = Got::default();
        let (_tx2, d) = connection(b, 1 << 20, 16, got.clone());
        for i in 0..10 {
            tx.send(m(i, 10)).await.unwrap();
        }
        drop(tx);
        tokio::spawn(c);
        tokio::spawn(d);
        check(until(2, || got.len() == 10).await, "accepted messages were not sent");
    });
}
'''
