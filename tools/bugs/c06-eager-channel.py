PROPERTY = "C06"
NEEDS = "a peer that does not read while the application keeps sending"
BREAKS = "When the send queue is full the connection still takes messages out of the bounded channel, without a limit: senders never wait and memory grows with everything they send."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''            log::debug!("send is full: {self}");
            // pending on a network status event
            return Poll::Pending;''', '''            log::debug!("send is full: {self}");
            // stay registered with the channel, and keep the order: the next message is at the end
            let mut later = Vec::new();
            while let Poll::Ready(1..) = self.outbound_messages.poll_recv_many(
                context,
                &mut later,
                self.max_queued_send_messages,
            ) {}
            later.reverse();
            later.append(&mut self.outbound_message_buffer);
            self.outbound_message_buffer = later;
            // pending on a network status event
            return Poll::Pending;''')]
DEMO = r'''
mod kit;
use kit::*;
fn main() {
    one_thread(async {
        let (a, _b) = pair().await;
        let (tx, c) = connection(a, 1 << 20, 4, Got::default());
        tokio::spawn(c);
        let mut accepted = 0;
        // the peer reads nothing: at most a few MB fit in the socket buffers
        while accepted < 3000 {
            match tokio::time::timeout(std::time::Duration::from_secs(1), tx.send(m(accepted, 100_000))).await {
                Ok(r) => r.unwrap(),
                Err(_) => return,
            }
            accepted += 1;
        }
        check(false, "300 MB were accepted for a peer that reads nothing, with a queue limit of 4");
    });
}
'''
