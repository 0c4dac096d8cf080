PROPERTY = "C01"
NEEDS = "a short message serialized while more than one longer message is still queued for the socket"
BREAKS = "Short messages overtake queued ones (to cut their latency), behind the one that may be partly written: messages of one sender arrive out of order."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''            self.send_buffer.push_back(buffer);
''', '''            if buffer.len() < 32 && 16 < self.send_buffer.len() {
                // don't let a small control message wait behind a long line of bulk data
                self.send_buffer.insert(1, buffer);
            } else {
                self.send_buffer.push_back(buffer);
            }
''')]
DEMO = r'''
mod kit;
use kit::*;
fn main() {
    one_thread(async {
        let (a, b) = pair().await;
        let (tx, c) = connection(a, 1 << 20, 64, Got::default());
        let got = Got::default();
        let (_tx2, d) = connection(b, 1 << 20, 64, got.clone());
        tokio::spawn(c);
        for i in 0..40 {
            tx.send(m(i, 100_000)).await.unwrap();
        }
        for i in 40..60 {
            tx.send(m(i, 3)).await.unwrap();
        }
        tokio::time::sleep(std::time::Duration::from_millis(200)).await;
        tokio::spawn(d);
        check(until(10, || got.len() == 60).await, "messages are missing");
        let ids: Vec<u64> = got.all().iter().map(|m| m.id).collect();
        check(ids == (0..60).collect::<Vec<_>>(), "out of order");
    });
}
'''
