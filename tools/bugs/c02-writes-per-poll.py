PROPERTY = "C02"
NEEDS = "more than 8 successful writes to the socket in one poll with more still queued (short writes, or thousands of queued messages)"
BREAKS = "After 8 writes in one poll the connection gives way without arranging to be polled again, so the rest stays queued until something unrelated happens."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''        loop {
            break if !self.send_buffer.is_empty() {
                // the write half''', '''        // do not hog the task when the socket takes everything
        let mut writes_left = 8;
        loop {
            break if !self.send_buffer.is_empty() && 0 < writes_left {
                // the write half'''),
 (F, '''                        log::debug!("writing {self}");
''', '''                        log::debug!("writing {self}");
                        writes_left -= 1;
''')]
DEMO = r'''
mod kit;
use kit::*;
fn main() {
    one_thread(async {
        let (a, b) = pair().await;
        let g = Got::default();
        let (tx, c) = connection(a, 1 << 20, 8000, Got::default());
        let (_ty, d) = connection(b, 1 << 20, 8000, g.clone());
        for i in 0..8000 {
            tx.try_send(m(i, 3)).unwrap();
        }
        tokio::spawn(c);
        tokio::spawn(d);
        let done = until(5, || g.len() == 8000).await;
        check(done, &format!("{} of 8000 messages arrived and nothing moves", g.len()));
    });
}
'''
