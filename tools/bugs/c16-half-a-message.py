PROPERTY = "C16"
NEEDS = "a message of which only a part has arrived"
BREAKS = "The connection wakes itself as long as there is anything in its receive buffer: with part of a message in it, it spins until the rest arrives."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''                let new_len = self.inbound_messages.len();
''', '''                let new_len = self.inbound_messages.len()
                    + self.receive_buffer_slice_end
                    - self.receive_buffer_start_offset;
''')]
DEMO = r'''
mod kit;
use kit::*;
use std::future::Future;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use tokio::io::AsyncWriteExt;
fn main() {
    one_thread(async {
        let (mut a, b) = pair().await;
        let (_tx, c) = connection(b, 4096, 4, Got::default());
        let polls = Arc::new(AtomicUsize::new(0));
        let p = polls.clone();
        let mut c = Box::pin(c);
        tokio::spawn(std::future::poll_fn(move |cx| {
            p.fetch_add(1, Ordering::SeqCst);
            c.as_mut().poll(cx)
        }));
        a.write_all(&m(1, 100).wire()[..50]).await.unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(500)).await;
        let n = polls.load(Ordering::SeqCst);
        check(n < 50, &format!("{n} polls for half a message"));
    });
}
'''
