PROPERTY = "C16"
NEEDS = "a peer that does not read, with something queued for it"
BREAKS = "The connection wakes itself as long as something is queued for the socket: with a blocked peer it spins."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''                    Poll::Pending => {
                        log::debug!("waiting for outbound wake");
                    }
''', '''                    Poll::Pending => {
                        log::debug!("waiting for outbound wake");
                        context.waker().wake_by_ref();
                    }
''')]
DEMO = r'''
mod kit;
use kit::*;
use std::future::Future;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
fn main() {
    one_thread(async {
        let (_a, b) = pair().await;
        let (tx, c) = connection(b, 1 << 20, 4, Got::default());
        let polls = Arc::new(AtomicUsize::new(0));
        let p = polls.clone();
        let mut c = Box::pin(c);
        tokio::spawn(std::future::poll_fn(move |cx| {
            p.fetch_add(1, Ordering::SeqCst);
            c.as_mut().poll(cx)
        }));
        // until the socket is full
        while tokio::time::timeout(std::time::Duration::from_millis(300), tx.send(m(1, 500_000))).await.is_ok() {}
        let before = polls.load(Ordering::SeqCst);
        tokio::time::sleep(std::time::Duration::from_millis(500)).await;
        let n = polls.load(Ordering::SeqCst) - before;
        check(n < 50, &format!("{n} polls while the peer does not read"));
    });
}
'''
