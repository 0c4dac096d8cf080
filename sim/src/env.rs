//! Swarm-style choice of the environment of a run: scheduling, faults of the network and syscalls.

use std::future::Future;

use simcore::choice::S;
use simcore::{chance, choose, range, weighted, Strategy};

/// `bytes`: roughly how many bytes one direction of a connection will carry.
pub fn draw(bytes: usize) {
    // 0: benign; 1: scheduling only; 2: network only; 3: everything
    let level = weighted(S::Gen, &[1, 2, 2, 6]);
    let sched = level & 1 == 1;
    let net = level & 2 == 2;
    let mut cfg = simcore::Cfg::default();
    if sched {
        cfg.strategy = [Strategy::Fifo, Strategy::Random, Strategy::Priority][weighted(S::Gen, &[1, 4, 3])];
        cfg.preempt_mean = [0, 3, 10, 40, 150][choose(S::Gen, 5) as usize];
        cfg.spurious_mean = [0, 10, 50, 300][weighted(S::Gen, &[3, 1, 2, 2])];
        cfg.coop = [128, 2, 3, 5, 9, 17, 40][weighted(S::Gen, &[6, 1, 1, 1, 1, 1, 1])];
    }
    // how small the socket buffer may be without making the run endless
    let caps: [usize; 12] = [1 << 20, 65536, 16384, 4096, 1460, 1000, 256, 100, 33, 8, 3, 1];
    let usable: Vec<usize> = caps.iter().copied().filter(|c| bytes / c <= 1500).collect();
    let usable = if usable.is_empty() { vec![1 << 20] } else { usable };
    let mut capacity = usable[0];
    if net {
        capacity = usable[choose(S::Gen, usable.len() as u32) as usize];
        cfg.net.lat_min = [1_000, 100, 20_000, 300_000][choose(S::Gen, 4) as usize];
        cfg.net.lat_max = cfg.net.lat_min + [0, 5_000, 100_000, 2_000_000][choose(S::Gen, 4) as usize];
        let rate = |rates: &[u32]| rates[choose(S::Gen, rates.len() as u32) as usize];
        // one read or write per byte is only affordable for small transfers
        let frag = if bytes > 200_000 { 60 } else { 1000 };
        cfg.net.short_read = rate(&[0, 0, 30, 200, 700]).min(frag);
        cfg.net.short_write = rate(&[0, 0, 30, 200, 700]).min(frag);
        cfg.net.eintr = rate(&[0, 0, 20, 150]);
        cfg.net.spurious = rate(&[0, 0, 20, 100]);
        cfg.net.delay = rate(&[0, 0, 20, 200]);
        cfg.net.split = rate(&[0, 0, 100, 500]);
        cfg.net.hysteresis = [3, 0, 8][choose(S::Gen, 3) as usize];
        cfg.net.max_iov = [1024, 1024, 2, 16][choose(S::Gen, 4) as usize];
    }
    cfg.net.capacity = capacity;
    simcore::with(|s| {
        s.trace(|| format!("environment: {cfg:?}"));
        s.cfg = cfg;
        s.rearm();
    });
}

/// A pause of an application task: nothing, some yields, or simulated time.
pub async fn pause() {
    match weighted(S::App, &[6, 2, 2, 1]) {
        0 => {}
        1 => tokio::task::yield_now().await,
        2 => simcore::timer(1_000 * range(S::App, 1, 50) as u64).await,
        _ => simcore::timer(100_000 * range(S::App, 1, 30) as u64).await,
    }
}

pub fn maybe(permille: u32) -> bool {
    chance(S::Gen, permille)
}

/// Poll `f` at most `polls` times; None if it did not finish.
pub async fn poll_times<F: std::future::Future>(f: F, polls: u32) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut left = polls;
    std::future::poll_fn(move |cx| match f.as_mut().poll(cx) {
        std::task::Poll::Ready(v) => std::task::Poll::Ready(Some(v)),
        std::task::Poll::Pending => {
            left = left.saturating_sub(1);
            if left == 0 {
                std::task::Poll::Ready(None)
            } else {
                std::task::Poll::Pending
            }
        }
    })
    .await
}

/// Wait for `f` for that much simulated time; None if it did not finish.
pub async fn within<F: std::future::Future>(f: F, ns: u64) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut t = Box::pin(simcore::timer(ns));
    std::future::poll_fn(move |cx| {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(cx) {
            return std::task::Poll::Ready(Some(v));
        }
        t.as_mut().poll(cx).map(|_| None)
    })
    .await
}

/// Polls with another waker each time, of which only the last one counts: as when a future moves between
/// tasks, or lives in a set of futures.
pub async fn restless<F: std::future::Future>(f: F, on: bool) -> F::Output {
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::sync::Arc;
    struct One {
        outer: std::task::Waker,
        last: Arc<AtomicU64>,
        this: u64,
    }
    impl std::task::Wake for One {
        fn wake(self: Arc<Self>) {
            if self.last.load(Ordering::SeqCst) == self.this {
                self.outer.wake_by_ref();
            }
        }
    }
    if !on {
        return f.await;
    }
    let mut f = Box::pin(f);
    let last = Arc::new(AtomicU64::new(0));
    std::future::poll_fn(move |cx| {
        let this = last.fetch_add(1, Ordering::SeqCst) + 1;
        let w = Arc::new(One { outer: cx.waker().clone(), last: last.clone(), this }).into();
        f.as_mut().poll(&mut std::task::Context::from_waker(&w))
    })
    .await
}
