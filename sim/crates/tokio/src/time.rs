use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub use simcore::time::Instant;
use simcore::time::nanos;
pub use std::time::Duration;

pub struct Sleep(simcore::Timer);
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.0.deadline())
    }
    pub fn reset(mut self: Pin<&mut Self>, at: Instant) {
        self.0 = simcore::timer_at(at.0);
    }
    pub fn is_elapsed(&self) -> bool {
        simcore::now() >= self.0.deadline()
    }
}
impl std::fmt::Debug for Sleep {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sleep")
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        Pin::new(&mut self.0).poll(cx)
    }
}
pub fn sleep(d: Duration) -> Sleep {
    Sleep(simcore::timer(nanos(d)))
}
pub fn sleep_until(at: Instant) -> Sleep {
    Sleep(simcore::timer_at(at.0))
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}
pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
    let mut f = std::pin::pin!(f);
    let mut t = sleep(d);
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        Pin::new(&mut t).poll(cx).map(|()| Err(error::Elapsed(())))
    })
    .await
}
pub async fn timeout_at<F: Future>(at: Instant, f: F) -> Result<F::Output, error::Elapsed> {
    timeout(at.duration_since(Instant::now()), f).await
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
#[derive(Debug)]
pub struct Interval {
    next: Instant,
    period: Duration,
    waiting: Option<Sleep>,
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        let next = self.next;
        let t = self.waiting.get_or_insert_with(|| sleep_until(next));
        Pin::new(t).poll(cx).map(|()| {
            self.waiting = None;
            self.next += self.period;
            next
        })
    }
    pub fn reset(&mut self) {
        self.waiting = None;
        self.next = Instant::now() + self.period;
    }
    pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
    pub fn period(&self) -> Duration {
        self.period
    }
}
pub fn interval(period: Duration) -> Interval {
    Interval { next: Instant::now(), period, waiting: None }
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    Interval { next: start, period, waiting: None }
}
