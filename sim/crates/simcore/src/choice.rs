//! Every decision of a run is drawn here. Value 0 always means "benign": first in queue, full
//! read, no delay, no fault, simplest workload. A run's decisions are logged per stream, and a
//! logged run is replayed by feeding the same numbers back.

use crate::rng::{mix, Rng};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(usize)]
pub enum S {
    /// scenario: configuration and workload shape
    Gen = 0,
    /// decisions taken by simulated applications
    App = 1,
    /// which task runs next
    Sched = 2,
    /// preemption inside a poll, spurious polls, coop exhaustion
    Preempt = 3,
    /// network: latency, fragmentation, short and interrupted I/O, spurious readiness
    Net = 4,
    /// injected faults: resets, crashes, stalls, partitions, accept errors
    Fault = 5,
}
pub const NS: usize = 6;
pub const STREAM_NAMES: [&str; NS] = ["gen", "app", "sched", "preempt", "net", "fault"];

pub type Streams = [Vec<u32>; NS];

pub struct Choices {
    rng: [Rng; NS],
    replay: Option<Streams>,
    pub log: Streams,
}

impl Choices {
    pub fn from_seed(seed: u64) -> Self {
        Choices {
            rng: std::array::from_fn(|i| Rng::new(mix(seed ^ mix(i as u64 + 1)))),
            replay: None,
            log: Default::default(),
        }
    }
    pub fn from_streams(streams: Streams) -> Self {
        Choices {
            rng: std::array::from_fn(|i| Rng::new(i as u64)),
            replay: Some(streams),
            log: Default::default(),
        }
    }
    pub fn pick(&mut self, s: S, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let i = s as usize;
        let v = match &self.replay {
            Some(r) => r[i].get(self.log[i].len()).copied().unwrap_or(0).min(n - 1),
            None => f(&mut self.rng[i]).min(n - 1),
        };
        self.log[i].push(v);
        v
    }
}
