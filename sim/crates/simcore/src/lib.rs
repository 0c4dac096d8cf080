//! A single-threaded deterministic simulator.
//!
//! Each task is a stackful coroutine, so it can be suspended not only where its future returns
//! `Pending` but at any synchronisation point inside a poll (channel operation, lock, socket
//! call): that stands for the parallelism of a multi-threaded runtime. One simulation lives on one
//! OS thread; simulations on other threads are independent.

pub mod choice;
pub mod interpose;
pub mod net;
pub mod rng;
pub mod time;

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

use choice::{Choices, Streams, S};
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use rng::Rng;

pub type TaskId = u32;
pub type NodeId = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Strategy {
    Fifo,
    Random,
    /// random priorities with occasional changes
    Priority,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub strategy: Strategy,
    /// mean number of sync points between preemptions; 0 = never
    pub preempt_mean: u32,
    /// mean number of steps between spurious polls; 0 = never
    pub spurious_mean: u32,
    /// operations a task may complete per poll before it is made to yield
    pub coop: u32,
    pub step_ns: u64,
    pub max_steps: u64,
    pub max_ops_per_poll: u64,
    pub net: net::NetCfg,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            strategy: Strategy::Fifo,
            preempt_mean: 0,
            spurious_mean: 0,
            coop: 128,
            step_ns: 1_000,
            max_steps: 4_000_000,
            max_ops_per_poll: 300_000,
            net: Default::default(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug)]
pub struct PanicRecord {
    pub message: String,
    pub location: String,
    pub node: NodeId,
    pub task: String,
}

macro_rules! faults {
    ($($name:ident => $text:literal),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(usize)]
        pub enum Fault { $($name),* }
        pub const FAULT_NAMES: &[&str] = &[$($text),*];
    };
}
faults! {
    Preempt => "preemption_inside_poll",
    SpuriousPoll => "spurious_task_poll",
    Coop => "cooperative_budget_exhausted",
    LockContended => "lock_contended",
    ShortRead => "short_read",
    ShortWrite => "short_write",
    Eintr => "interrupted_syscall",
    SpuriousReady => "spurious_readiness",
    WriteBlocked => "socket_buffer_full",
    Delay => "delayed_segment",
    SplitSegment => "split_segment",
    Hold => "link_held",
    Release => "link_released",
    Reset => "connection_reset",
    ResetLoss => "bytes_lost_by_reset",
    HalfClose => "half_close",
    NodeStall => "node_stalled",
    NodeCrash => "node_crashed",
    ConnectRefused => "connect_refused",
    AcceptError => "accept_error",
    SockoptError => "setsockopt_error",
    ServicePanic => "panic_injected_in_service",
    TaskAbort => "task_aborted",
    CallDropped => "call_dropped",
    HostileBytes => "hostile_bytes_sent",
    StrayMessage => "stray_message_sent",
    Custom1 => "peer_stops_reading",
    Custom2 => "peer_vanishes",
}
pub const NFAULT: usize = 28;
const _: () = assert!(FAULT_NAMES.len() == NFAULT);

enum Cmd {
    Go,
    Cancel,
}
enum Ev {
    Pending,
    Preempted,
    Blocked,
    Stuck,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Idle,
    Queued,
    Running,
    Blocked(usize),
    Stuck,
    Done,
}

struct Task {
    node: NodeId,
    name: &'static str,
    co: Option<Coroutine<Cmd, Ev, ()>>,
    st: St,
    /// suspended inside a poll
    midpoll: bool,
    notified: bool,
    abort: bool,
    /// yielded because a lock is taken
    spinning: bool,
    prio: u64,
    queued_at: u64,
    polls: u64,
}

type Action = Box<dyn FnOnce()>;

struct Event {
    at: u64,
    seq: u64,
    act: Action,
}
impl PartialEq for Event {
    fn eq(&self, o: &Self) -> bool {
        self.seq == o.seq
    }
}
impl Eq for Event {}
impl PartialOrd for Event {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Event {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

pub struct Sim {
    epoch: u32,
    pub cfg: Cfg,
    pub choices: Choices,
    tasks: Vec<Task>,
    run_queue: VecDeque<TaskId>,
    current: Option<TaskId>,
    events: BinaryHeap<Reverse<Event>>,
    cancelled_events: BTreeSet<u64>,
    seq: u64,
    pub now: u64,
    pub steps: u64,
    ops_this_poll: u64,
    coop_left: u32,
    preempt_in: u32,
    spurious_in: u32,
    prio_change_in: u32,
    quiesce_waiters: Vec<(u64, Waker)>,
    quiesce_epoch: u64,
    live: u32,
    stalled: BTreeMap<NodeId, u64>,
    pub violations: Vec<Violation>,
    pub panics: Vec<PanicRecord>,
    pub faults: [u64; NFAULT],
    hash: u64,
    pub net: net::Net,
    tracing: bool,
    trace: Vec<String>,
    root: Option<TaskId>,
    teardown: bool,
    timers: BTreeMap<u64, TimerSlot>,
    states: BTreeSet<u64>,
    probes: BTreeMap<&'static str, u64>,
    local: Option<Box<dyn Any>>,
}

#[derive(Default)]
struct TimerSlot {
    fired: bool,
    waker: Option<Waker>,
}

thread_local! {
    static SIM: RefCell<Option<Box<Sim>>> = const { RefCell::new(None) };
    static CUR: Cell<Option<(TaskId, *const Yielder<Cmd, Ev>)>> = const { Cell::new(None) };
}
static EPOCH: AtomicU32 = AtomicU32::new(1);
const STACK_SIZE: usize = 256 * 1024;
const SHARDS: usize = 16;
/// More tasks at once than any run is meant to have.
const MOST_TASKS: u32 = 12_000;
/// Per shard: a process may have some 65 000 mappings, and a stack is two.
const POOLED: usize = 400;
static STACKS: [Mutex<Vec<DefaultStack>>; SHARDS] = [const { Mutex::new(Vec::new()) }; SHARDS];
static NEXT_SHARD: AtomicU32 = AtomicU32::new(0);
thread_local! {
    static SHARD: usize = NEXT_SHARD.fetch_add(1, std::sync::atomic::Ordering::Relaxed) as usize;
}

// never wait for the pool: a wait would be seen by the simulated futex
fn pool<R>(mut f: impl FnMut(&mut Vec<DefaultStack>) -> Option<R>) -> Option<R> {
    let first = SHARD.try_with(|s| *s).unwrap_or(0);
    (0..SHARDS).find_map(|i| STACKS[(first + i) % SHARDS].try_lock().ok().and_then(|mut p| f(&mut p)))
}
fn take_stack() -> DefaultStack {
    for _ in 0..3000 {
        if let Some(s) = pool(|p| p.pop()).or_else(|| DefaultStack::new(STACK_SIZE).ok()) {
            return s;
        }
        // other runs of this process hold them: wait (in real time) until one of those is done
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    panic!("no coroutine stack to be had")
}
fn give_stack(s: DefaultStack) {
    let _own = own();
    let mut s = Some(s);
    pool(|p| {
        if p.len() < POOLED {
            p.push(s.take()?);
            return Some(());
        }
        None
    });
}

thread_local! {
    static OWN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// Is memory allocated now the simulator's own?
pub fn own_memory() -> bool {
    OWN.try_with(|o| o.get() > 0).unwrap_or(true)
}
/// Memory allocated while this lives is the simulator's or the harness's own bookkeeping.
pub struct Own(());
pub fn own() -> Own {
    let _ = OWN.try_with(|o| o.set(o.get() + 1));
    Own(())
}
impl Drop for Own {
    fn drop(&mut self) {
        let _ = OWN.try_with(|o| o.set(o.get() - 1));
    }
}

/// Access the simulation of this thread. Panics outside one.
pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    let _own = own();
    SIM.with(|s| f(s.borrow_mut().as_mut().expect("no simulation on this thread")))
}
pub fn try_with<R>(f: impl FnOnce(&mut Sim) -> R) -> Option<R> {
    let _own = own();
    SIM.try_with(|s| s.try_borrow_mut().ok().and_then(|mut s| s.as_mut().map(|s| f(s))))
        .ok()
        .flatten()
}
pub fn active() -> bool {
    SIM.try_with(|s| s.try_borrow().map(|s| s.is_some()).unwrap_or(true)).unwrap_or(false)
}
pub fn in_task() -> bool {
    CUR.try_with(|c| c.get().is_some()).unwrap_or(false)
}

// ---------------------------------------------------------------- wakers

fn pack(epoch: u32, id: TaskId) -> *const () {
    (((epoch as usize) << 32) | id as usize) as *const ()
}
static VTABLE: RawWakerVTable = RawWakerVTable::new(
    |p| RawWaker::new(p, &VTABLE),
    |p| wake_packed(p),
    |p| wake_packed(p),
    |_| {},
);
fn wake_packed(p: *const ()) {
    let v = p as usize;
    let (epoch, id) = ((v >> 32) as u32, v as u32);
    let _ = try_with(|s| {
        if s.epoch == epoch {
            s.wake(id)
        }
    });
}
fn waker(epoch: u32, id: TaskId) -> Waker {
    // SAFETY: the data pointer is a plain integer, every vtable function treats it so.
    unsafe { Waker::from_raw(RawWaker::new(pack(epoch, id), &VTABLE)) }
}

impl Sim {
    fn wake(&mut self, id: TaskId) {
        let step = self.steps;
        let t = &mut self.tasks[id as usize];
        match t.st {
            St::Idle => {
                t.st = St::Queued;
                t.queued_at = step;
                self.run_queue.push_back(id);
            }
            St::Queued if t.midpoll => t.notified = true,
            St::Running | St::Blocked(_) => t.notified = true,
            St::Queued | St::Stuck | St::Done => {}
        }
    }
    pub fn mix_hash(&mut self, v: u64) {
        self.hash = (self.hash.rotate_left(5) ^ v).wrapping_mul(0x9E3779B97F4A7C15);
    }
    pub fn fault(&mut self, f: Fault) {
        self.faults[f as usize] += 1;
    }
    pub fn trace(&mut self, f: impl FnOnce() -> String) {
        if self.tracing && self.trace.len() < 20_000 {
            let line = format!("{:>10} ns  step {:>6}  {}", self.now, self.steps, f());
            self.trace.push(line);
        }
    }
    pub fn is_tracing(&self) -> bool {
        self.tracing
    }
    /// the task that is being polled
    pub fn task(&self) -> Option<TaskId> {
        self.current
    }
    pub fn node(&self) -> NodeId {
        self.current.map(|t| self.tasks[t as usize].node).unwrap_or(0)
    }
    pub fn schedule(&mut self, delay: u64, act: Action) -> u64 {
        self.seq += 1;
        let seq = self.seq;
        self.events.push(Reverse(Event { at: self.now + delay, seq, act }));
        seq
    }
    fn cancel_event(&mut self, seq: u64) {
        self.cancelled_events.insert(seq);
    }
    pub fn fail(&mut self, class: &str, detail: String) {
        if self.teardown {
            return;
        }
        self.trace(|| format!("VIOLATION {class}: {detail}"));
        if self.violations.len() < 8 {
            self.violations.push(Violation { class: class.to_string(), detail });
        }
    }
    fn draw_preempt(&mut self) {
        let mean = self.cfg.preempt_mean;
        // 0 = no further preemption
        self.preempt_in = if mean == 0 {
            0
        } else {
            self.choices.pick(S::Preempt, u32::MAX, |r| r.gap(mean))
        };
    }
    fn draw_spurious(&mut self) {
        let mean = self.cfg.spurious_mean;
        self.spurious_in = if mean == 0 {
            0
        } else {
            self.choices.pick(S::Preempt, u32::MAX, |r| r.gap(mean))
        };
    }
    /// (re)arm the scheduling faults after a change of configuration
    pub fn rearm(&mut self) {
        self.draw_preempt();
        self.draw_spurious();
    }
    fn eligible(&self, id: TaskId) -> bool {
        if self.stalled.is_empty() {
            return true;
        }
        !self.stalled.contains_key(&self.tasks[id as usize].node)
    }
    fn pick_task(&mut self) -> Option<TaskId> {
        if self.run_queue.is_empty() {
            return None;
        }
        // aborts are carried out at once
        if let Some(i) = self.run_queue.iter().position(|t| self.tasks[*t as usize].abort && !self.tasks[*t as usize].spinning) {
            return self.run_queue.remove(i);
        }
        let cand: Vec<usize> = (0..self.run_queue.len())
            .filter(|i| self.eligible(self.run_queue[*i]))
            .collect();
        if cand.is_empty() {
            return None;
        }
        let n = cand.len() as u32;
        let strategy = self.cfg.strategy;
        let steps = self.steps;
        let k = if n == 1 || strategy == Strategy::Fifo {
            0
        } else {
            let Sim { choices, tasks, run_queue, prio_change_in, .. } = self;
            choices.pick(S::Sched, n, |r: &mut Rng| {
                // nobody waits for ever, whatever the strategy
                if let Some(k) = cand
                    .iter()
                    .position(|i| steps - tasks[run_queue[*i] as usize].queued_at > 400)
                {
                    return k as u32;
                }
                match strategy {
                    Strategy::Fifo => 0,
                    Strategy::Random => r.below(n as u64) as u32,
                    Strategy::Priority => {
                        let best = cand
                            .iter()
                            .enumerate()
                            .max_by_key(|(_, i)| {
                                let t = &mut tasks[run_queue[**i] as usize];
                                if t.prio == 0 {
                                    t.prio = 1000 + r.below(1_000_000);
                                }
                                t.prio
                            })
                            .map(|(k, _)| k)
                            .unwrap_or(0);
                        if *prio_change_in == 0 {
                            *prio_change_in = r.gap(60);
                            tasks[run_queue[cand[best]] as usize].prio = 1 + r.below(999);
                        }
                        *prio_change_in -= 1;
                        best as u32
                    }
                }
            }) as usize
        };
        self.run_queue.remove(cand[k])
    }
}

// ---------------------------------------------------------------- sync points

/// A point at which another thread could run: may suspend the calling task in the middle of its
/// poll. Does nothing outside a simulated task or while unwinding.
pub fn point(kind: u32) {
    let Some((id, y)) = CUR.with(|c| c.get()) else {
        return;
    };
    if std::thread::panicking() {
        return;
    }
    enum Act {
        Go,
        Preempt,
        Stuck,
    }
    let act = with(|s| {
        s.ops_this_poll += 1;
        s.mix_hash(((kind as u64) << 32) | id as u64);
        if s.teardown {
            if s.ops_this_poll > s.cfg.max_ops_per_poll {
                return Act::Stuck;
            }
            return Act::Go;
        }
        if s.ops_this_poll > s.cfg.max_ops_per_poll {
            let name = s.tasks[id as usize].name;
            let n = s.ops_this_poll;
            s.fail("livelock", format!("one poll of task {id} ({name}) made {n} operations without returning"));
            return Act::Stuck;
        }
        if s.preempt_in > 0 {
            s.preempt_in -= 1;
            if s.preempt_in == 0 {
                s.draw_preempt();
                // pointless when nothing else could run
                if s.run_queue.is_empty() && s.events.is_empty() {
                    return Act::Go;
                }
                s.fault(Fault::Preempt);
                s.trace(|| format!("preempt task {id} at {}", point_name(kind)));
                return Act::Preempt;
            }
        }
        Act::Go
    });
    // SAFETY: the yielder lives on this coroutine's own stack for as long as it runs.
    match act {
        Act::Go => {}
        Act::Preempt => {
            suspend_inside(y, Ev::Preempted);
        }
        Act::Stuck => loop {
            unsafe { &*y }.suspend(Ev::Stuck);
        },
    }
}

/// Let others run in the middle of a poll; the budgets of this poll are its own.
fn suspend_inside(y: *const Yielder<Cmd, Ev>, ev: Ev) {
    let mine = with(|s| (s.ops_this_poll, s.coop_left));
    // SAFETY: the yielder lives on this coroutine's own stack for as long as it runs.
    let _ = unsafe { &*y }.suspend(ev);
    with(|s| (s.ops_this_poll, s.coop_left) = mine);
}

pub const P_MPSC: u32 = 1;
pub const P_ONESHOT: u32 = 2;
pub const P_LOCK: u32 = 3;
pub const P_UNLOCK: u32 = 4;
pub const P_NET: u32 = 5;
pub const P_SPAWN: u32 = 6;
pub const P_FUTEX: u32 = 7;
pub const P_APP: u32 = 8;
fn point_name(k: u32) -> &'static str {
    ["?", "mpsc", "oneshot", "lock", "unlock", "socket", "spawn", "futex", "app"]
        .get(k as usize)
        .copied()
        .unwrap_or("?")
}

/// Suspend the calling task until `unblock(key)`. Returns false when it cannot suspend.
pub fn block_on_key(key: usize) -> bool {
    let Some((id, y)) = CUR.with(|c| c.get()) else {
        return false;
    };
    if std::thread::panicking() {
        return false;
    }
    with(|s| {
        s.tasks[id as usize].st = St::Blocked(key);
        s.fault(Fault::LockContended);
        s.trace(|| format!("task {id} waits for a lock"));
    });
    // SAFETY: as in point()
    suspend_inside(y, Ev::Blocked);
    true
}
pub fn unblock(key: usize) {
    let _ = try_with(|s| {
        let step = s.steps;
        for id in 0..s.tasks.len() {
            if s.tasks[id].st == St::Blocked(key) {
                s.tasks[id].st = St::Queued;
                s.tasks[id].queued_at = step;
                s.run_queue.push_back(id as TaskId);
            }
        }
    });
}
/// The calling task can never proceed: report it and end the run.
pub fn stuck(why: &str) -> ! {
    let Some((_, y)) = CUR.with(|c| c.get()) else {
        panic!("{why}");
    };
    with(|s| s.fail("deadlock", why.to_string()));
    loop {
        // SAFETY: as in point()
        unsafe { &*y }.suspend(Ev::Stuck);
    }
}
/// Let others run, staying runnable, in the middle of a poll.
pub fn yield_midpoll(kind: u32) -> bool {
    let Some((id, y)) = CUR.with(|c| c.get()) else {
        return false;
    };
    if std::thread::panicking() {
        return false;
    }
    let stuck = with(|s| {
        s.ops_this_poll += 1;
        s.trace(|| format!("task {id} yields at {}", point_name(kind)));
        // whoever holds the lock has to get its turn
        let t = &mut s.tasks[id as usize];
        t.spinning = true;
        t.prio = 1;
        if s.ops_this_poll > s.cfg.max_ops_per_poll {
            s.fail("deadlock", format!("task {id} spins on a lock"));
            true
        } else {
            false
        }
    });
    // SAFETY: as in point()
    suspend_inside(y, if stuck { Ev::Stuck } else { Ev::Preempted });
    true
}

/// Cooperative budget, as tokio's: false means "return Pending now" (the waker has been called).
pub fn coop_ready(cx: &mut Context<'_>) -> bool {
    if !in_task() {
        return true;
    }
    let ok = with(|s| {
        if s.coop_left == 0 && !s.teardown {
            s.fault(Fault::Coop);
            s.trace(|| "cooperative budget used up".to_string());
            false
        } else {
            true
        }
    });
    if !ok {
        cx.waker().wake_by_ref();
    }
    ok
}
/// Run `f` outside the cooperative budget.
pub fn coop_unconstrained<R>(f: impl FnOnce() -> R) -> R {
    if !in_task() {
        return f();
    }
    let before = with(|s| std::mem::replace(&mut s.coop_left, u32::MAX));
    let r = f();
    with(|s| s.coop_left = before);
    r
}
pub fn coop_spend() {
    if in_task() {
        with(|s| s.coop_left = s.coop_left.saturating_sub(1));
    }
}

// ---------------------------------------------------------------- spawning

pub enum JoinOutcome<T> {
    Done(T),
    Panicked(String),
    Cancelled,
}
struct JoinState<T> {
    out: Option<JoinOutcome<T>>,
    finished: bool,
    waker: Option<Waker>,
}
pub struct Join<T> {
    id: TaskId,
    epoch: u32,
    st: Arc<Mutex<JoinState<T>>>,
}
impl<T> Join<T> {
    pub fn id(&self) -> TaskId {
        self.id
    }
    pub fn is_finished(&self) -> bool {
        self.st.lock().map(|s| s.finished).unwrap_or(true)
    }
    pub fn abort(&self) {
        let (epoch, id) = (self.epoch, self.id);
        let _ = try_with(|s| {
            if s.epoch == epoch {
                s.abort_task(id)
            }
        });
    }
    pub fn aborter(&self) -> (u32, TaskId) {
        (self.epoch, self.id)
    }
    pub fn take(&self) -> Option<JoinOutcome<T>> {
        self.st.lock().ok().and_then(|mut s| s.out.take())
    }
    pub fn poll_join(&self, cx: &mut Context<'_>) -> Poll<JoinOutcome<T>> {
        let mut s = self.st.lock().unwrap_or_else(|e| e.into_inner());
        match s.out.take() {
            Some(o) => Poll::Ready(o),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
pub fn abort_by(epoch: u32, id: TaskId) {
    let _ = try_with(|s| {
        if s.epoch == epoch {
            s.abort_task(id)
        }
    });
}
pub fn finished_by(epoch: u32, id: TaskId) -> bool {
    try_with(|s| s.epoch != epoch || s.tasks[id as usize].st == St::Done).unwrap_or(true)
}
impl Sim {
    fn abort_task(&mut self, id: TaskId) {
        if self.tasks[id as usize].st == St::Done {
            return;
        }
        self.trace(|| format!("abort task {id}"));
        self.tasks[id as usize].abort = true;
        self.wake(id);
    }
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub fn spawn_on<F>(node: Option<NodeId>, name: &'static str, fut: F) -> Join<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    point(P_SPAWN);
    let st = Arc::new(Mutex::new(JoinState { out: None, finished: false, waker: None }));
    let st2 = st.clone();
    let (id, epoch) = with(|s| {
        s.live += 1;
        if s.live > MOST_TASKS && s.violations.is_empty() {
            s.fail("task-growth", format!("{} tasks at once", s.live));
        }
        (s.tasks.len() as TaskId, s.epoch)
    });
    let boxed = Box::pin(fut);
    let co = Coroutine::with_stack(take_stack(), move |y: &Yielder<Cmd, Ev>, first: Cmd| {
        let mut fut: Option<Pin<Box<F>>> = Some(boxed);
        let mut cmd = first;
        let w = waker(epoch, id);
        let enter = || CUR.with(|c| c.set(Some((id, y as *const _))));
        let out = loop {
            enter();
            if let Cmd::Cancel = cmd {
                let f = fut.take();
                let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
                break JoinOutcome::Cancelled;
            }
            with(|s| {
                s.ops_this_poll = 0;
                // a small budget stands for a poll that follows others in the same task: it is not small every time
                s.coop_left = if s.cfg.coop < 128 && s.choices.pick(choice::S::Preempt, 2, |r| r.permille(700) as u32) == 0 { 128 } else { s.cfg.coop };
                s.tasks[id as usize].polls += 1;
            });
            let mut cx = Context::from_waker(&w);
            let f = fut.as_mut().unwrap();
            match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx))) {
                Ok(Poll::Ready(v)) => {
                    let f = fut.take();
                    let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
                    break JoinOutcome::Done(v);
                }
                Ok(Poll::Pending) => {
                    cmd = y.suspend(Ev::Pending);
                }
                Err(p) => {
                    let text = panic_text(&*p);
                    let f = fut.take();
                    let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
                    break JoinOutcome::Panicked(text);
                }
            }
        };
        let w = {
            let mut s = st2.lock().unwrap_or_else(|e| e.into_inner());
            s.out = Some(out);
            s.finished = true;
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    });
    with(|s| {
        let node = node.unwrap_or_else(|| s.node());
        let step = s.steps;
        s.tasks.push(Task {
            node,
            name,
            co: Some(co),
            st: St::Queued,
            midpoll: false,
            notified: false,
            abort: false,
            prio: 0,
            queued_at: step,
            spinning: false,
            polls: 0,
        });
        s.run_queue.push_back(id);
        s.trace(|| format!("spawn task {id} on node {node}: {name}"));
    });
    Join { id, epoch, st }
}

pub fn short_name<F>() -> &'static str {
    let n = std::any::type_name::<F>();
    let head = n.split('<').next().unwrap_or(n);
    head
}

// ---------------------------------------------------------------- API for simulated code

pub fn now() -> u64 {
    try_with(|s| s.now).unwrap_or(0)
}
pub fn fail(class: &str, detail: impl Into<String>) {
    let d = detail.into();
    with(|s| s.fail(class, d));
}
pub fn failed() -> bool {
    with(|s| !s.violations.is_empty())
}
pub fn trace(f: impl FnOnce() -> String) {
    let _ = try_with(|s| s.trace(f));
}
pub fn fault(f: Fault) {
    let _ = try_with(|s| s.fault(f));
}
/// A uniform draw from 0..n; 0 is the benign value.
pub fn choose(st: S, n: u32) -> u32 {
    with(|s| s.choices.pick(st, n, |r| r.below(n as u64) as u32))
}
/// lo..=hi, lo benign
pub fn range(st: S, lo: u32, hi: u32) -> u32 {
    lo + choose(st, hi - lo + 1)
}
/// true with probability p/1000; false is benign
pub fn chance(st: S, p: u32) -> bool {
    with(|s| s.choices.pick(st, 2, |r| r.permille(p) as u32) == 1)
}
/// pick by weight; index 0 is benign
pub fn weighted(st: S, w: &[u32]) -> usize {
    let total: u32 = w.iter().sum();
    with(|s| {
        s.choices.pick(st, w.len() as u32, |r| {
            let mut v = r.below(total as u64) as u32;
            for (i, x) in w.iter().enumerate() {
                if v < *x {
                    return i as u32;
                }
                v -= x;
            }
            0
        })
    }) as usize
}
/// A value spread over magnitudes 0..=max
pub fn log_uniform(st: S, max: u32) -> u32 {
    with(|s| {
        s.choices.pick(st, max.saturating_add(1), |r| {
            let bits = 32 - max.leading_zeros();
            let b = r.below(bits as u64 + 1);
            let hi = (1u64 << b).min(max as u64 + 1);
            r.below(hi) as u32
        })
    })
}
/// Count a named situation as reached (evidence only).
pub fn probe(name: &'static str) {
    let _ = try_with(|s| *s.probes.entry(name).or_insert(0) += 1);
}
/// Note an abstract state of the system (evidence only).
pub fn note_state(v: u64) {
    let _ = try_with(|s| {
        if s.states.len() < 4096 {
            s.states.insert(rng::mix(v));
        }
    });
}

pub struct Quiesce {
    armed: Option<u64>,
}
/// Resolves when no task can run and no event is pending.
pub fn quiesce() -> Quiesce {
    Quiesce { armed: None }
}
impl Future for Quiesce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let w = cx.waker().clone();
        let me = &mut *self;
        with(|s| match me.armed {
            Some(e) if s.quiesce_epoch > e => Poll::Ready(()),
            _ => {
                let e = s.quiesce_epoch;
                me.armed = Some(e);
                s.quiesce_waiters.push((e, w));
                Poll::Pending
            }
        })
    }
}

/// Polls of tasks on a node so far (optionally only tasks whose name contains `name`).
pub fn polls(node: Option<NodeId>, name: &str) -> u64 {
    with(|s| {
        s.tasks
            .iter()
            .filter(|t| node.is_none_or(|n| n == t.node) && t.name.contains(name))
            .map(|t| t.polls)
            .sum()
    })
}
/// (id, node, name, done, polls) of every task
pub fn task_table() -> Vec<(TaskId, NodeId, &'static str, bool, u64)> {
    with(|s| {
        s.tasks
            .iter()
            .enumerate()
            .map(|(i, t)| (i as TaskId, t.node, t.name, t.st == St::Done, t.polls))
            .collect()
    })
}
pub fn stall_node(node: NodeId, ns: u64) {
    with(|s| {
        s.fault(Fault::NodeStall);
        let until = s.now + ns;
        s.trace(|| format!("node {node} stalls until {until}"));
        s.stalled.insert(node, until);
        s.schedule(
            ns,
            Box::new(move || {
                with(|s| {
                    if s.stalled.get(&node).is_some_and(|u| *u <= s.now) {
                        s.stalled.remove(&node);
                        s.trace(|| format!("node {node} resumes"));
                    }
                })
            }),
        );
    });
}
/// All tasks of the node are dropped and its sockets reset: what a crashed process looks like.
pub fn crash_node(node: NodeId) {
    with(|s| {
        s.fault(Fault::NodeCrash);
        s.trace(|| format!("node {node} crashes"));
    });
    net::crash(node);
    with(|s| {
        for id in 0..s.tasks.len() {
            if s.tasks[id].node == node && s.tasks[id].st != St::Done && s.current != Some(id as u32) {
                s.abort_task(id as TaskId);
            }
        }
    });
}
/// Stop injecting: every later decision is benign, so that liveness may be expected.
pub fn calm() {
    with(|s| {
        s.trace(|| "--- faults stop".to_string());
        s.cfg.preempt_mean = 0;
        s.cfg.spurious_mean = 0;
        s.cfg.coop = 128;
        s.cfg.strategy = Strategy::Fifo;
        s.preempt_in = 0;
        s.spurious_in = 0;
        s.cfg.net.calm();
    });
}
pub fn set_local<T: 'static>(v: T) {
    with(|s| s.local = Some(Box::new(v)));
}
pub fn with_local<T: 'static, R>(f: impl FnOnce(&mut T) -> R) -> Option<R> {
    try_with(|s| s.local.as_mut().and_then(|l| l.downcast_mut::<T>()).map(f)).flatten()
}

// ---------------------------------------------------------------- timers

pub struct Timer {
    at: u64,
    id: Option<u64>,
}
pub fn timer(ns: u64) -> Timer {
    Timer { at: now() + ns, id: None }
}
pub fn timer_at(at: u64) -> Timer {
    Timer { at, id: None }
}
impl Timer {
    pub fn deadline(&self) -> u64 {
        self.at
    }
}
impl Future for Timer {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let w = cx.waker().clone();
        let me = &mut *self;
        with(|s| {
            if s.now >= me.at && me.id.is_none() {
                return Poll::Ready(());
            }
            match me.id {
                None => {
                    let delay = me.at - s.now;
                    let id = s.seq + 1;
                    s.schedule(
                        delay,
                        Box::new(move || {
                            let w = with(|s| {
                                s.timers.get_mut(&id).and_then(|t| {
                                    t.fired = true;
                                    t.waker.take()
                                })
                            });
                            if let Some(w) = w {
                                w.wake()
                            }
                        }),
                    );
                    s.timers.insert(id, TimerSlot { fired: false, waker: Some(w) });
                    me.id = Some(id);
                    Poll::Pending
                }
                Some(id) => {
                    let t = s.timers.entry(id).or_default();
                    if t.fired {
                        Poll::Ready(())
                    } else {
                        t.waker = Some(w);
                        Poll::Pending
                    }
                }
            }
        })
    }
}
impl Drop for Timer {
    fn drop(&mut self) {
        if let Some(id) = self.id {
            let w = try_with(|s| {
                let t = s.timers.remove(&id);
                if let Some(t) = &t {
                    if !t.fired {
                        s.cancel_event(id);
                    }
                }
                t
            });
            drop(w);
        }
    }
}

// ---------------------------------------------------------------- running

pub struct RunResult {
    pub violations: Vec<Violation>,
    pub panics: Vec<PanicRecord>,
    pub steps: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub faults: [u64; NFAULT],
    pub log: Streams,
    pub trace: Vec<String>,
    pub states: BTreeSet<u64>,
    pub probes: BTreeMap<&'static str, u64>,
}

pub enum Source {
    Seed(u64),
    Streams(Streams),
}

/// Run one simulation to its end on the calling thread.
pub fn run<F>(source: Source, tracing: bool, root: impl FnOnce() -> F) -> RunResult
where
    F: Future<Output = ()> + 'static,
{
    let choices = match source {
        Source::Seed(s) => Choices::from_seed(s),
        Source::Streams(s) => Choices::from_streams(s),
    };
    let epoch = EPOCH.fetch_add(1, Ordering::Relaxed);
    let sim = Box::new(Sim {
        epoch,
        cfg: Cfg::default(),
        choices,
        tasks: Vec::new(),
        run_queue: VecDeque::new(),
        current: None,
        events: BinaryHeap::new(),
        cancelled_events: BTreeSet::new(),
        seq: 0,
        now: 0,
        steps: 0,
        ops_this_poll: 0,
        coop_left: 128,
        preempt_in: 0,
        spurious_in: 0,
        prio_change_in: 0,
        quiesce_waiters: Vec::new(),
        quiesce_epoch: 1,
        live: 0,
        stalled: BTreeMap::new(),
        violations: Vec::new(),
        panics: Vec::new(),
        faults: [0; NFAULT],
        hash: 0x1234_5678_9abc_def0,
        net: Default::default(),
        tracing,
        trace: Vec::new(),
        root: None,
        teardown: false,
        timers: BTreeMap::new(),
        states: BTreeSet::new(),
        probes: BTreeMap::new(),
        local: None,
    });
    SIM.with(|s| *s.borrow_mut() = Some(sim));
    let join = spawn_on(Some(0), "root", root());
    with(|s| s.root = Some(join.id));
    main_loop();
    teardown();
    // Drop what the scenario left in the simulation while it still exists.
    let local = with(|s| s.local.take());
    drop(local);
    let mut sim = SIM.with(|s| s.borrow_mut().take()).expect("simulation");
    let net = std::mem::take(&mut sim.net);
    let timers = std::mem::take(&mut sim.timers);
    let waiters = std::mem::take(&mut sim.quiesce_waiters);
    let events = std::mem::take(&mut sim.events);
    drop((net, timers, waiters, events));
    for t in sim.tasks.iter_mut() {
        if let Some(co) = t.co.take() {
            // could not be brought to an end
            std::mem::forget(co);
        }
    }
    RunResult {
        violations: std::mem::take(&mut sim.violations),
        panics: std::mem::take(&mut sim.panics),
        steps: sim.steps,
        sim_ns: sim.now,
        hash: sim.hash,
        faults: sim.faults,
        log: std::mem::take(&mut sim.choices.log),
        trace: std::mem::take(&mut sim.trace),
        states: std::mem::take(&mut sim.states),
        probes: std::mem::take(&mut sim.probes),
    }
}

fn fire_due() {
    loop {
        let act = with(|s| loop {
            match s.events.peek() {
                Some(Reverse(e)) if e.at <= s.now => {
                    let Reverse(e) = s.events.pop().unwrap();
                    if s.cancelled_events.remove(&e.seq) {
                        continue;
                    }
                    break Some(e.act);
                }
                _ => break None,
            }
        });
        match act {
            Some(a) => a(),
            None => break,
        }
    }
}

fn main_loop() {
    loop {
        fire_due();
        enum Next {
            Run(TaskId),
            Again,
            Wake(Vec<(u64, Waker)>),
            Stop,
        }
        let next = with(|s| {
            if !s.violations.is_empty() {
                return Next::Stop;
            }
            if s.root.is_some_and(|r| s.tasks[r as usize].st == St::Done) {
                return Next::Stop;
            }
            if s.steps >= s.cfg.max_steps {
                let mut busy: Vec<(u64, &str)> = s.tasks.iter().map(|t| (t.polls, t.name)).collect();
                busy.sort();
                busy.reverse();
                busy.truncate(3);
                let n = s.steps;
                s.fail("no-quiescence", format!("still running after {n} steps; most polled: {busy:?}"));
                return Next::Stop;
            }
            if s.spurious_in > 0 {
                s.spurious_in -= 1;
                if s.spurious_in == 0 {
                    s.draw_spurious();
                    let idle: Vec<TaskId> = (0..s.tasks.len() as u32)
                        .filter(|i| s.tasks[*i as usize].st == St::Idle && s.root != Some(*i))
                        .collect();
                    let n = idle.len() as u32;
                    if n > 0 {
                        let k = s.choices.pick(S::Preempt, n, |r| r.below(n as u64) as u32);
                        let id = idle[k as usize];
                        s.fault(Fault::SpuriousPoll);
                        s.trace(|| format!("spurious wake of task {id}"));
                        s.wake(id);
                    }
                }
            }
            if let Some(id) = s.pick_task() {
                return Next::Run(id);
            }
            // drop cancelled timers at the head, then jump
            while let Some(Reverse(e)) = s.events.peek() {
                let seq = e.seq;
                if s.cancelled_events.remove(&seq) {
                    s.events.pop();
                } else {
                    break;
                }
            }
            if let Some(Reverse(e)) = s.events.peek() {
                s.now = s.now.max(e.at);
                return Next::Again;
            }
            if s.tasks.iter().any(|t| matches!(t.st, St::Blocked(_))) {
                s.fail("deadlock", "tasks wait for a lock that nobody will release".to_string());
                return Next::Stop;
            }
            if !s.quiesce_waiters.is_empty() {
                s.quiesce_epoch += 1;
                s.trace(|| "quiescent".to_string());
                return Next::Wake(std::mem::take(&mut s.quiesce_waiters));
            }
            s.fail("stuck", "an operation never completes, and nothing is left to happen".to_string());
            Next::Stop
        });
        match next {
            Next::Stop => break,
            Next::Again => {}
            Next::Wake(ws) => {
                for (_, w) in ws {
                    w.wake()
                }
            }
            Next::Run(id) => step(id),
        }
    }
}

fn step(id: TaskId) {
    let (mut co, cmd) = with(|s| {
        s.steps += 1;
        s.now += s.cfg.step_ns;
        s.mix_hash(id as u64 | 1 << 40);
        let t = &mut s.tasks[id as usize];
        t.st = St::Running;
        t.spinning = false;
        let cmd = if t.abort && !t.midpoll { Cmd::Cancel } else { Cmd::Go };
        if !t.midpoll {
            t.notified = false;
        }
        s.current = Some(id);
        (s.tasks[id as usize].co.take().expect("coroutine present"), cmd)
    });
    let r = {
        // the coroutine sets CUR itself on its first entry; restore it on later ones
        let y = YIELDERS.with(|m| m.borrow().get(&id).copied());
        CUR.with(|c| c.set(y.map(|y| (id, y))));
        let r = co.resume(cmd);
        let y = CUR.with(|c| c.take());
        if let Some((_, y)) = y {
            YIELDERS.with(|m| {
                let _own = own();
                m.borrow_mut().insert(id, y);
            });
        }
        r
    };
    match r {
        CoroutineResult::Yield(ev) => with(|s| {
            s.current = None;
            let step = s.steps;
            let t = &mut s.tasks[id as usize];
            t.co = Some(co);
            match ev {
                Ev::Pending => {
                    t.midpoll = false;
                    if t.notified || t.abort {
                        t.notified = false;
                        t.st = St::Queued;
                        t.queued_at = step;
                        s.run_queue.push_back(id);
                    } else {
                        t.st = St::Idle;
                    }
                }
                Ev::Preempted => {
                    t.midpoll = true;
                    t.st = St::Queued;
                    t.queued_at = step;
                    s.run_queue.push_back(id);
                }
                Ev::Blocked => {
                    t.midpoll = true;
                    // unblock() may have run already
                    if t.st == St::Running {
                        t.st = St::Queued;
                        s.run_queue.push_back(id);
                    }
                }
                Ev::Stuck => {
                    t.midpoll = true;
                    t.st = St::Stuck;
                }
            }
        }),
        CoroutineResult::Return(()) => {
            YIELDERS.with(|m| {
                m.borrow_mut().remove(&id);
            });
            give_stack(co.into_stack());
            with(|s| {
                s.current = None;
                s.live -= 1;
                s.tasks[id as usize].st = St::Done;
                s.trace(|| format!("task {id} ends"));
            })
        }
    }
}

thread_local! {
    static YIELDERS: RefCell<BTreeMap<TaskId, *const Yielder<Cmd, Ev>>> = const { RefCell::new(BTreeMap::new()) };
}

fn teardown() {
    with(|s| {
        s.teardown = true;
        s.tracing = false;
        s.preempt_in = 0;
        s.spurious_in = 0;
        s.cfg.preempt_mean = 0;
        s.cfg.spurious_mean = 0;
        s.cfg.net.calm();
        s.stalled.clear();
        s.cfg.strategy = Strategy::Fifo;
    });
    // first finish polls that were suspended half-way, then drop every future
    for _ in 0..100_000 {
        let id = with(|s| {
            (0..s.tasks.len() as u32).find(|i| {
                let t = &s.tasks[*i as usize];
                t.midpoll && t.st == St::Queued
            })
        });
        match id {
            Some(id) => {
                with(|s| s.run_queue.retain(|t| *t != id));
                step(id)
            }
            None => break,
        }
    }
    let mut guard = 0;
    loop {
        guard += 1;
        let id = with(|s| {
            (0..s.tasks.len() as u32).find(|i| {
                let t = &s.tasks[*i as usize];
                matches!(t.st, St::Idle | St::Queued)
            })
        });
        match id {
            Some(id) if guard < 100_000 => {
                with(|s| {
                    s.run_queue.retain(|t| *t != id);
                    s.tasks[id as usize].abort = true;
                });
                step(id)
            }
            _ => break,
        }
    }
    YIELDERS.with(|m| m.borrow_mut().clear());
}

/// Record panics of simulated tasks instead of printing them.
pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if in_task() {
            let message = panic_text(info.payload());
            let location = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let done = try_with(|s| {
                let (node, task) = s
                    .current
                    .map(|t| (s.tasks[t as usize].node, s.tasks[t as usize].name.to_string()))
                    .unwrap_or((0, String::new()));
                s.trace(|| format!("panic at {location}: {message}"));
                if !s.teardown && s.panics.len() < 64 {
                    s.panics.push(PanicRecord {
                        message: message.clone(),
                        location: location.clone(),
                        node,
                        task,
                    });
                }
            });
            if done.is_some() {
                return;
            }
        }
        prev(info);
    }));
}
