//! The rpc service run by simulated servers, and the ledger of what happened to every call.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll};

use futures::future::BoxFuture;
use futures::stream::BoxStream;
use futures::StreamExt;
use protosocket_rpc::server::{ConnectionService, RpcKind, SocketService};
use simcore::fail;
use tokio::sync::{mpsc, oneshot};

use crate::msg::{body, label, De, Rpc, Ser};

pub const SERVER: u32 = 100;
const REQUEST: u64 = 0x7000_0000;

pub mod op {
    pub const NOW: u32 = 0;
    pub const YIELDS: u32 = 1;
    pub const SLEEP: u32 = 2;
    pub const TASK: u32 = 3;
    pub const HANG: u32 = 4;
    pub const PANIC: u32 = 5;
    pub const PANIC_NEW: u32 = 6;
    pub const UNKNOWN: u32 = 7;
    /// waits for the service's gate
    pub const GATE: u32 = 8;
    pub const S_NOW: u32 = 10;
    pub const S_SLOW: u32 = 11;
    pub const S_TASK: u32 = 12;
    pub const S_HANG: u32 = 13;
    pub const S_ENDLESS: u32 = 14;
    pub const S_YIELDS: u32 = 15;
    pub const S_PANIC: u32 = 16;
    /// waits for the service's gate halfway
    pub const S_GATE: u32 = 17;
    pub fn unary(o: u32) -> bool {
        o < 10
    }
    /// the service completes it by itself
    pub fn completes(o: u32) -> bool {
        matches!(o, NOW | YIELDS | SLEEP | TASK | S_NOW | S_SLOW | S_TASK | S_YIELDS) || (matches!(o, GATE | S_GATE) && super::service_gate_open())
    }
}

#[derive(Default)]
struct Gate {
    open: bool,
    waiting: Vec<std::task::Waker>,
}
thread_local! {
    static GATE: RefCell<Gate> = RefCell::new(Gate::default());
}
pub fn service_gate_open() -> bool {
    GATE.with(|g| g.borrow().open)
}
/// What waits at the service's gate goes on, all of it at once.
pub fn service_gate(open: bool) {
    let w = GATE.with(|g| {
        let mut g = g.borrow_mut();
        g.open = open;
        if open { std::mem::take(&mut g.waiting) } else { Vec::new() }
    });
    w.into_iter().for_each(|w| w.wake());
}
fn poll_gate(cx: &mut Context<'_>) -> Poll<()> {
    GATE.with(|g| {
        let mut g = g.borrow_mut();
        if g.open {
            return Poll::Ready(());
        }
        g.waiting.push(cx.waker().clone());
        Poll::Pending
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum State {
    /// the request may or may not have been handed over
    Sending,
    /// handed over, not resolved
    Open,
    /// a response or the normal end was observed
    Finished,
    /// resolved with an error
    Failed,
    /// given up before it was handed over
    DroppedUnsent,
    /// given up unfinished
    Dropped,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub nonce: u64,
    pub client: u32,
    pub id: u64,
    pub op: u32,
    pub a: u32,
    pub b: u32,
    // client side
    pub state: State,
    pub items: u32,
    // server side
    pub conn: Option<usize>,
    pub arrived_at: u64,
    pub started: u32,
    pub live: i32,
    pub produced: u32,
    pub completed: bool,
    pub completed_at: u64,
    /// messages encoded for its connection when its result (unary) or next item became available
    pub ready_at: Option<u64>,
    /// likewise when the cancel of the running call arrived
    pub cancelled_at: Option<u64>,
    /// the server has had its cancel and all the time it wanted to act on it
    pub told: bool,
    pub encoded: u32,
    /// dropped by the client, and everything has settled since
    pub buried: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Conn {
    pub address: Option<SocketAddr>,
    /// the client whose requests it carries
    pub client: Option<u32>,
    pub dropped: u32,
    pub node: u32,
    /// messages encoded for it
    pub encoded: u64,
}

#[derive(Default)]
pub struct Ledger {
    pub calls: BTreeMap<u64, Call>,
    pub conns: Vec<Conn>,
    /// per connection (the task that runs it) and id: the call that the bytes arriving at the server mean
    at_server: BTreeMap<(u32, u64), u64>,
    /// the client whose requests a task writes
    client_of: BTreeMap<u32, u32>,
    /// per client and id
    pub cancels_sent: BTreeMap<(u32, u64), u32>,
    pub drops: BTreeMap<(u32, u64), u32>,
    /// running calls whose cancel has arrived
    cancelled: Vec<u64>,
    bound: u64,
    /// which node each message of each kind was seen on is only meaningful with real clients
    pub armed: bool,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}
pub fn led<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    LEDGER.with(|l| f(&mut l.borrow_mut()))
}
impl Ledger {
    /// How many messages of others may be sent before one that is ready: what is queued ahead of
    /// it, one turn of every call, and some.
    pub fn bound(&self) -> u64 {
        self.bound + 4 * self.calls.len() as u64
    }
}
pub fn reset(bound: u64) {
    GATE.with(|g| *g.borrow_mut() = Gate::default());
    led(|l| {
        *l = Ledger { bound, armed: true, ..Default::default() };
    });
}

// ------------------------------------------------------------ ids

thread_local! {
    static SCHEME: Cell<u32> = const { Cell::new(0) };
}
/// How the clients of this run number their calls: ids may collide between clients, be 0, or
/// differ only in high or low bits.
pub fn draw_ids() {
    SCHEME.set(simcore::weighted(simcore::choice::S::Gen, &[3, 4, 1, 1, 1, 1]) as u32);
}
/// Call k (1..) of client n: nonces are unique in a run, ids within a connection.
pub fn nonce_of(n: u32, k: u64) -> u64 {
    n as u64 * 1_000_000 + k
}
pub fn client_of(nonce: u64) -> u32 {
    (nonce / 1_000_000) as u32
}
pub fn id_of(nonce: u64) -> u64 {
    let k = nonce % 1_000_000;
    match SCHEME.get() {
        0 => nonce,
        1 => k,
        2 => k - 1,
        3 => u64::MAX - (k - 1),
        4 => k << 32 | client_of(nonce) as u64,
        _ => k << 40,
    }
}
/// An id that no call of this client has.
pub fn never_id(n: u32) -> u64 {
    use simcore::{choice::S, choose};
    let odd = match SCHEME.get() {
        0 | 1 => [0, u64::MAX][choose(S::App, 2) as usize],
        2 => [u64::MAX, 1 << 32][choose(S::App, 2) as usize],
        3 => [0, 1][choose(S::App, 2) as usize],
        _ => [0, u64::MAX, 1, 1 << 31][choose(S::App, 4) as usize],
    };
    [odd, id_of(nonce_of(n, 800_000 + choose(S::App, 4) as u64))][choose(S::App, 2) as usize]
}

pub fn open_call(client: u32, id: u64, nonce: u64, op: u32, a: u32, b: u32) {
    led(|l| {
        l.calls.insert(
            nonce,
            Call {
                nonce,
                client,
                id,
                op,
                a,
                b,
                state: State::Sending,
                items: 0,
                conn: None,
                arrived_at: 0,
                started: 0,
                live: 0,
                produced: 0,
                completed: false,
                completed_at: 0,
                ready_at: None,
                cancelled_at: None,
                told: false,
                encoded: 0,
                buried: false,
            },
        );
    });
}
pub fn with_call<R>(nonce: u64, f: impl FnOnce(&mut Call) -> R) -> Option<R> {
    led(|l| l.calls.get_mut(&nonce).map(f))
}

/// Nothing is left to happen (but links may be held): every cancel that has arrived was acted on.
pub fn mark_told() {
    led(|l| {
        for c in l.calls.values_mut().filter(|c| c.cancelled_at.is_some()) {
            c.told = true;
        }
    });
}
/// The service's work of this call makes something.
fn produces(nonce: u64, f: impl FnOnce(&mut Call)) {
    let told = with_call(nonce, |c| {
        f(c);
        c.told
    });
    if told == Some(true) {
        fail("cancel-late", format!("the cancel of call {nonce} had been handled and its work goes on"));
    }
}

/// Every message that is encoded or decoded anywhere.
pub fn wire_seen(m: &Rpc, outbound: bool) {
    let Some((node, task)) = simcore::try_with(|s| (s.node(), s.task().unwrap_or(0))) else {
        return;
    };
    let mut late = None;
    let mut starved = None;
    led(|l| {
        if !l.armed {
            return;
        }
        let bound = l.bound();
        let server = (SERVER..2 * SERVER).contains(&node);
        match (server, outbound, m.code) {
            (true, false, 0) => {
                l.at_server.insert((task, m.id), m.nonce);
                let at = l.calls.get(&m.nonce).and_then(|c| l.conns.iter().position(|k| k.client == Some(c.client)));
                let n = at.map(|i| l.conns[i].encoded).unwrap_or(0);
                if let Some(c) = l.calls.get_mut(&m.nonce) {
                    c.arrived_at = n;
                }
            }
            (true, false, code) if code != 2 => {
                let nonce = l.at_server.get(&(task, m.id)).copied();
                let conns = &l.conns;
                if let Some(c) = nonce.and_then(|n| l.calls.get_mut(&n)) {
                    if let (true, Some(k), None) = (c.live > 0, c.conn, c.cancelled_at) {
                        c.cancelled_at = Some(conns[k].encoded);
                        l.cancelled.push(c.nonce);
                    }
                }
            }
            (true, true, code) => {
                let nonce = if code == 0 { Some(m.nonce) } else { l.at_server.get(&(task, m.id)).copied() };
                if let Some(c) = nonce.and_then(|n| l.calls.get_mut(&n)) {
                    c.encoded += 1;
                    if c.buried {
                        late = Some(c.clone());
                    }
                    if let Some(k) = c.conn {
                        l.conns[k].encoded += 1;
                        let now = l.conns[k].encoded;
                        if op::unary(c.op) && c.completed && now.saturating_sub(c.completed_at) > bound {
                            starved = Some(format!("call {} completed and {} messages were sent before its response", c.nonce, now - c.completed_at));
                        }
                        if let Some(r) = c.ready_at {
                            if now.saturating_sub(r) > bound {
                                starved = Some(format!("call {} had something to send and {} messages of others were sent before it", c.nonce, now - r));
                            }
                            // the next item of a stream that never waits
                            c.ready_at = Some(now);
                        }
                        let calls = &l.calls;
                        l.cancelled.retain(|n| calls[n].live > 0);
                        for c in l.cancelled.iter().map(|n| &calls[n]).filter(|c| c.conn == Some(k)) {
                            let waited = now.saturating_sub(c.cancelled_at.unwrap_or(now));
                            if waited > bound {
                                starved = Some(format!("the cancel of call {} arrived and {waited} messages were sent while its work went on", c.nonce));
                            }
                        }
                    }
                }
            }
            (false, true, 0) => {
                l.client_of.insert(task, client_of(m.nonce));
            }
            (false, true, 1) => {
                if let Some(&n) = l.client_of.get(&task) {
                    *l.cancels_sent.entry((n, m.id)).or_insert(0) += 1
                }
            }
            _ => {}
        }
    });
    if let Some(c) = late {
        fail("cancel-late", format!("call {} was dropped and everything settled, and the server sends for it: {m:?}", c.nonce));
    }
    if let Some(why) = starved {
        fail("rpc-starved", why);
    }
}

// ------------------------------------------------------------ requests and responses

pub fn request(id: u64, nonce: u64, op: u32, a: u32, b: u32, len: usize) -> Rpc {
    Rpc { id, code: 0, op, a, b, nonce, index: 0, body: body(label(nonce, REQUEST), len) }
}
pub fn response(id: u64, nonce: u64, index: u32, b: u32) -> Rpc {
    Rpc { id, code: 0, op: 0, a: 0, b, nonce, index, body: body(label(nonce, index as u64), b as usize) }
}
/// Is this what the service answers to that call?
pub fn is_response(m: &Rpc, id: u64, nonce: u64, index: u32, b: u32) -> bool {
    *m == response(id, nonce, index, b)
}

// ------------------------------------------------------------ the service

pub struct Guard(pub u64);
impl Drop for Guard {
    fn drop(&mut self) {
        with_call(self.0, |c| c.live -= 1);
    }
}

pub struct Service;
impl SocketService for Service {
    type RequestDeserializer = De<Rpc>;
    type ResponseSerializer = Ser<Rpc>;
    type ConnectionService = ConnService;
    fn deserializer(&self) -> De<Rpc> {
        De::default()
    }
    fn serializer(&self) -> Ser<Rpc> {
        Ser::default()
    }
    fn new_connection_service(&self, address: SocketAddr) -> ConnService {
        let idx = led(|l| {
            l.conns.push(Conn { address: Some(address), node: simcore::with(|s| s.node()), ..Default::default() });
            l.conns.len() - 1
        });
        ConnService { idx }
    }
}
pub struct ConnService {
    idx: usize,
}
impl Drop for ConnService {
    fn drop(&mut self) {
        led(|l| l.conns[self.idx].dropped += 1);
    }
}
impl ConnectionService for ConnService {
    type Request = Rpc;
    type Response = Rpc;
    type UnaryFutureType = BoxFuture<'static, Rpc>;
    type StreamType = BoxStream<'static, Rpc>;

    fn new_rpc(&mut self, m: Rpc) -> RpcKind<Self::UnaryFutureType, Self::StreamType> {
        simcore::point(simcore::P_APP);
        let idx = self.idx;
        let mut bad = None;
        let known = led(|l| {
            let bound = l.bound();
            let Some(c) = l.calls.get_mut(&m.nonce) else {
                bad = Some(("request-altered", format!("the service was given a request nobody sent: {m:?}")));
                return false;
            };
            c.started += 1;
            c.live += 1;
            c.conn = Some(idx);
            if c.started > 1 {
                bad = Some(("rpc-duplicated", format!("request {} was given to the service twice", m.nonce)));
            }
            if m.id != c.id || m.op != c.op || m.a != c.a || m.b != c.b || m.body != body(label(m.nonce, REQUEST), m.body.len()) {
                bad = Some(("request-altered", format!("request {} differs from what was sent", m.nonce)));
            }
            let client = c.client;
            let k = &mut l.conns[idx];
            if *k.client.get_or_insert(client) != client {
                bad = Some(("cross-connection", format!("a request of client {client} reached the service of another connection")));
            }
            if matches!(m.op, op::NOW | op::S_NOW | op::S_ENDLESS) {
                c.ready_at = Some(k.encoded);
            }
            let waited = k.encoded.saturating_sub(c.arrived_at);
            if c.arrived_at > 0 && waited > bound {
                bad = Some(("rpc-starved", format!("request {} had arrived and {waited} messages were sent before it was started", m.nonce)));
            }
            true
        });
        if let Some((class, why)) = bad {
            fail(class, why);
        }
        if !known {
            return RpcKind::Unknown;
        }
        let guard = Guard(m.nonce);
        match m.op {
            op::PANIC_NEW => {
                simcore::fault(simcore::Fault::ServicePanic);
                panic!("sim-injected panic in new_rpc");
            }
            op::UNKNOWN => RpcKind::Unknown,
            o if op::unary(o) => RpcKind::Unary(Box::pin(unary(guard, m))),
            _ => RpcKind::Streaming(ItemStream::new(guard, m).boxed()),
        }
    }
}

async fn unary(guard: Guard, m: Rpc) -> Rpc {
    let nonce = m.nonce;
    match m.op {
        op::YIELDS => {
            for _ in 0..m.a {
                tokio::task::yield_now().await;
            }
        }
        op::SLEEP => simcore::timer(1_000 * m.a as u64).await,
        op::TASK => {
            let (tx, rx) = oneshot::channel();
            let a = m.a;
            tokio::spawn(async move {
                for _ in 0..a % 7 {
                    tokio::task::yield_now().await;
                }
                led(|l| {
                    let n = l.calls.get(&nonce).and_then(|c| c.conn).map(|k| l.conns[k].encoded);
                    if let Some(c) = l.calls.get_mut(&nonce) {
                        c.ready_at = n;
                    }
                });
                let _ = tx.send(());
            });
            let _ = rx.await;
        }
        op::HANG => std::future::pending::<()>().await,
        op::GATE => std::future::poll_fn(poll_gate).await,
        op::PANIC => {
            simcore::timer(1_000 * m.a as u64).await;
            simcore::fault(simcore::Fault::ServicePanic);
            panic!("sim-injected panic in a unary rpc");
        }
        _ => {}
    }
    let n = led(|l| l.calls.get(&nonce).and_then(|c| c.conn).map(|k| l.conns[k].encoded).unwrap_or(0));
    produces(nonce, |c| {
        c.completed = true;
        c.produced = 1;
        c.completed_at = n;
    });
    drop(guard);
    response(m.id, nonce, 0, m.b)
}

struct ItemStream {
    guard: Option<Guard>,
    m: Rpc,
    next: u32,
    timer: Option<simcore::Timer>,
    yielded: bool,
    rx: Option<mpsc::Receiver<u32>>,
}
impl ItemStream {
    fn new(guard: Guard, m: Rpc) -> Self {
        let mut rx = None;
        if m.op == op::S_TASK {
            let (tx, r) = mpsc::channel(1 + m.a as usize % 4);
            let n = m.a;
            tokio::spawn(async move {
                for i in 0..n {
                    if tx.send(i).await.is_err() {
                        return;
                    }
                    if i % 5 == 3 {
                        tokio::task::yield_now().await;
                    }
                }
            });
            rx = Some(r);
        }
        ItemStream { guard: Some(guard), m, next: 0, timer: None, yielded: false, rx }
    }
}
impl futures::Stream for ItemStream {
    type Item = Rpc;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Rpc>> {
        if self.guard.is_none() {
            return Poll::Ready(None);
        }
        let done = self.next >= self.m.a;
        match self.m.op {
            op::S_TASK => match self.rx.as_mut().unwrap().poll_recv(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(i) => {
                    if i != Some(self.next) && !(i.is_none() && done) {
                        // the feeding task was ended with its node
                        return Poll::Pending;
                    }
                }
            },
            op::S_GATE if self.next == self.m.a / 2 => {
                if poll_gate(cx).is_pending() {
                    return Poll::Pending;
                }
            }
            op::S_HANG | op::S_ENDLESS if done => return Poll::Pending,
            op::S_PANIC if done => {
                simcore::fault(simcore::Fault::ServicePanic);
                panic!("sim-injected panic in a stream");
            }
            op::S_SLOW => {
                let t = self.timer.get_or_insert_with(|| simcore::timer(20_000));
                if Pin::new(t).poll(cx).is_pending() {
                    return Poll::Pending;
                }
                self.timer = None;
            }
            op::S_YIELDS if !self.yielded => {
                self.yielded = true;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            _ => {}
        }
        self.yielded = false;
        let nonce = self.m.nonce;
        if done {
            with_call(nonce, |c| c.completed = true);
            self.guard = None;
            return Poll::Ready(None);
        }
        let i = self.next;
        self.next += 1;
        produces(nonce, |c| c.produced += 1);
        Poll::Ready(Some(response(self.m.id, nonce, i, self.m.b)))
    }
}
