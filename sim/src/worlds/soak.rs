//! Long histories on the same connections: what is kept, and how often things run.
//!
//! Profiles: 0 calls that finish, 1 calls given up or failing, 2 plain messages, 3 connections that
//! come and go, 4 idleness and polls per unit of work, 5 calls given up while the peer does not read.

use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

use futures::future::BoxFuture;
use futures::stream::BoxStream;
use futures::StreamExt;
use protosocket::{Connection, ConnectionBindings, MessageReactor, ReactorStatus};
use protosocket_rpc::client::{Configuration, RpcClient};
use protosocket_rpc::server::{ConnectionService, RpcKind, SocketRpcServer, SocketService};
use simcore::choice::S;
use simcore::net;
use simcore::{chance, choose, fail, log_uniform, probe, range, weighted, Fault, Join};
use tokio::sync::mpsc;

use super::conn::{draw_codec, settle};
use super::rpc::on;
use crate::alloc::Held;
use crate::env;
use crate::msg::{self, De, Kind, Msg, Rpc, Ser};
use crate::rpcs::{self, SERVER};

mod k {
    pub const NOW: u32 = 0;
    pub const YIELDS: u32 = 1;
    pub const SLEEP: u32 = 2;
    pub const HANG: u32 = 3;
    pub const UNKNOWN: u32 = 4;
    pub const STREAM: u32 = 10;
    pub const STREAM_YIELDS: u32 = 11;
    pub const STREAM_HANGS: u32 = 12;
}

struct Service;
impl SocketService for Service {
    type RequestDeserializer = De<Rpc>;
    type ResponseSerializer = Ser<Rpc>;
    type ConnectionService = PerConnection;
    fn deserializer(&self) -> De<Rpc> {
        De::default()
    }
    fn serializer(&self) -> Ser<Rpc> {
        Ser::default()
    }
    fn new_connection_service(&self, _: SocketAddr) -> PerConnection {
        PerConnection
    }
}
struct PerConnection;
impl ConnectionService for PerConnection {
    type Request = Rpc;
    type Response = Rpc;
    type UnaryFutureType = BoxFuture<'static, Rpc>;
    type StreamType = BoxStream<'static, Rpc>;
    fn new_rpc(&mut self, m: Rpc) -> RpcKind<Self::UnaryFutureType, Self::StreamType> {
        match m.op {
            k::UNKNOWN => RpcKind::Unknown,
            k::STREAM..=k::STREAM_HANGS => RpcKind::Streaming(Items { m, next: 0, yielded: false }.boxed()),
            _ => RpcKind::Unary(Box::pin(async move {
                match m.op {
                    k::YIELDS => {
                        for _ in 0..m.a {
                            tokio::task::yield_now().await;
                        }
                    }
                    k::SLEEP => simcore::timer(1_000 * m.a as u64).await,
                    k::HANG => std::future::pending::<()>().await,
                    _ => {}
                }
                Rpc { body: vec![1; m.b as usize], ..m }
            })),
        }
    }
}
struct Items {
    m: Rpc,
    next: u32,
    yielded: bool,
}
impl futures::Stream for Items {
    type Item = Rpc;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Rpc>> {
        if self.next >= self.m.a {
            return if self.m.op == k::STREAM_HANGS { Poll::Pending } else { Poll::Ready(None) };
        }
        if self.m.op == k::STREAM_YIELDS && !self.yielded {
            self.yielded = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.yielded = false;
        self.next += 1;
        let (index, b) = (self.next - 1, self.m.b as usize);
        Poll::Ready(Some(Rpc { index, body: vec![1; b], ..self.m.clone() }))
    }
}

/// What the calls of a run are like.
#[derive(Clone, Copy, Debug)]
struct Mix {
    ops: [u32; 8],
    /// whole, at once, after some polls, while sending, after some items, later
    ends: [u32; 6],
    len: u32,
    items: u32,
    reuse: bool,
    pauses: bool,
}
const OPS: [u32; 8] = [k::NOW, k::YIELDS, k::SLEEP, k::HANG, k::UNKNOWN, k::STREAM, k::STREAM_YIELDS, k::STREAM_HANGS];

fn some_of<const N: usize>(allowed: [u32; N]) -> [u32; N] {
    let mut w = allowed.map(|a| if a > 0 && env::maybe(450) { a } else { 0 });
    if w.iter().all(|x| *x == 0) {
        let on: Vec<usize> = (0..N).filter(|i| allowed[*i] > 0).collect();
        w[on[choose(S::Gen, on.len() as u32) as usize]] = 1;
    }
    w
}

async fn one_call(rpc: &RpcClient<Rpc, Rpc>, id: u64, mix: &Mix) {
    probe("work");
    let o = OPS[weighted(S::App, &mix.ops)];
    let mut end = weighted(S::App, &mix.ends);
    let hangs = matches!(o, k::HANG | k::UNKNOWN | k::STREAM_HANGS);
    if hangs && matches!(end, 0 | 3) {
        end = 2;
    }
    let wait = 1_000 * range(S::App, 1, 80) as u64;
    let a = match o {
        k::YIELDS => choose(S::App, 5),
        k::SLEEP => range(S::App, 1, 60),
        _ => choose(S::App, mix.items + 1),
    };
    let req = Rpc { id, op: o, a, b: choose(S::App, mix.len + 1), nonce: id, body: vec![2; choose(S::App, mix.len + 1) as usize], ..Default::default() };
    let patience = 1 + choose(S::App, 4);
    if end != 0 {
        simcore::fault(Fault::CallDropped);
    }
    if o < k::STREAM {
        let r = if end == 3 { env::poll_times(rpc.send_unary(req), patience).await } else { Some(rpc.send_unary(req).await) };
        let Some(Ok(c)) = r else { return };
        match end {
            1 => drop(c),
            2 | 4 if hangs => drop(env::within(c, wait).await),
            2 | 4 => drop(env::poll_times(c, patience).await),
            5 => {
                simcore::timer(wait).await;
                drop(c);
            }
            _ => {
                if c.await.is_err() {
                    fail("rpc-spurious-error", "a call fails although its connection is up");
                }
            }
        }
    } else {
        let r = if end == 3 { env::poll_times(rpc.send_streaming(req), patience).await } else { Some(rpc.send_streaming(req).await) };
        let Some(Ok(mut c)) = r else { return };
        if end == 5 {
            simcore::timer(wait).await;
        }
        let stop = match end {
            1 | 5 => 0,
            4 => patience.min(a),
            _ => u32::MAX,
        };
        let mut n = 0;
        while n < stop {
            let next = if end == 2 && hangs {
                env::within(c.next(), wait).await
            } else if end == 2 {
                env::poll_times(c.next(), patience).await
            } else { Some(c.next().await) };
            match next {
                Some(Some(Ok(_))) => n += 1,
                _ => break,
            }
            tokio::task::consume_budget().await;
        }
    }
}

struct Client {
    node: u32,
    rpc: RpcClient<Rpc, Rpc>,
    conn: Join<()>,
}
async fn connect(node: u32, addr: SocketAddr, limit: usize, q: usize) -> Option<Client> {
    let mut c = Configuration::default();
    c.max_buffer_length(limit);
    c.max_queued_outbound_messages(q);
    let r = on(node, "connect", async move { protosocket_rpc::client::connect::<Ser<Rpc>, De<Rpc>>(addr, &c).await.ok() }).await?;
    let (rpc, connection) = r?;
    let conn = simcore::spawn_on(Some(node), "connection", connection);
    Some(Client { node, rpc, conn })
}
async fn start_server(addr: SocketAddr, limit: usize, q: usize) -> Option<Join<()>> {
    let s = on(SERVER, "start server", async move {
        SocketRpcServer::new(addr, Service).await.ok().map(|mut s| {
            s.set_max_buffer_length(limit);
            s.set_max_queued_outbound_messages(q);
            s
        })
    })
    .await??;
    Some(simcore::spawn_on(Some(SERVER), "server", async move {
        let _ = s.await;
    }))
}

/// Each of the tasks makes its share of `calls`; everything has ended when this returns.
async fn burst(clients: &[Client], tasks: u32, calls: u32, mix: Mix, ids: &Arc<Mutex<u64>>) {
    let mut js: Vec<Join<()>> = Vec::with_capacity(tasks as usize);
    for t in 0..tasks {
        let c = &clients[t as usize % clients.len()];
        let (rpc, ids) = (c.rpc.clone(), ids.clone());
        js.push(simcore::spawn_on(Some(c.node), "caller", async move {
            for _ in 0..calls / tasks {
                let id = if mix.reuse {
                    1 + t as u64
                } else {
                    let mut i = ids.lock().unwrap();
                    *i += 1;
                    1000 + *i
                };
                one_call(&rpc, id, &mix).await;
                if mix.pauses && chance(S::App, 100) {
                    simcore::timer(1_000 * range(S::App, 1, 50) as u64).await;
                }
            }
        }));
    }
    simcore::quiesce().await;
    if js.iter().any(|j| !j.is_finished()) {
        fail("call-hangs", "calls that should have ended wait for ever");
    }
}

/// The most that was held at any of several moments, or the least.
fn most(a: Held, b: Held) -> Held {
    Held { bytes: a.bytes.max(b.bytes), blocks: a.blocks.max(b.blocks), large: a.large.max(b.large) }
}
fn least(a: Held, b: Held) -> Held {
    Held { bytes: a.bytes.min(b.bytes), blocks: a.blocks.min(b.blocks), large: a.large.min(b.large) }
}
const ALL: Held = Held { bytes: isize::MAX, blocks: isize::MAX, large: isize::MAX };

/// Is the growth from `a` to `b` over `n` units of work more than noise? `ends`: open connection ends.
fn judge(a: Held, b: Held, n: u32, slack: isize, ends: isize) -> Option<String> {
    let (db, dc) = (b.bytes - a.bytes, b.blocks - a.blocks);
    if std::env::var_os("SOAK_NOISE").is_some() {
        eprintln!("soak: {db} bytes {dc} blocks over {n}; {} large", b.large);
    }
    simcore::note_state(9 << 40 | ((db.clamp(-50_000, 50_000) + 50_000) as u64 / 2000) << 10 | (dc.clamp(-100, 100) + 100) as u64);
    // a unit of work that leaves something behind leaves at least a map entry or an allocation
    if db > slack && db > 4 * n as isize {
        return Some(format!("{db} bytes more ({} before) after {n} more units of work", a.bytes));
    }
    if dc > 60 && dc > n as isize / 8 {
        return Some(format!("{dc} allocations more ({} before) after {n} more units of work", a.blocks));
    }
    // a receive buffer, its twin, some room each, and a vector that doubles
    if b.large > ends * 2 * 2 * (3 << 20) {
        return Some(format!("{} bytes in large blocks for {ends} connection ends", b.large));
    }
    None
}
/// Does `round` again and again, `n` units of work each: what is held afterwards stops growing.
async fn steady(what: &str, n: u32, slack: isize, ends: isize, mut round: impl AsyncFnMut()) {
    simcore::with(|s| s.cfg.max_steps = 200_000_000);
    // until everything has been as full as it gets
    let (mut done, mut a) = (0, Held::default());
    while done < 8 {
        round().await;
        done += 1;
        a = most(a, crate::alloc::subject());
        if simcore::failed() {
            return;
        }
    }
    // what looks like growth has to go on: a vector or a map may double, and a buffer may grow with the worst burst so far
    for last in [20, 60, 180, 540] {
        let (first, mut b, mut top) = (done, ALL, Held::default());
        while done < last {
            round().await;
            done += 1;
            top = most(top, crate::alloc::subject());
            if done + 4 > last {
                b = least(b, crate::alloc::subject());
            }
            if simcore::failed() {
                return;
            }
        }
        let Some(why) = judge(a, b, n * (done - first), slack, ends) else { break };
        if last == 540 {
            return fail("memory-growth", format!("{what}: {why}"));
        }
        probe("grew");
        a = top;
    }
    probe("soaked");
}

pub async fn world(profile: u32) {
    let codec = draw_codec();
    msg::set_codec(codec);
    rpcs::reset(u64::MAX / 2);
    rpcs::led(|l| l.armed = false);
    match profile {
        2 => messages().await,
        3 => churn().await,
        4 => idle().await,
        5 => stalled().await,
        _ => calls(profile).await,
    }
}

fn draw_mix(profile: u32) -> Mix {
    let (ops, ends) = match profile {
        0 => ([4, 2, 1, 0, 0, 2, 1, 0], [1, 0, 0, 0, 0, 0]),
        // a server that says nothing at all
        1 if env::maybe(150) => ([0, 0, 0, 1, 1, 0, 0, 0], [0, 2, 2, 2, 2, 2]),
        _ => ([2, 2, 1, 3, 1, 2, 1, 2], [1, 2, 2, 2, 2, 2]),
    };
    Mix { ops: some_of(ops), ends: some_of(ends), len: 30, items: range(S::Gen, 0, 6), reuse: profile == 0 && env::maybe(200), pauses: env::maybe(500) }
}

async fn calls(profile: u32) {
    env::draw(40_000);
    // noise of its own: chunks of bytes in buffers are bounded by these
    let (qs, qc) = (range(S::Gen, 1, 16) as usize, range(S::Gen, 1, 16) as usize);
    let addr: SocketAddr = "10.0.0.1:1000".parse().unwrap();
    let Some(_server) = start_server(addr, 4096, qs).await else { return fail("server-dead", "the server cannot be started") };
    let mut clients = Vec::new();
    for n in 0..range(S::Gen, 1, 2) {
        match connect(1 + n, addr, 4096, qc).await {
            Some(c) => clients.push(c),
            None => return fail("server-dead", "a client cannot connect"),
        }
    }
    let mix = draw_mix(profile);
    let tasks = range(S::Gen, 1, 8);
    let unit = range(S::Gen, 60, 160);
    let ids = Arc::new(Mutex::new(0));
    simcore::trace(|| format!("{codec:?} queues {qs} {qc} tasks {tasks} unit {unit} {mix:?}", codec = msg::codec()));
    steady("calls", unit, 12_000, 2 * clients.len() as isize, async || burst(&clients, tasks, unit, mix, &ids).await).await;
    if clients.iter().any(|c| c.conn.is_finished()) {
        fail("unexpected-end", "a connection ended although nothing ended it");
    }
}

/// The network takes nothing any more, and the application keeps trying and giving up.
async fn stalled() {
    env::draw(40_000);
    simcore::with(|s| s.cfg.net.capacity = s.cfg.net.capacity.min(2048));
    let (qs, qc) = (range(S::Gen, 1, 16) as usize, range(S::Gen, 1, 16) as usize);
    let addr: SocketAddr = "10.0.0.1:1000".parse().unwrap();
    let Some(_server) = start_server(addr, 4096, qs).await else { return fail("server-dead", "the server cannot be started") };
    let Some(c) = connect(1, addr, 4096, qc).await else { return fail("server-dead", "a client cannot connect") };
    let mut mix = draw_mix(0);
    mix.reuse = false;
    let ids = Arc::new(Mutex::new(0));
    let clients = [c];
    if env::maybe(500) {
        burst(&clients, 3, 30, mix, &ids).await;
    }
    simcore::fault(Fault::Custom1);
    let (sock, _) = *net::opened().last().unwrap();
    net::hold(sock, true);
    let tasks = range(S::Gen, 1, 8);
    let unit = range(S::Gen, 60, 160);
    let streams = choose(S::Gen, 3);
    steady("abandoned calls", unit, 6_000, 2, async || {
        let mut js: Vec<Join<()>> = Vec::with_capacity(tasks as usize);
        for _ in 0..tasks {
            let (rpc, ids) = (clients[0].rpc.clone(), ids.clone());
            js.push(simcore::spawn_on(Some(1), "caller", async move {
                for _ in 0..unit / tasks {
                    probe("work");
                    simcore::fault(Fault::CallDropped);
                    let id = {
                        let mut i = ids.lock().unwrap();
                        *i += 1;
                        1000 + *i
                    };
                    let req = Rpc { id, op: k::NOW, nonce: id, body: vec![2; choose(S::App, 40) as usize], ..Default::default() };
                    let wait = 1_000 * range(S::App, 1, 20) as u64;
                    if streams == 0 || streams == 1 && chance(S::App, 500) {
                        env::within(async { rpc.send_unary(req).await.ok()?.await.ok() }, wait).await;
                    } else {
                        env::within(async { rpc.send_streaming(Rpc { op: k::STREAM, ..req }).await.ok()?.next().await }, wait).await;
                    }
                }
            }));
        }
        simcore::quiesce().await;
        if js.iter().any(|j| !j.is_finished()) {
            fail("call-hangs", "an abandoned call waits for ever");
        }
    })
    .await;
    net::release_all();
    simcore::quiesce().await;
    burst(&clients, 3, 30, mix, &ids).await;
    if clients[0].conn.is_finished() {
        fail("unexpected-end", "a connection ended although nothing ended it");
    }
}

struct Bind;
impl ConnectionBindings for Bind {
    type Deserializer = De<Msg>;
    type Serializer = Ser<Msg>;
    type Reactor = Sink;
}
struct Sink(Arc<Mutex<u64>>);
impl MessageReactor for Sink {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        let mut n = 0;
        for _ in messages {
            n += 1;
            probe("work");
        }
        *self.0.lock().unwrap() += n;
        ReactorStatus::Continue
    }
}
struct Plain {
    tx: mpsc::Sender<Msg>,
    conn: Join<()>,
    got: Arc<Mutex<u64>>,
    node: u32,
}
fn plain(node: u32, sock: net::SockId, limit: usize, q: usize) -> Plain {
    let (tx, rx) = mpsc::channel(q);
    let stream = tokio::net::TcpStream::from_sim(sock);
    let addr = stream.peer_addr().unwrap();
    let got = Arc::new(Mutex::new(0));
    let c: Connection<Bind> = Connection::new(stream, addr, De::default(), Ser::default(), limit, q, rx, Sink(got.clone()));
    Plain { tx, conn: simcore::spawn_on(Some(node), "connection", c), got, node }
}
/// both ends send about `n` messages each
async fn exchange(ends: &[Plain; 2], n: u32, tasks: u32, len: u32, noise: bool, pauses: bool) {
    let mut js: Vec<Join<()>> = Vec::with_capacity(2 * tasks as usize);
    for e in ends {
        for t in 0..tasks {
            let tx = e.tx.clone();
            js.push(simcore::spawn_on(Some(e.node), "sender", async move {
                for i in 0..n / tasks {
                    let body = vec![3; choose(S::App, len + 1) as usize];
                    let sender = match choose(S::App, 12) {
                        0 if noise => msg::NOISE_EMPTY,
                        1 if noise => msg::NOISE_SKIP,
                        _ => t,
                    };
                    if tx.send(Msg { sender, seq: i as u64, body }).await.is_err() {
                        return fail("unexpected-end", "a connection ended although nothing ended it");
                    }
                    if pauses && chance(S::App, 100) {
                        simcore::timer(1_000 * range(S::App, 1, 50) as u64).await;
                    }
                }
            }));
        }
    }
    simcore::quiesce().await;
    if js.iter().any(|j| !j.is_finished()) {
        fail("sender-stuck", "a sending task waits for ever");
    }
}
async fn messages() {
    let (tasks, len, pauses) = (range(S::Gen, 1, 4), [20, 100, 600][choose(S::Gen, 3) as usize], env::maybe(500));
    let unit = range(S::Gen, 80, 200);
    env::draw((unit * 20 * len / 2) as usize);
    let q = [range(S::Gen, 1, 16) as usize, range(S::Gen, 1, 16) as usize];
    let (sa, sb) = net::pair(1, 2);
    let ends = [plain(1, sa, 4096, q[0]), plain(2, sb, 4096, q[1])];
    let noise = msg::codec().kind == Kind::Frame && env::maybe(500);
    // buffers of the largest size for every place in the queues
    let slack = 4000 + (q[0] + q[1]) as isize * 2 * (len as isize + 40);
    steady("messages", 2 * unit, slack, 2, async || exchange(&ends, unit, tasks, len, noise, pauses).await).await;
}

async fn churn() {
    env::draw(10_000);
    let addr: SocketAddr = "10.0.0.1:1000".parse().unwrap();
    let Some(_server) = start_server(addr, 4096, 8).await else { return fail("server-dead", "the server cannot be started") };
    let mix = draw_mix(1);
    let ids = Arc::new(Mutex::new(0));
    let ways = some_of([1, 1, 1, 1]);
    // nothing is open after a round: nothing is kept for any of its connections
    steady("connections", 4, 2_000, 0, async || {
        for _ in 0..4 {
            let Some(c) = connect(1, addr, 4096, 4).await else { return fail("server-dead", "a client cannot connect") };
            let tasks = range(S::App, 1, 3);
            let mut js: Vec<Join<()>> = Vec::with_capacity(4);
            for _ in 0..tasks {
                let (rpc, ids) = (c.rpc.clone(), ids.clone());
                js.push(simcore::spawn_on(Some(1), "caller", async move {
                    for _ in 0..4 {
                        let id = {
                            let mut i = ids.lock().unwrap();
                            *i += 1;
                            *i
                        };
                        one_call_any(&rpc, id, &mix).await;
                    }
                }));
            }
            if chance(S::App, 700) {
                simcore::timer(1_000 * log_uniform(S::App, 300) as u64).await;
            }
            let pairs = net::opened();
            let (s, t) = pairs[pairs.len() - 1];
            match weighted(S::App, &ways) {
                0 => js.iter().for_each(|j| j.abort()),
                1 => net::reset(s),
                2 => net::reset(t),
                _ => {
                    simcore::fault(Fault::TaskAbort);
                    c.conn.abort()
                }
            }
            drop(c);
            simcore::quiesce().await;
            if js.iter().any(|j| !j.is_finished()) {
                return fail("call-hangs", "a call on a lost connection waits for ever");
            }
        }
    })
    .await;
}
/// as one_call, on a connection that may end
async fn one_call_any(rpc: &RpcClient<Rpc, Rpc>, id: u64, mix: &Mix) {
    probe("work");
    let o = OPS[weighted(S::App, &mix.ops)];
    let req = Rpc { id, op: o, a: choose(S::App, 4), b: choose(S::App, 20), nonce: id, body: vec![2; 5], ..Default::default() };
    let impatient = weighted(S::App, &mix.ends) != 0;
    if o < k::STREAM {
        let Ok(c) = rpc.send_unary(req).await else { return };
        if impatient {
            drop(env::poll_times(c, 2).await);
        } else {
            let _ = c.await;
        }
    } else {
        let Ok(mut c) = rpc.send_streaming(req).await else { return };
        while let Some(Ok(_)) = c.next().await {
            if impatient {
                break;
            }
        }
    }
}

/// polls of every task that is not the harness's
fn polls() -> u64 {
    simcore::task_table()
        .iter()
        .filter(|t| !matches!(t.2, "caller" | "sender" | "connect" | "start server" | "chaos" | "raw reader" | "trickle") && t.0 != 0)
        .map(|t| t.4)
        .sum()
}

async fn idle() {
    env::draw(20_000);
    // polls are counted: none are injected, and the budget is what it really is
    simcore::with(|s| {
        s.cfg.spurious_mean = 0;
        s.cfg.coop = 128;
        s.cfg.net.spurious = 0;
        s.cfg.net.eintr = 0;
        s.rearm();
    });
    let rpc = env::maybe(500);
    let mut work = 0u64;
    if rpc {
        let addr: SocketAddr = "10.0.0.1:1000".parse().unwrap();
        let Some(_server) = start_server(addr, 4096, range(S::Gen, 1, 16) as usize).await else { return fail("server-dead", "no server") };
        let mut clients = Vec::new();
        for n in 0..range(S::Gen, 1, 3) {
            match connect(1 + n, addr, 4096, range(S::Gen, 1, 16) as usize).await {
                Some(c) => clients.push(c),
                None => return fail("server-dead", "a client cannot connect"),
            }
        }
        let ids = Arc::new(Mutex::new(0));
        for _ in 0..range(S::Gen, 1, 4) {
            let mut mix = draw_mix(1);
            mix.items = mix.items.min(3);
            let before = polls();
            let (e0, n0) = (net::events(), simcore::with(|s| s.now));
            burst(&clients, range(S::Gen, 1, 6), 60, mix, &ids).await;
            work = 60 * (12 + 4 * mix.items as u64);
            check_polls("calls", polls() - before, work + net::events() - e0, n0);
            if simcore::failed() {
                return;
            }
            quiet().await;
            if simcore::failed() {
                return;
            }
        }
        // calls that hang for ever do not keep anything busy
        let c = clients[0].rpc.clone();
        let h = simcore::spawn_on(Some(clients[0].node), "caller", async move {
            let a = c.send_unary(Rpc { id: 7, op: k::HANG, ..Default::default() }).await;
            let b = c.send_streaming(Rpc { id: 8, op: k::STREAM_HANGS, a: 2, ..Default::default() }).await;
            std::future::pending::<()>().await;
            drop((a, b));
        });
        simcore::quiesce().await;
        quiet().await;
        drop(h);
    } else {
        let q = [range(S::Gen, 1, 16) as usize, range(S::Gen, 1, 16) as usize];
        let (sa, sb) = net::pair(1, 2);
        let ends = [plain(1, sa, 4096, q[0]), plain(2, sb, 4096, q[1])];
        for _ in 0..range(S::Gen, 1, 4) {
            let before = polls();
            let e0 = net::events();
            let n0 = simcore::with(|s| s.now);
            let n = range(S::Gen, 4, 60);
            let blocked = env::maybe(400);
            if blocked {
                simcore::fault(Fault::Custom1);
                net::hold(sa, true);
                net::hold(sb, env::maybe(500));
            }
            let js = ends.iter().map(|e| {
                let tx = e.tx.clone();
                simcore::spawn_on(Some(e.node), "sender", async move {
                    for i in 0..n {
                        if tx.send(Msg { sender: 0, seq: i as u64, body: vec![4; choose(S::App, 100) as usize] }).await.is_err() {
                            return fail("unexpected-end", "a connection ended although nothing ended it");
                        }
                        if chance(S::App, 100) {
                            simcore::timer(1_000 * range(S::App, 1, 50) as u64).await;
                        }
                    }
                })
            });
            let js: Vec<_> = js.collect();
            simcore::quiesce().await;
            if blocked {
                quiet().await;
                net::release_all();
                simcore::quiesce().await;
            }
            work += 2 * n as u64;
            if js.iter().any(|j| !j.is_finished()) {
                return fail("sender-stuck", "a sending task waits for ever");
            }
            check_polls("messages", polls() - before, 2 * n as u64 + net::events() - e0, n0);
            if simcore::failed() {
                return;
            }
            quiet().await;
            if simcore::failed() {
                return;
            }
        }
        let got: u64 = ends.iter().map(|e| *e.got.lock().unwrap()).sum();
        if got != work {
            fail("stall", format!("{work} messages sent, {got} delivered"));
        }
        if ends.iter().any(|e| e.conn.is_finished()) {
            fail("unexpected-end", "a connection ended although nothing ended it");
        }
        // a peer that trickles bytes
        trickle().await;
    }
    let _ = work;
    probe("idle_checked");
}
/// Time passes, nothing comes from outside: nothing is polled.
async fn quiet() {
    let before = polls();
    simcore::timer(range(S::Gen, 1, 100) as u64 * 1_000_000_000).await;
    simcore::quiesce().await;
    let n = polls() - before;
    if n > 0 {
        fail("idle-polls", format!("{n} polls while there was nothing to do"));
    }
}
fn check_polls(what: &str, polls: u64, units: u64, _since: u64) {
    if std::env::var_os("SOAK_NOISE").is_some() {
        eprintln!("polls {what}: {polls} for {units} = {:.2}", polls as f64 / units as f64);
    }
    simcore::note_state(10 << 40 | (polls * 8 / units.max(1)).min(200));
    if polls > 4 * units + 20 {
        fail("busy", format!("{what}: {polls} polls for {units} messages, calls and socket events"));
    }
}
async fn trickle() {
    let (sa, sb) = net::pair(3, 4);
    let e = plain(3, sa, 4096, 4);
    let mut p = crate::peer::Peer::new(4, tokio::net::TcpStream::from_sim(sb));
    p.start_reading(false);
    let kind = msg::codec().kind;
    let mut bytes = Vec::new();
    for i in 0..3 {
        bytes.extend(msg::wire(kind, &msg::msg(0, i, 40)));
    }
    let before = polls();
    let e0 = net::events();
    let n = bytes.len() as u64;
    let s = p.stream.clone();
    let j = simcore::spawn_on(Some(4), "trickle", async move {
        for b in bytes {
            let _ = s.writable().await;
            let _ = s.try_write(&[b]);
            simcore::timer(5_000_000).await;
        }
    });
    simcore::quiesce().await;
    if !j.is_finished() || *e.got.lock().unwrap() != 3 {
        return fail("stall", "trickled messages are not delivered");
    }
    check_polls("trickle", polls() - before, n + net::events() - e0, 0);
    settle().await;
}
