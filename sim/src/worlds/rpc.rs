//! Real rpc clients and a real rpc server.
//!
//! Profiles: 0 general, 1 bursts against a blocked network, 2 connection loss, 3 ids used again,
//! 4 calls given up, 5 calls that hang or never end, 6 failures while connections are set up,
//! 7 very many visitors of one server, which go wrong in one way or in many, or stay, 8 a herd of calls
//! that all become ready, or are all given up or lost, at once, 9 a long life: more calls, and more items
//! of one stream, than 16 bits count, 10 thousands of visitors that come and go.

use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::task::Waker;

use futures::StreamExt;
use protosocket_rpc::client::{Configuration, RpcClient};
use protosocket_rpc::server::SocketRpcServer;
use simcore::choice::S;
use simcore::net::{self, SockId};
use simcore::{chance, choose, fail, log_uniform, probe, range, weighted, Fault, Join, JoinOutcome};

use super::conn::{draw_codec, draw_queue, settle};
use crate::env;
use crate::msg::{self, De, Kind, Next, Rpc, Ser};
use crate::rpcs::{self, led, op, with_call, Service, State, SERVER};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Full,
    Slow,
    /// not looked at until the gate opens
    Parked,
    DropSend(u32),
    DropNow,
    DropPolls(u32),
    DropItems(u32),
    DropLater(u32),
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub op: u32,
    pub a: u32,
    pub b: u32,
    pub len: usize,
    pub mode: Mode,
}

#[derive(Default)]
struct Shared {
    /// clients whose connection has been given a reason to end
    down: BTreeSet<u32>,
    gate: bool,
    waiting: Vec<Waker>,
    parked: BTreeSet<u64>,
    free_ids: Vec<u64>,
    next: BTreeMap<u32, u64>,
}
pub struct Client {
    pub n: u32,
    pub node: u32,
    pub rpc: Option<RpcClient<Rpc, Rpc>>,
    pub conn: Join<()>,
    pub sock: SockId,
    pub ssock: SockId,
    pub address: SocketAddr,
    pub q: usize,
    pub limit: usize,
    /// the limits of the server's side of it, where they are not those of the server now
    pub server_limits: Option<(usize, usize)>,
    pub tasks: Vec<Join<()>>,
    pub up: bool,
}
struct Sys {
    sh: Arc<Mutex<Shared>>,
    addr: SocketAddr,
    server: Join<()>,
    server_node: u32,
    qs: usize,
    limit: usize,
    kind: Kind,
    clients: Vec<Client>,
    max_len: u32,
}

/// Run something on a node and wait for it.
pub async fn on<F>(node: u32, name: &'static str, f: F) -> Option<F::Output>
where
    F: std::future::Future + 'static,
    F::Output: 'static,
{
    let j = simcore::spawn_on(Some(node), name, f);
    match std::future::poll_fn(|cx| j.poll_join(cx)).await {
        JoinOutcome::Done(v) => Some(v),
        _ => None,
    }
}

/// Turns the limits of a server that runs: (buffer length, queued messages) for what connects from then on.
#[derive(Clone, Default)]
pub struct Dial(Arc<Mutex<(Option<(usize, usize)>, Option<Waker>)>>);
impl Dial {
    pub async fn turn(&self, limit: usize, q: usize) {
        // whoever has connected is accepted first
        simcore::quiesce().await;
        let w = {
            let mut d = self.0.lock().unwrap();
            d.0 = Some((limit, q));
            d.1.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        simcore::quiesce().await;
        probe("limits_changed");
    }
    pub async fn drive<F: std::future::Future>(self, server: F, set: impl Fn(&mut F, usize, usize)) {
        let mut server = Box::pin(server);
        std::future::poll_fn(|cx| {
            let turned = {
                let mut d = self.0.lock().unwrap();
                d.1 = Some(cx.waker().clone());
                d.0.take()
            };
            if let Some((limit, q)) = turned {
                // SAFETY: the setters move nothing out of the server
                set(unsafe { server.as_mut().get_unchecked_mut() }, limit, q);
            }
            server.as_mut().poll(cx).map(|_| ())
        })
        .await
    }
}

pub async fn start_server(node: u32, addr: SocketAddr, limit: usize, q: usize) -> Option<Join<()>> {
    start_server_with(node, addr, limit, q, Dial::default()).await
}
async fn start_server_with(node: u32, addr: SocketAddr, limit: usize, q: usize, dial: Dial) -> Option<Join<()>> {
    let s = on(node, "start server", async move {
        match SocketRpcServer::new(addr, Service).await {
            Ok(mut s) => {
                s.set_max_buffer_length(limit);
                s.set_max_queued_outbound_messages(q);
                Some(s)
            }
            Err(_) => None,
        }
    })
    .await??;
    Some(simcore::spawn_on(
        Some(node),
        "server",
        dial.drive(s, |s, limit, q| {
            s.set_max_buffer_length(limit);
            s.set_max_queued_outbound_messages(q);
        }),
    ))
}

pub async fn connect(n: u32, addr: SocketAddr, limit: usize, q: usize) -> Option<Client> {
    let node = n;
    let mut c = Configuration::default();
    c.max_buffer_length(limit);
    c.max_queued_outbound_messages(q);
    let before = net::opened().len();
    let r = on(node, "connect", async move { protosocket_rpc::client::connect::<Ser<Rpc>, De<Rpc>>(addr, &c).await.ok() }).await?;
    let (rpc, connection) = r?;
    let (sock, ssock) = net::opened()[before];
    net::tap(sock);
    net::tap(ssock);
    let address = net::local_addr(sock).ok()?;
    let conn = simcore::spawn_on(Some(node), "connection", connection);
    Some(Client { n, node, rpc: Some(rpc), conn, sock, ssock, address, q, limit, server_limits: None, tasks: Vec::new(), up: true })
}

/// Takes note of a call that is given up, whatever makes it so.
struct Mark(u64);
impl Drop for Mark {
    fn drop(&mut self) {
        let given_up = with_call(self.0, |c| match c.state {
            State::Sending => {
                c.state = State::DroppedUnsent;
                Some((c.client, c.id))
            }
            State::Open => {
                c.state = State::Dropped;
                Some((c.client, c.id))
            }
            _ => None,
        })
        .flatten();
        if let Some(key) = given_up {
            led(|l| *l.drops.entry(key).or_insert(0) += 1);
        }
    }
}

fn set(nonce: u64, s: State) {
    with_call(nonce, |c| c.state = s);
}
fn error(sh: &Arc<Mutex<Shared>>, n: u32, nonce: u64, e: &protosocket_rpc::Error) {
    set(nonce, State::Failed);
    if !sh.lock().unwrap().down.contains(&n) {
        fail("rpc-spurious-error", format!("call {nonce} of client {n} failed with {e:?} although its connection is up"));
    }
}
async fn gate(sh: &Arc<Mutex<Shared>>) {
    std::future::poll_fn(|cx| {
        let mut s = sh.lock().unwrap();
        if s.gate {
            std::task::Poll::Ready(())
        } else {
            s.waiting.push(cx.waker().clone());
            std::task::Poll::Pending
        }
    })
    .await
}

async fn run_call(sh: Arc<Mutex<Shared>>, rpc: &RpcClient<Rpc, Rpc>, n: u32, id: Option<u64>, p: &Plan) {
    let nonce = {
        let mut s = sh.lock().unwrap();
        let k = s.next.entry(n).or_insert(0);
        *k += 1;
        rpcs::nonce_of(n, *k)
    };
    let id = id.unwrap_or(rpcs::id_of(nonce));
    rpcs::open_call(n, id, nonce, p.op, p.a, p.b);
    let mark = Mark(nonce);
    let req = rpcs::request(id, nonce, p.op, p.a, p.b, p.len);
    probe("work");
    let restless = chance(S::App, 150);
    if op::unary(p.op) {
        let sent = match p.mode {
            Mode::DropSend(k) => match env::poll_times(rpc.send_unary(req), k).await {
                Some(r) => r,
                None => {
                    simcore::fault(Fault::CallDropped);
                    return;
                }
            },
            _ => env::restless(rpc.send_unary(req), restless).await,
        };
        let mut call = match sent {
            Ok(c) => c,
            Err(e) => return error(&sh, n, nonce, &e),
        };
        set(nonce, State::Open);
        match p.mode {
            Mode::DropNow | Mode::DropSend(_) => {
                simcore::fault(Fault::CallDropped);
                drop(call);
                return drop(mark);
            }
            Mode::DropLater(us) => {
                simcore::timer(us as u64 * 1_000).await;
                simcore::fault(Fault::CallDropped);
                drop(call);
                return drop(mark);
            }
            Mode::Parked => {
                sh.lock().unwrap().parked.insert(nonce);
                gate(&sh).await;
                sh.lock().unwrap().parked.remove(&nonce);
            }
            Mode::Slow => env::pause().await,
            _ => {}
        }
        let r = match p.mode {
            Mode::DropPolls(k) | Mode::DropItems(k) => match env::poll_times(&mut call, k).await {
                Some(r) => r,
                None => {
                    simcore::fault(Fault::CallDropped);
                    drop(call);
                    return drop(mark);
                }
            },
            _ => env::restless(&mut call, restless).await,
        };
        match r {
            Ok(m) => {
                if !rpcs::is_response(&m, id, nonce, 0, p.b) {
                    fail("rpc-wrong-response", format!("call {nonce} (id {id}) got {m:?}"));
                }
                let made = with_call(nonce, |c| {
                    c.state = State::Finished;
                    c.completed
                });
                if made != Some(true) {
                    fail("rpc-wrong-response", format!("call {nonce} got a response the service had not produced"));
                }
            }
            Err(e) => error(&sh, n, nonce, &e),
        }
        if chance(S::App, 200) {
            env::pause().await;
        }
        drop(call);
    } else {
        let sent = match p.mode {
            Mode::DropSend(k) => match env::poll_times(rpc.send_streaming(req), k).await {
                Some(r) => r,
                None => {
                    simcore::fault(Fault::CallDropped);
                    return;
                }
            },
            _ => env::restless(rpc.send_streaming(req), restless).await,
        };
        let mut call = match sent {
            Ok(c) => c,
            Err(e) => return error(&sh, n, nonce, &e),
        };
        set(nonce, State::Open);
        let mut stop = u32::MAX;
        match p.mode {
            Mode::DropNow | Mode::DropSend(_) => stop = 0,
            Mode::DropLater(us) => {
                simcore::timer(us as u64 * 1_000).await;
                stop = 0;
            }
            Mode::DropItems(k) => stop = k,
            Mode::Parked => {
                sh.lock().unwrap().parked.insert(nonce);
                gate(&sh).await;
                sh.lock().unwrap().parked.remove(&nonce);
            }
            _ => {}
        }
        let mut seen = 0;
        while seen < stop {
            let next = match p.mode {
                Mode::DropPolls(k) => match env::poll_times(call.next(), k).await {
                    Some(r) => r,
                    None => break,
                },
                _ => env::restless(call.next(), restless).await,
            };
            match next {
                Some(Ok(m)) => {
                    if m.nonce != nonce || m.id != id {
                        fail("rpc-wrong-response", format!("stream {nonce} (id {id}) yielded {m:?}"));
                    } else if m.index != seen {
                        fail("stream-order", format!("stream {nonce} yielded item {} where {seen} was expected", m.index));
                    } else if !rpcs::is_response(&m, id, nonce, seen, p.b) {
                        fail("stream-altered", format!("item {seen} of stream {nonce} has different content"));
                    }
                    seen += 1;
                    with_call(nonce, |c| c.items = seen);
                    if p.mode == Mode::Slow && chance(S::App, 400) {
                        env::pause().await;
                    }
                    // whoever reads a stream in a loop lets others run
                    tokio::task::consume_budget().await;
                }
                Some(Err(protosocket_rpc::Error::Finished)) => {
                    let (done, produced) = with_call(nonce, |c| {
                        c.state = State::Finished;
                        (c.completed, c.produced)
                    })
                    .unwrap();
                    if !done || seen != produced || seen != p.a {
                        fail(
                            "stream-truncated",
                            format!("stream {nonce} reports its end after {seen} of {} items (produced {produced}, service ended it: {done})", p.a),
                        );
                    }
                    break;
                }
                Some(Err(e)) => {
                    error(&sh, n, nonce, &e);
                    break;
                }
                None => {
                    fail("stream-no-end", format!("stream {nonce} stopped after {seen} items without reporting an end"));
                    break;
                }
            }
        }
        let st = with_call(nonce, |c| c.state);
        if st == Some(State::Finished) || st == Some(State::Failed) {
            for _ in 0..choose(S::App, 3) {
                match env::poll_times(call.next(), 1).await {
                    Some(None) | None => {}
                    Some(Some(x)) => fail("stream-after-end", format!("stream {nonce} had ended and yields {x:?}")),
                }
            }
        } else {
            simcore::fault(Fault::CallDropped);
        }
        drop(call);
    }
    drop(mark);
}

/// One task of an application: calls one after the other.
async fn caller(sh: Arc<Mutex<Shared>>, rpc: RpcClient<Rpc, Rpc>, n: u32, plans: Vec<Plan>, reuse: bool) {
    for p in &plans {
        let id = if reuse { sh.lock().unwrap().free_ids.pop() } else { None };
        run_call(sh.clone(), &rpc, n, id, p).await;
        if let Some(id) = id {
            // only an id whose call has finished may be used again
            let ok = led(|l| l.calls.values().filter(|c| c.client == n && c.id == id).all(|c| c.state == State::Finished));
            if ok {
                let mut s = sh.lock().unwrap();
                s.free_ids.push(id);
                let k = s.free_ids.len();
                drop(s);
                let i = choose(S::App, k as u32) as usize;
                sh.lock().unwrap().free_ids.swap(i, k - 1);
            }
        }
        if chance(S::App, 300) {
            env::pause().await;
        }
    }
}

fn draw_plan(profile: u32, max_len: u32) -> Plan {
    use op::*;
    let ops: [(u32, [u32; 8]); 12] = [
        // op: weight by profile
        (NOW, [6, 6, 5, 6, 5, 5, 5, 0]),
        (YIELDS, [3, 2, 2, 3, 3, 3, 3, 0]),
        (SLEEP, [3, 1, 2, 3, 3, 3, 2, 0]),
        (TASK, [3, 2, 2, 3, 3, 3, 2, 0]),
        (HANG, [1, 0, 3, 0, 4, 6, 1, 0]),
        (UNKNOWN, [1, 0, 1, 0, 1, 2, 1, 0]),
        (S_NOW, [5, 4, 4, 5, 4, 3, 4, 0]),
        (S_SLOW, [2, 1, 2, 2, 2, 2, 1, 0]),
        (S_TASK, [2, 2, 2, 3, 2, 2, 1, 0]),
        (S_HANG, [1, 1, 2, 0, 4, 4, 1, 0]),
        (S_ENDLESS, [0, 2, 1, 0, 2, 4, 0, 0]),
        (S_YIELDS, [2, 2, 2, 3, 2, 2, 1, 0]),
    ];
    let w: Vec<u32> = ops.iter().map(|(_, w)| w[profile.min(7) as usize]).collect();
    let o = ops[weighted(S::App, &w)].0;
    let b = match weighted(S::App, &[6, 3, 1]) {
        0 => choose(S::App, 20),
        1 => log_uniform(S::App, 300),
        _ => log_uniform(S::App, max_len),
    };
    let a = match o {
        YIELDS => choose(S::App, 6),
        SLEEP => log_uniform(S::App, 2000),
        S_ENDLESS if profile == 5 => (2 * led(|l| l.bound()) as u32 + choose(S::App, 500)).min(5000),
        S_ENDLESS => 600 + choose(S::App, 900),
        o if o >= 10 => match weighted(S::App, &[1, 4, 2, 1]) {
            0 => 0,
            1 => range(S::App, 1, 6),
            2 => range(S::App, 10, 40),
            _ => range(S::App, 60, 200),
        },
        _ => choose(S::App, 10),
    };
    let b = if o == S_ENDLESS { b.min(12) } else if a > 50 { b.min(100) } else { b };
    let drops = if profile == 4 { 600 } else if profile == 3 { 0 } else { 120 };
    let mode = if chance(S::App, drops) {
        match weighted(S::App, &[2, 2, 3, 3, 3]) {
            0 => Mode::DropSend(range(S::App, 1, 3)),
            1 => Mode::DropNow,
            2 => Mode::DropPolls(range(S::App, 1, 3)),
            3 => Mode::DropItems(choose(S::App, a.clamp(1, 30) + 2)),
            _ => Mode::DropLater(log_uniform(S::App, 3000)),
        }
    } else {
        match weighted(S::App, &[6, 2, if profile == 3 { 0 } else { 1 }]) {
            0 => Mode::Full,
            1 => Mode::Slow,
            _ => Mode::Parked,
        }
    };
    let len = match weighted(S::App, &[6, 3, 1]) {
        0 => choose(S::App, 20) as usize,
        1 => log_uniform(S::App, 300) as usize,
        _ => log_uniform(S::App, max_len) as usize,
    };
    Plan { op: o, a, b, len, mode }
}

impl Sys {
    /// the limits of the server's side of client i
    fn server_limits(&self, i: usize) -> (usize, usize) {
        self.clients[i].server_limits.unwrap_or((self.limit, self.qs))
    }
    fn mark_down(&mut self, i: usize) {
        let n = self.clients[i].n;
        self.clients[i].up = false;
        self.sh.lock().unwrap().down.insert(n);
    }
    fn launch(&mut self, i: usize, profile: u32, tasks: u32, calls: u32, reuse: bool) {
        for _ in 0..tasks {
            let plans = (0..range(S::Gen, 1, calls)).map(|_| draw_plan(profile, self.max_len)).collect();
            self.launch_plans(i, plans, reuse);
        }
    }
    fn launch_plans(&mut self, i: usize, plans: Vec<Plan>, reuse: bool) {
        let c = &mut self.clients[i];
        let Some(rpc) = c.rpc.clone() else { return };
        simcore::trace(|| format!("client {}: {plans:?}", c.n));
        c.tasks.push(simcore::spawn_on(Some(c.node), "caller", caller(self.sh.clone(), rpc, c.n, plans, reuse)));
    }
    fn open_gate(&self) {
        let w = {
            let mut s = self.sh.lock().unwrap();
            s.gate = true;
            std::mem::take(&mut s.waiting)
        };
        w.into_iter().for_each(|w| w.wake());
    }
    fn close_gate(&self) {
        self.sh.lock().unwrap().gate = false;
    }

    /// Everything has settled: what must be true now.
    fn verify(&self) {
        if self.server.is_finished() {
            return fail("server-ended", "the server future ended");
        }
        let parked = self.sh.lock().unwrap().parked.clone();
        for c in self.clients.iter().filter(|c| c.up) {
            if c.conn.is_finished() {
                return fail("unexpected-end", format!("the connection of client {} ended although nothing ended it", c.n));
            }
            if c.rpc.as_ref().is_some_and(|r| !r.is_alive()) {
                return fail("is-alive", format!("client {} reports not alive on a live connection", c.n));
            }
            let bad = led(|l| {
                for k in l.calls.values().filter(|k| k.client == c.n) {
                    let bad = match k.state {
                        State::Sending => Some(("sender-stuck", "is never handed over")),
                        State::Open if k.started == 0 => Some(("rpc-lost-request", "never reached the service")),
                        State::Open if parked.contains(&k.nonce) => None,
                        State::Open if op::completes(k.op) && op::unary(k.op) => Some(("rpc-lost-response", "never resolves")),
                        State::Open if op::completes(k.op) => Some(("stream-stuck", "never ends")),
                        State::Open if k.op == op::S_GATE && !rpcs::service_gate_open() => (k.items != k.a / 2).then_some(("stream-stuck", "does not yield what the service produced")),
                        State::Open if !op::unary(k.op) && k.items != k.a => Some(("stream-stuck", "does not yield what the service produced")),
                        State::Open if k.op != op::UNKNOWN && k.live == 0 => Some(("rpc-dropped-work", "is waited for and its work was dropped")),
                        State::Dropped | State::DroppedUnsent if k.live != 0 => Some(("cancel-ignored", "was given up and the server still works on it")),
                        State::Failed => Some(("rpc-spurious-error", "failed on a live connection")),
                        State::Finished if k.live != 0 => Some(("server-leak", "has finished and the server still holds it")),
                        _ => None,
                    };
                    if let Some((class, what)) = bad {
                        return Some((class, format!("call {} of client {} {what}: {k:?}", k.nonce, c.n)));
                    }
                }
                for (id, n) in l.cancels_sent.iter().filter(|(k, _)| k.0 == c.n) {
                    let d = l.drops.get(id).copied().unwrap_or(0);
                    if *n > d {
                        return Some(("cancel-spurious", format!("client and id {id:?}: {n} cancellations sent, {d} unfinished calls dropped")));
                    }
                }
                match l.conns.iter().find(|k| k.address == Some(c.address)) {
                    None => return Some(("server-dead", format!("the connection of client {} was never served", c.n))),
                    Some(k) if k.dropped != 0 => return Some(("service-dropped", format!("the service of client {}'s live connection was dropped", c.n))),
                    _ => {}
                }
                None
            });
            if let Some((class, why)) = bad {
                return fail(class, why);
            }
        }
        for c in self.clients.iter().filter(|c| !c.up) {
            self.verify_gone(c);
            if simcore::failed() {
                return;
            }
        }
        // what was given up is gone for good
        led(|l| {
            for k in l.calls.values_mut().filter(|k| k.state == State::Dropped && k.id == rpcs::id_of(k.nonce)) {
                k.buried = true;
            }
        });
    }
    fn verify_gone(&self, c: &Client) {
        if !c.conn.is_finished() {
            return fail("fate-open", format!("the connection of client {} should have ended and has not", c.n));
        }
        if !net::is_closed(c.sock) || !(net::is_closed(c.ssock) || !net::accepted(c.ssock)) {
            return fail("fate-socket", format!("a socket of client {} is still open", c.n));
        }
        if let Some(k) = c.tasks.iter().position(|t| !t.is_finished()) {
            let open: Vec<u64> = led(|l| {
                l.calls.values().filter(|k| k.client == c.n && matches!(k.state, State::Sending | State::Open)).map(|k| k.nonce).collect()
            });
            return fail("call-hangs", format!("client {} lost its connection and task {k} still waits; calls {open:?}", c.n));
        }
        if c.rpc.as_ref().is_some_and(|r| r.is_alive()) {
            return fail("is-alive", format!("client {} lost its connection and reports alive", c.n));
        }
        let bad = led(|l| {
            if let Some(k) = l.calls.values().find(|k| k.client == c.n && k.live != 0) {
                return Some(format!("the connection of client {} is gone and the server still works on {k:?}", c.n));
            }
            match l.conns.iter().find(|k| k.address == Some(c.address)) {
                Some(k) if k.node == self.server_node && k.dropped != 1 => Some(format!("the service of a lost connection of client {} was dropped {} times", c.n, k.dropped)),
                _ => None,
            }
        });
        if let Some(why) = bad {
            fail("server-leak", why);
        }
    }
    /// Calls on a lost connection fail at once.
    async fn late_calls(&self) {
        for c in self.clients.iter().filter(|c| !c.up) {
            let Some(rpc) = c.rpc.clone() else { continue };
            let n = c.n;
            on(c.node, "late caller", async move {
                let req = |k: u64| rpcs::request(rpcs::id_of(rpcs::nonce_of(n, 990_000 + k)), 0, 0, 0, 0, 3);
                match env::poll_times(rpc.send_unary(req(1)), 50).await {
                    Some(Err(protosocket_rpc::Error::ConnectionIsClosed)) => {}
                    None => fail("late-call", "a call on a lost connection waits"),
                    Some(Ok(_)) => fail("late-call", "a call on a lost connection is accepted"),
                    Some(Err(e)) => fail("late-call", format!("a call on a lost connection fails with {e:?}")),
                }
                match env::poll_times(rpc.send_streaming(req(2)), 50).await {
                    Some(Err(protosocket_rpc::Error::ConnectionIsClosed)) => {}
                    None => fail("late-call", "a stream on a lost connection waits"),
                    Some(Ok(_)) => fail("late-call", "a stream on a lost connection is accepted"),
                    Some(Err(e)) => fail("late-call", format!("a stream on a lost connection fails with {e:?}")),
                }
            })
            .await;
        }
    }
    /// A new client finds a working server.
    async fn fresh_client(&mut self) {
        let n = 100_000 + self.clients.len() as u32;
        let c = match connect(n, self.addr, 1 << 20, 16).await {
            Some(c) => c,
            None => return fail("server-dead", "a new client cannot connect"),
        };
        self.clients.push(c);
        let i = self.clients.len() - 1;
        let plans = vec![
            Plan { op: op::NOW, a: 0, b: 5, len: 5, mode: Mode::Full },
            Plan { op: op::S_NOW, a: 5, b: 5, len: 5, mode: Mode::Full },
        ];
        self.launch_plans(i, plans, false);
        settle().await;
        if !self.clients[i].tasks.iter().all(|t| t.is_finished()) {
            return fail("server-dead", "calls of a new client are not answered");
        }
    }

    /// (normal frames, all frames) completely taken by the network from a socket
    fn taken(&self, sock: SockId) -> (u64, u64) {
        let b = net::tapped(sock);
        let (mut at, mut normal, mut all) = (0, 0, 0);
        while at < b.len() {
            match msg::reference::<Rpc>(self.kind, &b[at..], usize::MAX) {
                Next::Message(n, m) => {
                    at += n;
                    all += 1;
                    normal += (m.code == 0) as u64;
                }
                Next::Incomplete => break,
                _ => {
                    fail("wire-bytes", format!("bytes at {at} of socket {sock} are no frame"));
                    break;
                }
            }
        }
        (normal, all)
    }
    /// The network takes nothing: the endpoints wait, with as much accepted as their limits say.
    fn verify_blocked(&self, i: usize) {
        let c = &self.clients[i];
        let (taken, _) = self.taken(c.sock);
        let (sent, tried, produced, demand, unary_ready) = led(|l| {
            let mut t = (0u64, 0u64, 0u64, 0u64, 0u64);
            for k in l.calls.values().filter(|k| k.client == c.n) {
                t.1 += 1;
                t.0 += !matches!(k.state, State::Sending | State::DroppedUnsent) as u64;
                t.2 += k.produced as u64;
                if k.started > 0 && k.live > 0 && matches!(k.op, op::S_ENDLESS) {
                    t.3 += k.a as u64;
                }
                t.4 += (op::unary(k.op) && k.completed) as u64;
            }
            t
        });
        let q = c.q as u64;
        let held = sent.saturating_sub(taken);
        if held > 4 * q + 4 {
            return fail("buffering-unbounded", format!("client {}: {sent} requests accepted, {taken} taken by the network, limit {q}", c.n));
        }
        if net::is_closed(c.sock) || c.conn.is_finished() {
            return;
        }
        if sent < q.min(tried) && led(|l| l.calls.values().any(|k| k.client == c.n && k.state == State::Sending)) {
            return fail("limit-ignored", format!("client {}: only {sent} of {tried} requests accepted, limit {q}", c.n));
        }
        let (staken, _) = self.taken(c.ssock);
        let qs = self.server_limits(i).1 as u64;
        simcore::note_state(3 << 40 | held.min(300) << 20 | produced.saturating_sub(staken).min(1000));
        if produced.saturating_sub(staken) > 4 * qs + 8 {
            return fail("buffering-unbounded", format!("server: {produced} responses produced for client {}, {staken} taken by the network, limit {qs}", c.n));
        }
        if produced < qs.min(demand) {
            fail("limit-ignored", format!("server: only {produced} of {demand}+{unary_ready} responses produced for client {}, limit {qs}", c.n));
        }
    }
}

async fn chaos(pairs: Vec<(SockId, SockId, u32)>, events: u32, server: u32) {
    for _ in 0..events {
        simcore::timer(1_000 * (1 + log_uniform(S::Fault, 3000) as u64)).await;
        let (a, b, n) = pairs[choose(S::Fault, pairs.len() as u32) as usize];
        match weighted(S::Fault, &[1, 2, 2, 2, 2, 1, 1]) {
            0 => {}
            1 => net::hold(a, true),
            2 => net::hold(a, false),
            3 => net::hold(b, true),
            4 => net::hold(b, false),
            5 => simcore::stall_node(n, 1_000 * log_uniform(S::Fault, 5000) as u64),
            _ => simcore::stall_node(server, 1_000 * log_uniform(S::Fault, 5000) as u64),
        }
    }
}

pub async fn world(profile: u32) {
    let codec = draw_codec();
    msg::set_codec(codec);
    let limit = [1 << 20, 6000, 200_000][weighted(S::Gen, &[5, 2, 1])];
    // MessagePack writes a body byte as up to two
    let most = if codec.kind == Kind::MessagePack { limit as u32 / 2 - 200 } else { limit as u32 - 200 };
    let max_len = most.min(if env::maybe(200) { 20_000 } else { 2000 });
    let qs = draw_queue();
    let nclients = match profile {
        1 | 3 => range(S::Gen, 1, 2),
        5 | 9 => 1,
        7 | 10 => choose(S::Gen, 3),
        _ => range(S::Gen, 1, 3),
    };
    let tasks = match weighted(S::Gen, &[3, 3, 1]) {
        0 => range(S::Gen, 1, 3),
        1 => range(S::Gen, 2, 8),
        _ => range(S::Gen, 10, 30),
    };
    let calls = if tasks > 9 { 3 } else { range(S::Gen, 1, 8) };
    env::draw(if profile == 1 { 300_000 } else { 60_000 }.max(max_len as usize * 20));
    rpcs::draw_ids();
    // the limits may be turned after some have connected
    let earlier = if matches!(profile, 0..=2) && env::maybe(250) { Some((limit << choose(S::Gen, 2), draw_queue())) } else { None };
    let turn_after = choose(S::Gen, nclients + 1);
    rpcs::reset(3 * qs.max(earlier.map_or(0, |e| e.1)) as u64 + 400);
    let sh: Arc<Mutex<Shared>> = Default::default();
    let addr: SocketAddr = "10.0.0.1:1000".parse().unwrap();
    if profile == 6 {
        simcore::with(|s| {
            s.cfg.net.accept_error = 300;
            s.cfg.net.sockopt_error = 300;
        });
    }
    let dial = Dial::default();
    let (l0, q0) = earlier.unwrap_or((limit, qs));
    let Some(server) = start_server_with(SERVER, addr, l0, q0, dial.clone()).await else {
        return fail("server-dead", "the server cannot be started");
    };
    let mut sys = Sys { sh, addr, server, server_node: SERVER, qs, limit, kind: codec.kind, clients: Vec::new(), max_len };
    simcore::trace(|| format!("profile {profile} codec {codec:?} limit {limit} server queue {qs} clients {nclients} tasks {tasks} calls {calls}"));
    for n in 0..nclients {
        if earlier.is_some() && n == turn_after {
            dial.turn(limit, qs).await;
        }
        let q = draw_queue();
        match connect(1 + n, addr, limit, q).await {
            Some(mut c) => {
                c.server_limits = earlier.filter(|_| n < turn_after);
                sys.clients.push(c)
            }
            None if profile == 6 => probe("connect_failed"),
            None => return fail("server-dead", "a client cannot connect"),
        }
    }
    if earlier.is_some() && turn_after == nclients {
        dial.turn(limit, qs).await;
    }
    match profile {
        1 => {
            blocked(&mut sys, tasks, calls).await;
            if !simcore::failed() && env::maybe(200) {
                let i = choose(S::Gen, nclients) as usize;
                end_connection(&mut sys, i, 4 + choose(S::Gen, 2) as usize).await;
                settle().await;
                if !sys.clients[i].conn.is_finished() {
                    return fail("oversize-open", format!("a message over the limit passes; client {} and server have {} and {:?}", 1 + i, limit, sys.server_limits(i)));
                }
                sys.verify();
            }
        }
        2 => loss(&mut sys, tasks, calls).await,
        6 => setup_failures(&mut sys, tasks, calls).await,
        7 => visitors(&mut sys, false).await,
        10 => visitors(&mut sys, true).await,
        8 => herd(&mut sys, false).await,
        9 => long_life(&mut sys).await,
        _ => traffic(&mut sys, profile, tasks, calls).await,
    }
    if simcore::failed() {
        return;
    }
    finish(&mut sys).await;
}

async fn traffic(sys: &mut Sys, profile: u32, tasks: u32, calls: u32) {
    let rounds = range(S::Gen, 1, 3);
    let reuse = profile == 3;
    for r in 0..rounds {
        sys.close_gate();
        if reuse {
            let pool = range(S::Gen, 1, 3) as u64;
            for i in 0..sys.clients.len() {
                // a pool serves one client
                if i == 0 {
                    let first = sys.clients[0].n;
                    let id = |k: u64| rpcs::id_of(rpcs::nonce_of(first, 900_000 + k));
                    sys.sh.lock().unwrap().free_ids = (1..=pool).map(|k| id(k + r as u64 * 10 * env::maybe(300) as u64)).collect();
                    let clean = led(|l| {
                        let s = sys.sh.lock().unwrap();
                        l.calls.values().all(|c| c.client != first || !s.free_ids.contains(&c.id) || c.state == State::Finished)
                    });
                    if !clean {
                        sys.sh.lock().unwrap().free_ids.clear();
                    }
                }
                sys.launch(i, profile, tasks, calls + 6, i == 0);
            }
        } else {
            if profile == 5 && r == 0 && env::maybe(100) {
                probe("crowd_of_hanging_calls");
                for _ in 0..range(S::Gen, 40, 400) {
                    let (o, mode) = ([op::HANG, op::S_HANG][choose(S::Gen, 2) as usize], if env::maybe(100) { Mode::DropLater(log_uniform(S::Gen, 3000)) } else { Mode::Full });
                    sys.launch_plans(0, vec![Plan { op: o, a: 0, b: 3, len: 3, mode }], false);
                }
            }
            for i in 0..sys.clients.len() {
                sys.launch(i, profile, tasks, calls, false);
            }
        }
        let pairs = sys.clients.iter().map(|c| (c.sock, c.ssock, c.node)).collect();
        let events = if env::maybe(500) { range(S::Gen, 1, 8) } else { 0 };
        let ch = simcore::spawn_on(Some(0), "chaos", chaos(pairs, events, SERVER));
        if env::maybe(300) {
            simcore::timer(1_000 * log_uniform(S::App, 20_000) as u64).await;
        } else {
            simcore::quiesce().await;
            rpcs::mark_told();
        }
        ch.abort();
        settle().await;
        sys.verify();
        if simcore::failed() {
            return;
        }
        sys.open_gate();
        settle().await;
        sys.verify();
        if simcore::failed() {
            return;
        }
        probe("rounds_settled");
        if env::maybe(500) {
            // give up what hangs
            for c in sys.clients.iter_mut() {
                c.tasks.iter().for_each(|t| t.abort());
                c.tasks.clear();
            }
            if env::maybe(500) {
                settle().await;
                sys.verify();
                if simcore::failed() {
                    return;
                }
            }
        }
        env::draw(60_000);
    }
}

/// Many calls wait for the same thing, and then it happens and nothing else does.
async fn herd(sys: &mut Sys, huge: bool) {
    for _ in 0..if huge { 1 } else { range(S::Gen, 1, 2) } {
        rpcs::service_gate(false);
        sys.open_gate();
        let only = if env::maybe(600) { Some(choose(S::Gen, 3)) } else { None };
        let arrive_early = env::maybe(800);
        for i in 0..sys.clients.len() {
            let n = [40, 100, 300, 600][choose(S::Gen, 4) as usize];
            for _ in 0..if huge { range(S::Gen, 1100, 4500) } else { range(S::Gen, 20, n) } {
                let (op, a) = match only.unwrap_or_else(|| choose(S::Gen, 6)) {
                    0 => (op::GATE, 0),
                    1 => (op::S_GATE, choose(S::Gen, 4)),
                    2 => (op::S_GATE, 1),
                    3 => (op::HANG, 0),
                    4 => (op::NOW, 0),
                    _ => (op::S_NOW, choose(S::Gen, 3)),
                };
                sys.launch_plans(i, vec![Plan { op, a, b: choose(S::Gen, 12), len: choose(S::Gen, 12) as usize, mode: Mode::Full }], false);
            }
        }
        if arrive_early {
            settle().await;
            sys.verify();
            if simcore::failed() {
                return;
            }
        } else {
            simcore::timer(1_000 * log_uniform(S::Gen, 4000) as u64).await;
        }
        probe("work_herds");
        if env::maybe(250) {
            // the way back is blocked when it happens
            for i in 0..sys.clients.len() {
                net::hold(sys.clients[i].ssock, true);
            }
        }
        match choose(S::Gen, 6) {
            0 => {
                probe("herd_given_up");
                for c in sys.clients.iter_mut() {
                    c.tasks.iter().for_each(|t| t.abort());
                    c.tasks.clear();
                }
            }
            1 => {
                probe("herd_partly_given_up");
                for c in sys.clients.iter_mut() {
                    c.tasks.iter().for_each(|t| if chance(S::App, 500) { t.abort() });
                }
                if env::maybe(500) {
                    settle().await;
                    sys.verify();
                    if simcore::failed() {
                        return;
                    }
                }
                on(sys.server_node, "gate", async { rpcs::service_gate(true) }).await;
            }
            2 if env::maybe(500) => {
                probe("herd_lost");
                let i = choose(S::Gen, sys.clients.len() as u32) as usize;
                let how = choose(S::Gen, 9) as usize;
                end_connection(sys, i, how).await;
                if env::maybe(500) {
                    on(sys.server_node, "gate", async { rpcs::service_gate(true) }).await;
                }
                settle().await;
                sys.verify();
                return;
            }
            _ => {
                on(sys.server_node, "gate", async { rpcs::service_gate(true) }).await;
            }
        }
        settle().await;
        sys.verify();
        if simcore::failed() {
            return;
        }
        env::draw(60_000);
    }
}

/// A connection that lives long.
async fn long_life(sys: &mut Sys) {
    super::conn::long_run();
    if env::maybe(250) {
        probe("huge_herd");
        return herd(sys, true).await;
    }
    sys.open_gate();
    let drops = [0, 0, 50, 300][choose(S::Gen, 4) as usize];
    let calls = range(S::Gen, 66_000, 70_000);
    let tasks = range(S::Gen, 2, 60);
    let which = choose(S::Gen, 3);
    if which != 1 {
        for _ in 0..tasks {
            let plans = (0..calls / tasks + 1)
                .map(|_| {
                    let op = if chance(S::Gen, 50) { op::YIELDS } else { op::NOW };
                    let mode = if chance(S::Gen, drops) { [Mode::DropNow, Mode::DropPolls(1)][choose(S::Gen, 2) as usize] } else { Mode::Full };
                    Plan { op, a: 1, b: 2, len: 2, mode }
                })
                .collect();
            sys.launch_plans(0, plans, false);
        }
    }
    if which != 0 {
        let plans = (0..if which == 1 { 2 } else { 1 }).map(|_| Plan { op: [op::S_NOW, op::S_YIELDS][chance(S::Gen, 200) as usize], a: calls, b: 2, len: 2, mode: Mode::Full }).collect();
        sys.launch_plans(0, plans, false);
    }
    simcore::quiesce().await;
    settle().await;
    sys.verify();
    probe("long_life");
    if simcore::failed() {
        return;
    }
    sys.launch(0, 0, 4, 4, false);
    settle().await;
    sys.verify();
}

async fn blocked(sys: &mut Sys, tasks: u32, calls: u32) {
    for _ in 0..range(S::Gen, 1, 2) {
        let i = choose(S::Gen, sys.clients.len() as u32) as usize;
        let (a, b) = (sys.clients[i].sock, sys.clients[i].ssock);
        let which = weighted(S::Gen, &[3, 3, 2]);
        simcore::fault(Fault::Custom1);
        // a stream that wants to send more than any limit lets it
        if env::maybe(600) {
            let n = 5 * sys.server_limits(i).1 as u32 + 50 + choose(S::Gen, 400);
            sys.launch_plans(i, vec![Plan { op: op::S_ENDLESS, a: n, b: choose(S::Gen, 30), len: 3, mode: if env::maybe(300) { Mode::Parked } else { Mode::Full } }], false);
            if env::maybe(500) {
                simcore::timer(1_000 * log_uniform(S::Gen, 2_000) as u64).await;
            }
        }
        if which != 1 {
            net::hold(a, true);
        }
        if which != 0 {
            net::hold(b, true);
        }
        let burst = if env::maybe(600) { 5 * sys.clients[i].q as u32 + 10 } else { tasks };
        for _ in 0..burst.min(420) {
            let p = draw_plan(1, sys.max_len.min(200));
            sys.launch_plans(i, vec![p], false);
        }
        for k in 0..sys.clients.len() {
            if k != i {
                sys.launch(k, 0, tasks, calls, false);
            }
        }
        simcore::quiesce().await;
        sys.verify_blocked(i);
        if simcore::failed() {
            return;
        }
        if env::maybe(200) {
            net::hold(a, false);
            simcore::quiesce().await;
            sys.verify_blocked(i);
            if simcore::failed() {
                return;
            }
        }
        if env::maybe(450) {
            // while it is blocked, callers lose patience
            let n = sys.clients[i].tasks.len();
            for t in sys.clients[i].tasks.iter() {
                if chance(S::App, 1000 / n.max(1) as u32 + 200) {
                    t.abort();
                }
            }
            if env::maybe(500) {
                simcore::quiesce().await;
                rpcs::mark_told();
            }
        }
        settle().await;
        sys.verify();
        sys.open_gate();
        settle().await;
        sys.verify();
        if simcore::failed() {
            return;
        }
        sys.close_gate();
        env::draw(60_000);
    }
}

/// something that ends the connection of client i
async fn end_connection(sys: &mut Sys, i: usize, how: usize) {
    sys.mark_down(i);
    let c = &sys.clients[i];
    let (a, b) = (c.sock, c.ssock);
    match how {
        0 => {
            probe("client_connection_dropped");
            simcore::fault(Fault::TaskAbort);
            c.conn.abort();
        }
        1 => {
            probe("reset");
            net::reset(if env::maybe(500) { a } else { b });
        }
        2 => {
            probe("client_crashes");
            simcore::crash_node(c.node);
            sys.clients[i].rpc = None;
        }
        3 => {
            probe("service_panics");
            let o = [op::PANIC, op::PANIC_NEW, op::S_PANIC][choose(S::Gen, 3) as usize];
            sys.launch_plans(i, vec![Plan { op: o, a: choose(S::Gen, 5), b: 3, len: 3, mode: Mode::Full }], false);
        }
        4 => {
            probe("oversized_request");
            let len = sys.clients[i].limit + 1 + log_uniform(S::Gen, 5000) as usize;
            sys.launch_plans(i, vec![Plan { op: op::NOW, a: 0, b: 3, len, mode: Mode::Full }], false);
        }
        5 => {
            probe("oversized_response");
            let b = sys.server_limits(i).0 as u32 + 1 + log_uniform(S::Gen, 5000);
            let o = [op::NOW, op::S_NOW][choose(S::Gen, 2) as usize];
            sys.launch_plans(i, vec![Plan { op: o, a: 2, b, len: 3, mode: Mode::Full }], false);
        }
        6 => {
            probe("held_then_reset");
            net::hold(a, true);
            net::hold(b, true);
            simcore::timer(1_000 * log_uniform(S::Gen, 3000) as u64).await;
            net::reset(if env::maybe(500) { a } else { b });
        }
        7 => {
            probe("client_dropped");
            // every call and every handle goes; what is left is written and the connection ends
            let c = &mut sys.clients[i];
            c.rpc = None;
            c.tasks.iter().for_each(|t| t.abort());
        }
        _ => {
            probe("both_ends_dropped");
            net::reset(a);
            c.conn.abort();
        }
    }
}

async fn loss(sys: &mut Sys, tasks: u32, calls: u32) {
    if env::maybe(300) {
        traffic(sys, 0, tasks.min(4), calls).await;
        if simcore::failed() {
            return;
        }
    }
    sys.close_gate();
    let gate_open = env::maybe(600);
    if gate_open {
        sys.open_gate();
    }
    for i in 0..sys.clients.len() {
        sys.launch(i, 2, tasks, calls, false);
        if env::maybe(200) {
            net::hold(sys.clients[i].sock, true);
        }
        if env::maybe(200) {
            net::hold(sys.clients[i].ssock, true);
        }
    }
    match weighted(S::Gen, &[1, 2, 3]) {
        0 => {}
        1 => tokio::task::yield_now().await,
        _ => simcore::timer(1_000 * log_uniform(S::Gen, 4000) as u64).await,
    }
    let server_crash = env::maybe(120);
    if server_crash {
        probe("server_crashes");
        for i in 0..sys.clients.len() {
            sys.mark_down(i);
        }
        simcore::crash_node(sys.server_node);
        if env::maybe(500) {
            simcore::timer(1_000 * log_uniform(S::Gen, 4000) as u64).await;
        }
        sys.server_node += 1;
        match start_server(sys.server_node, sys.addr, sys.limit, sys.qs).await {
            Some(s) => sys.server = s,
            None => return fail("server-dead", "the server cannot be started again"),
        }
    } else {
        let victims = if sys.clients.len() > 1 && env::maybe(600) { 1 } else { sys.clients.len() };
        for i in 0..victims {
            let how = choose(S::Gen, 9) as usize;
            end_connection(sys, i, how).await;
            if env::maybe(300) {
                env::pause().await;
            }
        }
    }
    if env::maybe(400) {
        simcore::timer(1_000 * log_uniform(S::App, 5000) as u64).await;
    }
    settle().await;
    // a caller that is not looking learns when it looks
    sys.open_gate();
    settle().await;
    sys.verify();
    if simcore::failed() {
        return;
    }
    sys.late_calls().await;
}

async fn setup_failures(sys: &mut Sys, tasks: u32, calls: u32) {
    // connections may be refused, aborted or closed during their set-up: calls on them may fail
    for i in 0..sys.clients.len() {
        sys.mark_down(i);
        sys.launch(i, 6, tasks.min(3), calls, false);
    }
    for k in 0..range(S::Gen, 1, 8) {
        let addr = sys.addr;
        match choose(S::Gen, 3) {
            0 => {
                // comes and goes
                on(60 + k, "visitor", async move {
                    let s = tokio::net::TcpStream::connect(addr).await;
                    if chance(S::App, 500) {
                        env::pause().await;
                    }
                    if let Ok(s) = &s {
                        if chance(S::App, 500) {
                            let _ = s.try_write(&[0xff; 20]);
                        }
                        if chance(S::App, 300) {
                            net::reset(s.sim_id());
                        }
                    }
                })
                .await;
            }
            _ => {
                let n = 20 + k;
                if let Some(c) = connect(n, addr, 1 << 20, 4).await {
                    sys.clients.push(c);
                    let i = sys.clients.len() - 1;
                    sys.mark_down(i);
                    sys.launch(i, 6, 2, 3, false);
                }
            }
        }
        if env::maybe(500) {
            env::pause().await;
        }
    }
    if env::maybe(300) {
        simcore::timer(1_000 * log_uniform(S::App, 2000) as u64).await;
    }
    settle().await;
    sys.open_gate();
    settle().await;
    // which ones made it
    let mut served = Vec::new();
    for (i, c) in sys.clients.iter().enumerate() {
        let known = led(|l| l.conns.iter().any(|k| k.address == Some(c.address)));
        if known && !c.conn.is_finished() {
            served.push(i);
        } else if !c.conn.is_finished() && net::accepted(c.ssock) {
            return fail("fate-open", format!("client {} is connected to nothing and is not told", c.n));
        } else if !c.conn.is_finished() {
            return fail("server-dead", format!("the connection of client {} waits to be accepted for ever", c.n));
        }
    }
    for i in served {
        let n = sys.clients[i].n;
        sys.sh.lock().unwrap().down.remove(&n);
        sys.clients[i].up = true;
        probe("served_after_failures");
    }
    sys.verify();
    if !simcore::failed() {
        sys.late_calls().await;
    }
}

/// Whatever one visitor does, it must not cost the server anything for good.
async fn visitors(sys: &mut Sys, very_many: bool) {
    probe("many_visitors");
    let mut silent = Vec::new();
    let only = if very_many {
        super::conn::long_run();
        if env::maybe(200) {
            // very many at once, who say nothing
            probe("silent_crowd");
            let addr = sys.addr;
            for k in 0..range(S::Gen, 300, 1400) {
                silent.push(simcore::spawn_on(Some(2000 + k % 40), "visitor", async move {
                    let _s = tokio::net::TcpStream::connect(addr).await;
                    std::future::pending::<()>().await;
                }));
            }
            settle().await;
            sys.verify();
            if simcore::failed() {
                return;
            }
            sys.fresh_client().await;
            if simcore::failed() {
                return;
            }
            sys.verify();
            silent.iter().for_each(|j| j.abort());
            settle().await;
            return sys.verify();
        }
        Some(choose(S::Gen, 9))
    } else if env::maybe(700) {
        Some(choose(S::Gen, 10))
    } else {
        None
    };
    // each end of a live connection holds some megabytes
    let crowd = if very_many { range(S::Gen, 1100, 4500) } else { range(S::Gen, 30, if only == Some(9) { 150 } else { 330 }) };
    let flaky = env::maybe(if very_many { 400 } else { 150 });
    let often = [300, 600, 960][choose(S::Gen, 3) as usize];
    let flaws = |on: bool| {
        simcore::with(|s| {
            s.cfg.net.accept_error = often * on as u32;
            s.cfg.net.sockopt_error = 300 * on as u32;
        })
    };
    flaws(flaky);
    // those who come first stay
    let stay = sys.clients.len();
    for i in 0..stay {
        if flaky {
            sys.mark_down(i);
        }
        sys.launch_plans(i, vec![Plan { op: op::S_HANG, a: 3, b: 3, len: 3, mode: Mode::Full }], false);
    }
    let addr = sys.addr;
    for k in 0..crowd {
        let how = only.unwrap_or_else(|| choose(S::Gen, 10));
        if how < 3 {
            // not even a client
            on(2000 + k, "visitor", async move {
                let Ok(s) = tokio::net::TcpStream::connect(addr).await else { return };
                if how > 0 {
                    let _ = s.try_write(if how == 1 { &[0xff; 20] } else { &[0x02] });
                }
                if chance(S::App, 500) {
                    env::pause().await;
                }
                if chance(S::App, 500) {
                    net::reset(s.sim_id());
                }
            })
            .await;
            continue;
        }
        let n = 2000 + k;
        let Some(c) = connect(n, addr, 1 << 20, 1 + choose(S::Gen, 4) as usize).await else {
            if flaky {
                continue;
            }
            return fail("server-dead", "a client cannot connect");
        };
        sys.clients.push(c);
        let i = sys.clients.len() - 1;
        let p = |op: u32, a: u32, mode: Mode| vec![Plan { op, a, b: 3, len: 3, mode }];
        let plans = match how {
            3 => p(op::PANIC_NEW, 0, Mode::Full),
            4 => p(op::PANIC, choose(S::Gen, 3), Mode::Full),
            5 => p(op::S_PANIC, choose(S::Gen, 3), Mode::Full),
            6 => p([op::HANG, op::S_HANG][choose(S::Gen, 2) as usize], 2, Mode::Full),
            7 => p([op::NOW, op::S_NOW][choose(S::Gen, 2) as usize], 2, Mode::DropPolls(1)),
            8 => vec![Plan { op: op::NOW, a: 0, b: 3, len: (1 << 20) + 1, mode: Mode::Full }],
            _ => p([op::NOW, op::S_NOW][choose(S::Gen, 2) as usize], 2, Mode::Full),
        };
        if how != 9 || flaky {
            sys.mark_down(i);
        }
        sys.launch_plans(i, plans, false);
        match choose(S::Gen, 3) {
            0 => {}
            1 => tokio::task::yield_now().await,
            _ => simcore::timer(1_000 * log_uniform(S::Gen, 1000) as u64).await,
        }
        if how == 9 && !flaky {
            // this one stays
            continue;
        }
        match choose(S::Gen, 4) {
            0 => net::reset(sys.clients[i].sock),
            1 => sys.clients[i].conn.abort(),
            2 => {
                simcore::crash_node(n);
                sys.clients[i].rpc = None;
            }
            _ => {
                let c = &mut sys.clients[i];
                c.rpc = None;
                c.tasks.iter().for_each(|t| t.abort());
            }
        }
    }
    flaws(false);
    settle().await;
    if flaky {
        // the first ones may have been turned away too
        for i in 0..stay {
            if !sys.clients[i].conn.is_finished() {
                let n = sys.clients[i].n;
                sys.sh.lock().unwrap().down.remove(&n);
                sys.clients[i].up = true;
            }
        }
    }
    sys.verify();
    if simcore::failed() {
        return;
    }
    sys.fresh_client().await;
    if !simcore::failed() {
        sys.verify();
    }
}

async fn finish(sys: &mut Sys) {
    if sys.server.is_finished() {
        return fail("server-ended", "the server future ended");
    }
    if env::maybe(400) {
        sys.fresh_client().await;
        if simcore::failed() {
            return;
        }
        sys.verify();
    }
    if simcore::failed() || env::maybe(400) {
        return;
    }
    // everything is given up, then the clients go away
    for c in sys.clients.iter_mut() {
        c.tasks.iter().for_each(|t| t.abort());
        c.tasks.clear();
    }
    if env::maybe(500) {
        settle().await;
        sys.verify();
        if simcore::failed() {
            return;
        }
    }
    for i in 0..sys.clients.len() {
        sys.mark_down(i);
        sys.clients[i].rpc = None;
    }
    settle().await;
    sys.verify();
}
