//! A real ProtosocketServer and clients of a real ClientRegistry.
//!
//! Profiles: 0 traffic both ways on several connections, 1 limits (blocked links, sizes),
//! 2 endings in the middle of traffic, 3 failures while connections are set up and bad visitors,
//! 4 very many visitors of one server, which go wrong in one way or in many, or stay,
//! 5 orderly closes by either side, 6 thousands of visitors that come and go, 7 messages of tens of
//! megabytes.

use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

use protosocket::{MessageReactor, ReactorStatus};
use protosocket_prost::{ClientRegistry, ProstSerializer, ProstServerConnectionBindings};
use protosocket_server::{ProtosocketServer, ServerConnector};
use simcore::choice::S;
use simcore::net::{self, SockId};
use simcore::{chance, choose, fail, log_uniform, probe, range, weighted, Fault, Join};
use tokio::sync::mpsc;

use super::conn::{self, draw_queue, fit, settle, Flow, SendPlan, Shared, Sizes};
use super::rpc::{on, Dial};
use crate::env;
use crate::msg::{self, Kind, Msg};

const SERVER: u32 = 90;
/// sending tasks per client, and slots per server connection (0 greeting, 1 replies, the rest rounds)
const SLOTS: u32 = 8;
const UP: usize = 3;
const DOWN: usize = 4;
const FIRST: u32 = 10_000;

struct SConn {
    client: Option<u32>,
    tx: Option<mpsc::Sender<Msg>>,
    /// the reactor keeps a handle of its own
    kept: bool,
    down: Shared,
    dropped: u32,
    senders: Vec<Join<()>>,
    disconnected: bool,
}
struct CSide {
    up: Shared,
    conn: Option<usize>,
    dropped: u32,
    disconnect_at: Option<u64>,
    server_disconnect_at: Option<u64>,
    panic_at: Option<u64>,
    disconnected: bool,
    got: u64,
}
#[derive(Default)]
struct Table {
    conns: Vec<SConn>,
    clients: BTreeMap<u32, CSide>,
    sizes: Option<Sizes>,
    greet: u32,
    keep: u32,
    reply: u32,
}
type T = Arc<Mutex<Table>>;

fn flow(name: &'static str, base: u32, n: usize) -> Shared {
    let f = conn::new_flow(name, n);
    f.lock().unwrap().base = base;
    f
}

struct Connector(T);
impl ServerConnector for Connector {
    type Bindings = ProstServerConnectionBindings<Msg, Msg, SRx>;
    fn serializer(&self) -> ProstSerializer<Msg, Msg> {
        ProstSerializer::default()
    }
    fn deserializer(&self) -> ProstSerializer<Msg, Msg> {
        ProstSerializer::default()
    }
    fn new_reactor(&self, tx: mpsc::Sender<Msg>) -> SRx {
        simcore::point(simcore::P_APP);
        let (idx, greet, kept, sizes, down) = {
            let mut t = self.0.lock().unwrap();
            let idx = t.conns.len();
            let down = flow("server->client", FIRST + idx as u32 * SLOTS, DOWN);
            let greet = if chance(S::App, t.greet) { 1 + choose(S::App, 6) as u64 } else { 0 };
            let kept = chance(S::App, t.keep);
            t.conns.push(SConn { client: None, tx: Some(tx.clone()), kept, down: down.clone(), dropped: 0, senders: Vec::new(), disconnected: false });
            (idx, greet, kept, t.sizes.unwrap(), down)
        };
        if greet > 0 {
            let plan = SendPlan { sender: FIRST + idx as u32 * SLOTS, count: greet, kind: Kind::Prost, sizes, noise: false, eager: false };
            let j = simcore::spawn_on(None, "greeting", conn::sender(tx.clone(), down.clone(), plan));
            self.0.lock().unwrap().conns[idx].senders.push(j);
        }
        SRx { t: self.0.clone(), idx, down, tx: if kept { Some(tx) } else { None } }
    }
}

struct SRx {
    t: T,
    idx: usize,
    down: Shared,
    tx: Option<mpsc::Sender<Msg>>,
}
impl Drop for SRx {
    fn drop(&mut self) {
        self.t.lock().unwrap().conns[self.idx].dropped += 1;
    }
}
impl MessageReactor for SRx {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        simcore::point(simcore::P_APP);
        let mut reply = 0;
        let mut boom = false;
        let mut status = ReactorStatus::Continue;
        {
            let mut t = self.t.lock().unwrap();
            if t.conns[self.idx].disconnected {
                fail("fate-late-delivery", "message delivered after the reactor asked to disconnect");
            }
            let rate = t.reply;
            for m in messages {
                if m.sender == msg::OVERSIZE {
                    fail("hostile-delivered", "server: a message over the limit is delivered");
                    continue;
                }
                let n = m.sender / SLOTS;
                match t.conns[self.idx].client {
                    None => {
                        if t.conns.iter().enumerate().any(|(i, c)| i != self.idx && c.client == Some(n)) {
                            fail("cross-connection", format!("client {n} is heard on two connections"));
                        }
                        if t.clients.get(&n).and_then(|c| c.conn).is_some_and(|i| i != self.idx) {
                            fail("cross-connection", format!("client {n} hears connection {:?} and is heard on {}", t.clients[&n].conn, self.idx));
                        }
                        t.conns[self.idx].client = Some(n);
                    }
                    Some(k) if k != n => {
                        fail("cross-connection", format!("a message of client {n} arrives on the connection of client {k}"));
                        continue;
                    }
                    _ => {}
                }
                let Some(c) = t.clients.get_mut(&n) else {
                    fail("delivery-altered", format!("a message of no client ({n})"));
                    continue;
                };
                let mut f = c.up.lock().unwrap();
                conn::receive(&mut f, &m);
                let total = f.total_delivered();
                drop(f);
                if c.server_disconnect_at.is_some_and(|k| total >= k) {
                    status = ReactorStatus::Disconnect;
                }
                boom |= c.panic_at.is_some_and(|k| total >= k);
                if self.tx.is_some() && chance(S::App, rate) {
                    reply += 1;
                }
            }
            if let ReactorStatus::Disconnect = status {
                t.conns[self.idx].disconnected = true;
            }
        }
        if boom {
            simcore::fault(Fault::ServicePanic);
            panic!("sim-injected panic in a reactor");
        }
        for _ in 0..reply {
            let sender = FIRST + self.idx as u32 * SLOTS + 1;
            let (seq, len) = {
                let mut f = self.down.lock().unwrap();
                let seq = f.accepted[1];
                let len = choose(S::App, 24) as usize;
                f.lens[1].truncate(seq as usize);
                f.lens[1].push(fit(Kind::Prost, sender, seq, len));
                (seq, f.lens[1][seq as usize])
            };
            if self.tx.as_ref().unwrap().try_send(msg::msg(sender, seq, len)).is_ok() {
                self.down.lock().unwrap().accepted[1] += 1;
                probe("replies_from_reactor");
            }
        }
        status
    }
}

struct CRx {
    t: T,
    n: u32,
}
impl Drop for CRx {
    fn drop(&mut self) {
        self.t.lock().unwrap().clients.get_mut(&self.n).unwrap().dropped += 1;
    }
}
impl MessageReactor for CRx {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        simcore::point(simcore::P_APP);
        let mut t = self.t.lock().unwrap();
        let t = &mut *t;
        let me = t.clients.get_mut(&self.n).unwrap();
        if me.disconnected {
            fail("fate-late-delivery", "message delivered after the reactor asked to disconnect");
        }
        for m in messages {
            if m.sender == msg::OVERSIZE {
                fail("hostile-delivered", "client: a message over the limit is delivered");
                continue;
            }
            let idx = (m.sender.wrapping_sub(FIRST) / SLOTS) as usize;
            if idx >= t.conns.len() {
                fail("delivery-altered", format!("client {} gets a message from no connection", self.n));
                continue;
            }
            if me.conn.is_some_and(|i| i != idx) || t.conns[idx].client.is_some_and(|c| c != self.n) {
                fail(
                    "cross-connection",
                    format!("client {} on connection {:?} gets a message sent on connection {idx} of client {:?}", self.n, me.conn, t.conns[idx].client),
                );
                continue;
            }
            me.conn = Some(idx);
            me.got += 1;
            conn::receive(&mut t.conns[idx].down.lock().unwrap(), &m);
        }
        if me.disconnect_at.is_some_and(|k| me.got >= k) {
            me.disconnected = true;
            return ReactorStatus::Disconnect;
        }
        ReactorStatus::Continue
    }
}

struct Client {
    n: u32,
    node: u32,
    tx: Option<mpsc::Sender<Msg>>,
    sock: SockId,
    ssock: SockId,
    up: Shared,
    limit: usize,
    q: usize,
    /// the limits of the server's side of it, where they are not those of the server now
    server_limits: Option<(usize, usize)>,
    senders: Vec<Join<()>>,
    /// its connection has been given a reason to end
    down: bool,
    /// so had it been before it was ever served
    refused: bool,
}
struct Sys {
    t: T,
    addr: SocketAddr,
    server: Join<()>,
    clients: Vec<Client>,
    registries: BTreeMap<u32, ClientRegistry>,
    qs: usize,
    limit: usize,
    sizes: Sizes,
}

impl Sys {
    /// the limits of the server's side of client i
    fn server_limits(&self, i: usize) -> (usize, usize) {
        self.clients[i].server_limits.unwrap_or((self.limit, self.qs))
    }
    async fn connect(&mut self, node: u32, limit: usize, q: usize) -> bool {
        let n = 1 + self.t.lock().unwrap().clients.len() as u32;
        let up = flow("client->server", n * SLOTS, UP);
        self.t.lock().unwrap().clients.insert(
            n,
            CSide { up: up.clone(), conn: None, dropped: 0, disconnect_at: None, server_disconnect_at: None, panic_at: None, disconnected: false, got: 0 },
        );
        let before = net::opened().len();
        let old = self.registries.remove(&node);
        let (t, addr) = (self.t.clone(), self.addr);
        let r = on(node, "register", async move {
            let mut reg = old.unwrap_or_else(|| ClientRegistry::new(tokio::runtime::Handle::current()));
            reg.set_max_read_buffer_length(limit);
            reg.set_max_queued_outbound_messages(q);
            let tx = reg.register_client::<Msg, Msg, CRx>(addr.to_string(), CRx { t, n }).await;
            (reg, tx)
        })
        .await;
        let Some((reg, tx)) = r else { return false };
        self.registries.insert(node, reg);
        let Ok(tx) = tx else { return false };
        // visitors connect meanwhile, from nodes of their own
        let here = std::net::IpAddr::from([10, 0, 0, node as u8]);
        let mine = |s: SockId| net::local_addr(s).is_ok_and(|a| a.ip() == here);
        let Some((sock, ssock)) = net::opened()[before..].iter().copied().find(|p| mine(p.0)) else { return false };
        self.clients.push(Client { n, node, tx: Some(tx), sock, ssock, up, limit, q, server_limits: None, senders: Vec::new(), down: false, refused: false });
        true
    }
    fn idx(&self, n: u32) -> Option<usize> {
        let t = self.t.lock().unwrap();
        t.conns.iter().position(|c| c.client == Some(n)).or(t.clients[&n].conn)
    }
    fn launch(&mut self, i: usize, up: u64, down: u64, eager: bool) {
        // what either side accepts
        let ls = self.server_limits(i).0;
        let c = &mut self.clients[i];
        let sizes = Sizes { limit: c.limit.min(ls), ..self.sizes };
        if let Some(tx) = c.tx.clone().filter(|_| up > 0) {
            for s in 0..range(S::Gen, 1, UP as u32) {
                let plan = SendPlan { sender: c.n * SLOTS + s, count: range(S::Gen, 1, up as u32) as u64, kind: Kind::Prost, sizes, noise: false, eager };
                c.senders.push(simcore::spawn_on(Some(c.node), "sender", conn::sender(tx.clone(), c.up.clone(), plan)));
            }
        }
        let n = c.n;
        let Some(idx) = self.idx(n).filter(|_| down > 0) else { return };
        let mut t = self.t.lock().unwrap();
        let sc = &mut t.conns[idx];
        if let Some(tx) = sc.tx.clone() {
            for s in 2..range(S::Gen, 3, DOWN as u32) {
                let plan =
                    SendPlan { sender: FIRST + idx as u32 * SLOTS + s, count: range(S::Gen, 1, down as u32) as u64, kind: Kind::Prost, sizes, noise: false, eager };
                sc.senders.push(simcore::spawn_on(Some(SERVER), "sender", conn::sender(tx.clone(), sc.down.clone(), plan)));
            }
        }
    }
    fn taken(&self, sock: SockId, f: &Shared) -> u64 {
        match conn::parse_tap(sock, f, Kind::Prost, usize::MAX) {
            Ok(v) => v.iter().sum(),
            Err(e) => {
                fail("wire-bytes", e);
                0
            }
        }
    }
    fn verify(&mut self) {
        if self.server.is_finished() {
            return fail("server-ended", "the server future ended");
        }
        for i in 0..self.clients.len() {
            let idx = self.idx(self.clients[i].n);
            let c = &self.clients[i];
            if c.down {
                self.verify_gone(c, idx);
            } else {
                self.verify_up(c, idx);
            }
            if simcore::failed() {
                return;
            }
        }
        for c in &mut self.clients {
            c.senders.retain(|s| !s.is_finished());
        }
        let mut t = self.t.lock().unwrap();
        for c in &mut t.conns {
            c.senders.retain(|s| !s.is_finished());
        }
    }
    fn verify_up(&self, c: &Client, idx: Option<usize>) {
        let t = self.t.lock().unwrap();
        let n = c.n;
        if net::is_closed(c.sock) || net::is_closed(c.ssock) || c.tx.as_ref().is_some_and(|t| t.is_closed()) {
            return fail("unexpected-end", format!("the connection of client {n} ended although nothing ended it"));
        }
        if t.clients[&n].dropped != 0 {
            return fail("fate-reactor", format!("the reactor of client {n} is dropped while the connection is up"));
        }
        let whole = |f: &Flow, who: String| {
            if f.total_accepted() != f.total_delivered() {
                fail("stall", format!("{who}: {} messages accepted, {} delivered, nothing left to happen", f.total_accepted(), f.total_delivered()));
            }
        };
        whole(&c.up.lock().unwrap(), format!("client {n}->server"));
        if c.senders.iter().any(|s| !s.is_finished()) {
            fail("sender-stuck", format!("a sending task of client {n} waits for ever"));
        }
        self.taken(c.sock, &c.up);
        if let Some(k) = idx.map(|i| &t.conns[i]) {
            if k.dropped != 0 || k.tx.as_ref().is_some_and(|t| t.is_closed()) {
                return fail("fate-reactor", format!("server: the reactor for client {n} is dropped or its handle closed while the connection is up"));
            }
            whole(&k.down.lock().unwrap(), format!("server->client {n}"));
            if k.senders.iter().any(|s| !s.is_finished()) {
                fail("sender-stuck", format!("server: a sending task for client {n} waits for ever"));
            }
            self.taken(c.ssock, &k.down);
            simcore::note_state(7 << 40 | (c.up.lock().unwrap().batches.min(40) << 12) | k.down.lock().unwrap().total_delivered().min(200));
        }
    }
    fn verify_gone(&self, c: &Client, idx: Option<usize>) {
        let t = self.t.lock().unwrap();
        let n = c.n;
        let crashed = c.tx.is_none() && t.clients[&n].dropped == 0 && net::is_closed(c.sock);
        if !net::is_closed(c.sock) {
            return fail("fate-open", format!("client {n}: the connection should have ended and its socket is open"));
        }
        if !net::is_closed(c.ssock) {
            return fail("fate-open", format!("server: the connection of client {n} should have ended and its socket is open"));
        }
        if c.tx.as_ref().is_some_and(|t| !t.is_closed()) {
            fail("fate-handle", format!("client {n}: the outbound handle does not report closed"));
        }
        let d = t.clients[&n].dropped;
        if d != 1 && !crashed {
            fail("fate-reactor", format!("client {n}: reactor dropped {d} times"));
        }
        if c.senders.iter().any(|s| !s.is_finished()) {
            fail("fate-sender", format!("a sending task of client {n} waits on a dead connection"));
        }
        if let Some(k) = idx.map(|i| &t.conns[i]) {
            if k.dropped != 1 {
                fail("fate-reactor", format!("server: the reactor for client {n} is dropped {} times", k.dropped));
            }
            if k.tx.as_ref().is_some_and(|t| !t.is_closed()) {
                fail("fate-handle", format!("server: the outbound handle for client {n} does not report closed"));
            }
            if k.senders.iter().any(|s| !s.is_finished()) {
                fail("fate-sender", format!("server: a sending task for client {n} waits on a dead connection"));
            }
        }
    }
    /// every reactor the server made belongs to a connection that is still up, or is dropped
    fn verify_reactors(&self, visitors_up: usize) {
        let t = self.t.lock().unwrap();
        let live = t.conns.iter().filter(|c| c.dropped == 0).count();
        let up = self.clients.iter().filter(|c| !c.down).count();
        if live > up + visitors_up {
            fail("fate-reactor", format!("server: {live} reactors live, {up} connections of clients up and {visitors_up} of visitors"));
        }
        if let Some(c) = t.conns.iter().find(|c| c.dropped > 0 && c.tx.as_ref().is_some_and(|t| !t.is_closed())) {
            fail("fate-handle", format!("server: handle open after its reactor (client {:?}) is dropped", c.client));
        }
    }
    async fn fresh(&mut self) {
        if !self.connect(9, self.limit, 8).await {
            return fail("server-dead", "a new client cannot connect");
        }
        let i = self.clients.len() - 1;
        self.launch(i, 5, 0, false);
        settle().await;
        self.launch(i, 5, 5, false);
        settle().await;
        if self.idx(self.clients[i].n).is_none() {
            fail("server-dead", "a new client is not heard");
        }
    }
}

async fn chaos(pairs: Vec<(SockId, SockId, u32)>, events: u32) {
    for _ in 0..events {
        simcore::timer(1_000 * (1 + log_uniform(S::Fault, 3000) as u64)).await;
        let (a, b, n) = pairs[choose(S::Fault, pairs.len() as u32) as usize];
        match weighted(S::Fault, &[1, 2, 2, 2, 2, 1, 1]) {
            0 => {}
            1 => net::hold(a, true),
            2 => net::hold(a, false),
            3 => net::hold(b, true),
            4 => net::hold(b, false),
            5 => simcore::stall_node(n, 1_000 * log_uniform(S::Fault, 5000) as u64),
            _ => simcore::stall_node(SERVER, 1_000 * log_uniform(S::Fault, 5000) as u64),
        }
    }
}

/// Queue limits to be reached: mostly small, so that it does not take long.
fn some_queue() -> usize {
    match weighted(S::Gen, &[60, 2, 1]) {
        0 => range(S::Gen, 1, 12) as usize,
        1 => range(S::Gen, 13, 300) as usize,
        _ => range(S::Gen, 300, 1500) as usize,
    }
}

pub async fn world(profile: u32) {
    let limit = conn::draw_limit(if profile == 1 { 4 } else { 0 }).min(if matches!(profile, 4 | 6) { 1 << 20 } else { usize::MAX });
    let cap = if matches!(profile, 4 | 6) { 400 } else { [400, 4096, 30_000][weighted(S::Gen, &[5, 3, 1])] };
    let mode = weighted(S::Gen, &[3, 2, 1, 1, 3]);
    let (limit, cap, mode) = if profile == 7 {
        let limit = range(S::Gen, 8_300_000, 20_000_000) as usize;
        (limit, limit, 3)
    } else {
        (limit, cap, mode)
    };
    let sizes = Sizes { mode, limit, cap };
    let qs = if profile == 1 { some_queue() } else { draw_queue() };
    let nclients = if profile == 7 { 1 } else { range(S::Gen, 1, 4) };
    let count = if matches!(profile, 4 | 6) { 6 } else { [6u64, 30, 120][weighted(S::Gen, &[4, 3, 1])] }.min(1_000_000 / (3 * cap.min(limit) as u64) + 2);
    env::draw(count as usize * 3 * cap.min(limit));
    net::tap_all();
    let t: T = Default::default();
    {
        let mut k = t.lock().unwrap();
        k.sizes = Some(Sizes { mode: 0, limit: 24, cap: 24 });
        k.greet = [0, 300, 1000][choose(S::Gen, 3) as usize];
        k.keep = [0, 500, 1000][choose(S::Gen, 3) as usize];
        k.reply = [0, 200, 1000][choose(S::Gen, 3) as usize];
    }
    if profile == 3 {
        let on = [env::maybe(500), env::maybe(500), env::maybe(500)];
        simcore::with(|s| {
            s.cfg.net.accept_error = 300 * on[0] as u32;
            s.cfg.net.sockopt_error = 300 * on[1] as u32;
            s.cfg.net.connect_refused = 200 * on[2] as u32;
        });
    }
    let addr: SocketAddr = "10.0.0.9:900".parse().unwrap();
    let tt = t.clone();
    // the limits may be turned after some have connected
    let range_of = |p: u32| if p == 1 { some_queue() } else { draw_queue() };
    let earlier = if matches!(profile, 0..=2) && env::maybe(300) { Some((conn::draw_limit(if profile == 1 { 4 } else { 0 }), range_of(profile))) } else { None };
    let turn_after = choose(S::Gen, nclients + 1);
    let (l0, q0) = earlier.unwrap_or((limit, qs));
    let s = on(SERVER, "start server", async move {
        match ProtosocketServer::new(addr, tokio::runtime::Handle::current(), Connector(tt)).await {
            Ok(mut s) => {
                s.set_max_buffer_length(l0);
                s.set_max_queued_outbound_messages(q0);
                Some(s)
            }
            Err(_) => None,
        }
    })
    .await
    .flatten();
    let Some(s) = s else { return fail("server-dead", "the server cannot be started") };
    let dial = Dial::default();
    let server = simcore::spawn_on(
        Some(SERVER),
        "server",
        dial.clone().drive(s, |s, limit, q| {
            s.set_max_buffer_length(limit);
            s.set_max_queued_outbound_messages(q);
        }),
    );
    let mut sys = Sys { t, addr, server, clients: Vec::new(), registries: BTreeMap::new(), qs, limit, sizes };
    simcore::trace(|| format!("profile {profile} limit {limit} server queue {qs} clients {nclients} count {count} {sizes:?}"));
    for k in 0..nclients {
        if earlier.is_some() && k == turn_after {
            dial.turn(limit, qs).await;
        }
        let node = 1 + choose(S::Gen, 2);
        let cl = if profile == 7 { limit } else if env::maybe(500) { limit } else { conn::draw_limit(if profile == 1 { 4 } else { 0 }) };
        let q = if profile == 1 { some_queue() } else { draw_queue() };
        if !sys.connect(node, cl, q).await && profile != 3 {
            return fail("server-dead", "a client cannot connect");
        }
        if let (Some(e), true) = (earlier, k < turn_after) {
            sys.clients.last_mut().unwrap().server_limits = Some(e);
        }
    }
    if earlier.is_some() && turn_after == nclients {
        dial.turn(limit, qs).await;
    }
    if profile == 3 {
        visitors(&mut sys).await;
        if simcore::failed() {
            return;
        }
    }
    if matches!(profile, 4 | 6) {
        crowd(&mut sys, profile == 6).await;
        if simcore::failed() {
            return;
        }
    }
    if sys.clients.is_empty() {
        sys.fresh().await;
    }
    if simcore::failed() {
        return;
    }
    for round in 0..if profile == 7 { 2 } else { range(S::Gen, 1, 3) } {
        for i in 0..sys.clients.len() {
            // heard first, so that it is known which connection is whose
            let first = sys.idx(sys.clients[i].n).is_none();
            if profile == 7 {
                sys.launch(i, 1 - round as u64, round as u64, true);
                simcore::quiesce().await;
                continue;
            }
            sys.launch(i, if first { count.min(3) } else { count }, count, env::maybe(300));
        }
        if profile == 1 {
            simcore::quiesce().await;
            sys.verify();
            if simcore::failed() {
                return;
            }
            blocked(&mut sys, count).await;
            if simcore::failed() {
                return;
            }
        }
        let pairs = sys.clients.iter().map(|c| (c.sock, c.ssock, c.node)).collect();
        let events = if env::maybe(500) { range(S::Gen, 1, 8) } else { 0 };
        let ch = simcore::spawn_on(Some(0), "chaos", chaos(pairs, events));
        if env::maybe(300) {
            simcore::timer(1_000 * log_uniform(S::App, 20_000) as u64).await;
        } else {
            simcore::quiesce().await;
        }
        ch.abort();
        settle().await;
        sys.verify();
        if simcore::failed() {
            return;
        }
        probe("rounds_settled");
        env::draw(count as usize * 3 * cap.min(limit));
    }
    match profile {
        1 if env::maybe(600) => oversize(&mut sys).await,
        2 => endings(&mut sys, count).await,
        5 => orderly(&mut sys, count).await,
        _ => {}
    }
    if simcore::failed() {
        return;
    }
    sys.verify();
    sys.verify_reactors(if profile == 3 { usize::MAX / 2 } else { 0 });
    if simcore::failed() || env::maybe(500) {
        return;
    }
    sys.fresh().await;
    if simcore::failed() {
        return;
    }
    sys.verify();
    if simcore::failed() || env::maybe(300) {
        return;
    }
    for c in &mut sys.clients {
        c.tx = None;
        c.down = true;
    }
    settle().await;
    sys.verify();
    sys.verify_reactors(if profile == 3 { usize::MAX / 2 } else { 0 });
}

/// One or more links take nothing: both ends wait at the limits that were set.
async fn blocked(sys: &mut Sys, count: u64) {
    let i = choose(S::Gen, sys.clients.len() as u32) as usize;
    let c = &sys.clients[i];
    let (a, b, n, q) = (c.sock, c.ssock, c.n, c.q);
    let which = weighted(S::Gen, &[2, 2, 3]);
    simcore::fault(Fault::Custom1);
    if which != 1 {
        net::hold(a, true);
    }
    if which != 0 {
        net::hold(b, true);
    }
    let up0 = sys.clients[i].up.lock().unwrap().total_accepted();
    let idx = sys.idx(n);
    let down0 = idx.map(|x| sys.t.lock().unwrap().conns[x].down.lock().unwrap().total_accepted());
    let up = 5 * q as u64 + 10;
    let (ls, qs) = sys.server_limits(i);
    let down = 5 * qs as u64 + 10;
    // as many as asked for, whatever launch draws
    for _ in 0..1 {
        let sizes = Sizes { limit: sys.clients[i].limit.min(ls), cap: sys.sizes.cap.min(400), ..sys.sizes };
        let c = &mut sys.clients[i];
        let tx = c.tx.clone().unwrap();
        let plan = SendPlan { sender: c.n * SLOTS, count: up, kind: Kind::Prost, sizes, noise: false, eager: true };
        c.senders.push(simcore::spawn_on(Some(c.node), "sender", conn::sender(tx, c.up.clone(), plan)));
        if let Some(x) = idx {
            let mut t = sys.t.lock().unwrap();
            let sc = &mut t.conns[x];
            let tx = sc.tx.clone().unwrap();
            let plan = SendPlan { sender: FIRST + x as u32 * SLOTS + 2, count: down, kind: Kind::Prost, sizes, noise: false, eager: true };
            sc.senders.push(simcore::spawn_on(Some(SERVER), "sender", conn::sender(tx, sc.down.clone(), plan)));
        }
    }
    for k in 0..sys.clients.len() {
        if k != i {
            sys.launch(k, count, count, false);
        }
    }
    simcore::quiesce().await;
    let c = &sys.clients[i];
    let judge = |who: &str, f: &Shared, sock: SockId, limit: usize, from: u64, want: u64| {
        let taken = sys.taken(sock, f);
        let accepted = f.lock().unwrap().total_accepted();
        let held = accepted.saturating_sub(taken);
        let q = limit as u64;
        simcore::note_state(8 << 40 | held.min(100) << 8 | q.min(255));
        if held > 4 * q + 4 {
            fail("buffering-unbounded", format!("{who}: {accepted} messages accepted, {taken} taken by the network, limit {q}"));
        }
        if accepted - from < q.min(want) {
            fail("limit-ignored", format!("{who}: only {} messages accepted, limit {q}", accepted - from));
        }
    };
    judge("client", &c.up, a, q, up0, up);
    if let Some(x) = idx {
        let d = sys.t.lock().unwrap().conns[x].down.clone();
        judge("server", &d, b, qs, down0.unwrap(), down);
    }
    if simcore::failed() {
        return;
    }
    // everyone else is served meanwhile
    for (k, o) in sys.clients.iter().enumerate() {
        if k != i {
            let f = o.up.lock().unwrap();
            if f.total_accepted() != f.total_delivered() || o.senders.iter().any(|s| !s.is_finished()) {
                fail("server-dead", format!("client {} is not served while client {n} does not read", o.n));
            }
        }
    }
    if env::maybe(500) {
        net::hold(if env::maybe(500) { a } else { b }, false);
    }
}

/// A message over a limit ends its connection; one within the limits does not.
async fn oversize(sys: &mut Sys) {
    let i = choose(S::Gen, sys.clients.len() as u32) as usize;
    let Some(idx) = sys.idx(sys.clients[i].n) else { return };
    let lc = sys.clients[i].limit;
    let ls = sys.server_limits(i).0;
    let from_client = env::maybe(500);
    let (sends, accepts) = if from_client { (lc, ls) } else { (ls, lc) };
    let over_sender = sends <= accepts || env::maybe(400);
    let body = if over_sender { sends } else { accepts } + 1 + log_uniform(S::Gen, 300) as usize;
    if body > 2_000_000 {
        return;
    }
    let m = Msg { sender: msg::OVERSIZE, seq: 1, body: msg::body(7, body) };
    probe(if over_sender { "over_the_senders_limit" } else { "over_the_receivers_limit" });
    simcore::fault(Fault::HostileBytes);
    let tx = if from_client { sys.clients[i].tx.clone() } else { sys.t.lock().unwrap().conns[idx].tx.clone() };
    let Some(tx) = tx else { return };
    let node = if from_client { sys.clients[i].node } else { SERVER };
    on(node, "oversize", async move {
        let _ = tx.send(m).await;
    })
    .await;
    sys.clients[i].down = true;
    settle().await;
    if !net::is_closed(sys.clients[i].sock) {
        return fail("oversize-open", format!("a message of {body} bytes passes; the limits are {lc} at client {} and {ls} at the server", sys.clients[i].n));
    }
    let wrote = net::tapped(if from_client { sys.clients[i].sock } else { sys.clients[i].ssock });
    if over_sender {
        let f = if from_client { sys.clients[i].up.clone() } else { sys.t.lock().unwrap().conns[idx].down.clone() };
        let f = f.lock().unwrap();
        // not one byte of it: the wire ends where the accepted messages end
        let mut at = 0;
        while let msg::Next::Message(n, m) = msg::reference::<Msg>(Kind::Prost, &wrote[at..], usize::MAX) {
            if m.sender == msg::OVERSIZE {
                return fail("oversize-sent", format!("{}: a message over the limit is on the wire", f.name));
            }
            at += n;
        }
        if at != wrote.len() {
            fail("oversize-sent", format!("{}: {} bytes of a message over the limit are on the wire", f.name, wrote.len() - at));
        }
    }
}

async fn endings(sys: &mut Sys, count: u64) {
    let victims = if sys.clients.len() > 1 && env::maybe(700) { 1 } else { sys.clients.len() };
    for i in 0..sys.clients.len() {
        sys.launch(i, count, count, env::maybe(500));
        if env::maybe(200) {
            net::hold(sys.clients[i].sock, true);
        }
        if env::maybe(200) {
            net::hold(sys.clients[i].ssock, true);
        }
    }
    match weighted(S::Gen, &[1, 2, 3]) {
        0 => {}
        1 => tokio::task::yield_now().await,
        _ => simcore::timer(1_000 * log_uniform(S::Gen, 4000) as u64).await,
    }
    let mut late = Vec::new();
    for i in 0..victims {
        let n = sys.clients[i].n;
        let idx = sys.idx(n);
        sys.clients[i].down = true;
        match choose(S::Gen, 7) {
            0 => {
                probe("client_drops_handle");
                sys.clients[i].tx = None;
            }
            1 => {
                probe("reset");
                net::reset(if env::maybe(500) { sys.clients[i].sock } else { sys.clients[i].ssock });
            }
            2 => {
                probe("client_node_crashes");
                let node = sys.clients[i].node;
                simcore::crash_node(node);
                sys.registries.remove(&node);
                for c in sys.clients.iter_mut().filter(|c| c.node == node) {
                    c.tx = None;
                    c.down = true;
                }
            }
            3 => {
                probe("client_reactor_disconnects");
                let mut t = sys.t.lock().unwrap();
                let k = t.clients.get_mut(&n).unwrap();
                k.disconnect_at = Some(k.got + choose(S::Gen, 6) as u64);
                late.push(i);
            }
            4 => {
                probe("server_reactor_disconnects");
                let mut t = sys.t.lock().unwrap();
                let k = t.clients.get_mut(&n).unwrap();
                let at = k.up.lock().unwrap().total_delivered() + choose(S::Gen, 6) as u64;
                k.server_disconnect_at = Some(at);
                late.push(i);
            }
            5 => {
                probe("server_reactor_panics");
                let mut t = sys.t.lock().unwrap();
                let k = t.clients.get_mut(&n).unwrap();
                let at = k.up.lock().unwrap().total_delivered() + choose(S::Gen, 6) as u64;
                k.panic_at = Some(at);
                late.push(i);
            }
            _ => {
                let mut t = sys.t.lock().unwrap();
                match idx {
                    Some(x) if !t.conns[x].kept => {
                        probe("server_drops_handle");
                        t.conns[x].tx = None;
                    }
                    _ => {
                        drop(t);
                        net::reset(sys.clients[i].sock);
                    }
                }
            }
        }
        if env::maybe(300) {
            env::pause().await;
        }
    }
    if env::maybe(400) {
        simcore::timer(1_000 * log_uniform(S::App, 5000) as u64).await;
    }
    settle().await;
    // those whose end waits for a message get some
    for i in late {
        if sys.clients[i].tx.as_ref().is_some_and(|t| !t.is_closed()) && !net::is_closed(sys.clients[i].sock) {
            sys.clients[i].senders.retain(|s| !s.is_finished());
            sys.launch(i, 0, 1, true);
            for _ in 0..4 {
                let c = &sys.clients[i];
                let (tx, up, n) = (c.tx.clone().unwrap(), c.up.clone(), c.n);
                let sizes = Sizes { mode: 0, limit: 24, cap: 24 };
                let plan = SendPlan { sender: n * SLOTS, count: 3, kind: Kind::Prost, sizes, noise: false, eager: true };
                on(c.node, "sender", conn::sender(tx, up, plan)).await;
                settle().await;
                let Some(x) = sys.idx(n) else { continue };
                let (tx, down) = {
                    let t = sys.t.lock().unwrap();
                    (t.conns[x].tx.clone(), t.conns[x].down.clone())
                };
                if let Some(tx) = tx {
                    let plan = SendPlan { sender: FIRST + x as u32 * SLOTS + 3, count: 3, kind: Kind::Prost, sizes, noise: false, eager: true };
                    on(SERVER, "sender", conn::sender(tx, down, plan)).await;
                    settle().await;
                }
            }
        }
    }
    settle().await;
}

/// The last handle of one side goes away with messages accepted, and the other side is quiet.
async fn orderly(sys: &mut Sys, count: u64) {
    sys.t.lock().unwrap().reply = 0;
    let mut closing = Vec::new();
    for i in 0..sys.clients.len() {
        let Some(x) = sys.idx(sys.clients[i].n) else { continue };
        let by_server = !sys.t.lock().unwrap().conns[x].kept && env::maybe(500);
        if i > 0 && env::maybe(300) {
            // this one stays
            sys.launch(i, count, count, env::maybe(500));
            continue;
        }
        let (a, b) = (sys.clients[i].sock, sys.clients[i].ssock);
        if env::maybe(300) {
            net::hold(if by_server { b } else { a }, true);
        }
        if env::maybe(100) {
            net::hold(if by_server { a } else { b }, true);
        }
        let n = choose(S::Gen, count as u32 + 1) as u64;
        sys.launch(i, if by_server { 0 } else { n }, if by_server { n } else { 0 }, env::maybe(700));
        match weighted(S::Gen, &[2, 2, 3]) {
            0 => {}
            1 => tokio::task::yield_now().await,
            _ => simcore::timer(1_000 * log_uniform(S::Gen, 3000) as u64).await,
        }
        sys.clients[i].down = true;
        if by_server {
            probe("server_closes_orderly");
            let tx = sys.t.lock().unwrap().conns[x].tx.take();
            drop(tx);
        } else {
            probe("client_closes_orderly");
            sys.clients[i].tx = None;
        }
        closing.push((i, x, by_server));
    }
    if env::maybe(400) {
        simcore::timer(1_000 * log_uniform(S::App, 5000) as u64).await;
    }
    settle().await;
    for (i, x, by_server) in closing {
        let f = if by_server { sys.t.lock().unwrap().conns[x].down.clone() } else { sys.clients[i].up.clone() };
        let f = f.lock().unwrap();
        if f.accepted != f.delivered {
            return fail("close-lost-outbound", format!("{}: accepted {:?} before the last handle was dropped, delivered {:?}", f.name, f.accepted, f.delivered));
        }
    }
}

/// Whatever one visitor does, it must not cost the server anything for good.
async fn crowd(sys: &mut Sys, very_many: bool) {
    probe("many_visitors");
    let only = if very_many {
        Some(choose(S::Gen, 7))
    } else if env::maybe(700) {
        Some(choose(S::Gen, 8))
    } else {
        None
    };
    let flaky = env::maybe(if very_many { 400 } else { 150 });
    let often = [300, 600, 960][choose(S::Gen, 3) as usize];
    let flaws = |on: bool| {
        simcore::with(|s| {
            s.cfg.net.accept_error = often * on as u32;
            s.cfg.net.sockopt_error = 300 * on as u32;
        })
    };
    for i in 0..sys.clients.len() {
        sys.launch(i, 3, 0, false);
    }
    settle().await;
    if very_many {
        conn::long_run();
    } else {
        env::draw(60_000);
    }
    flaws(flaky);
    // each end of a live connection holds some megabytes
    if very_many && env::maybe(200) {
        // very many at once, who say nothing
        probe("silent_crowd");
        let addr = sys.addr;
        let silent: Vec<Join<()>> = (0..range(S::Gen, 300, 1400))
            .map(|k| {
                simcore::spawn_on(Some(60 + k % 20), "visitor", async move {
                    let _s = tokio::net::TcpStream::connect(addr).await;
                    std::future::pending::<()>().await;
                })
            })
            .collect();
        settle().await;
        flaws(false);
        sys.verify();
        if simcore::failed() {
            return;
        }
        sys.fresh().await;
        if !simcore::failed() {
            sys.verify();
        }
        silent.iter().for_each(|j| j.abort());
        return settle().await;
    }
    let crowd = if very_many { range(S::Gen, 1100, 4500) } else { range(S::Gen, 30, if only == Some(7) { 100 } else { 300 }) };
    for k in 0..crowd {
        let how = only.unwrap_or_else(|| choose(S::Gen, 8));
        let addr = sys.addr;
        if how < 3 || flaky {
            on(60 + k % 20, "visitor", async move {
                let Ok(s) = tokio::net::TcpStream::connect(addr).await else { return };
                if how > 0 {
                    let _ = s.try_write(if how == 1 { &[0xff; 20] } else { &[0x02] });
                }
                if chance(S::App, 500) {
                    env::pause().await;
                }
                if chance(S::App, 500) {
                    net::reset(s.sim_id());
                }
            })
            .await;
            continue;
        }
        let (cl, node) = (sys.limit, 1 + choose(S::Gen, 2));
        if !sys.connect(node, cl, 4).await {
            return fail("server-dead", "a client cannot connect");
        }
        let i = sys.clients.len() - 1;
        let n = sys.clients[i].n;
        {
            let mut t = sys.t.lock().unwrap();
            let me = t.clients.get_mut(&n).unwrap();
            match how {
                3 => me.panic_at = Some(1),
                4 => me.server_disconnect_at = Some(1),
                _ => {}
            }
        }
        sys.clients[i].down = how < 7;
        sys.launch(i, 1 + choose(S::Gen, 3) as u64, 0, true);
        match choose(S::Gen, 3) {
            0 => {}
            1 => tokio::task::yield_now().await,
            _ => simcore::timer(1_000 * log_uniform(S::Gen, 1000) as u64).await,
        }
        match how {
            5 => net::reset(sys.clients[i].sock),
            6 => sys.clients[i].tx = None,
            _ => {}
        }
    }
    flaws(false);
    settle().await;
    sys.verify();
    if simcore::failed() {
        return;
    }
    sys.fresh().await;
    if !simcore::failed() {
        sys.verify();
    }
    // those that are gone have been looked at
    sys.clients.retain(|c| !c.down);
}

async fn visitors(sys: &mut Sys) {
    let mut stay: Vec<Join<()>> = Vec::new();
    for k in 0..range(S::Gen, 1, 8) {
        let addr = sys.addr;
        let node = 60 + k;
        match choose(S::Gen, 5) {
            0 => {
                let cl = sys.limit;
                sys.connect(1 + choose(S::Gen, 2), cl, 4).await;
            }
            1 => {
                // stays, reads nothing, says nothing
                stay.push(simcore::spawn_on(Some(node), "visitor", async move {
                    let s = tokio::net::TcpStream::connect(addr).await;
                    std::future::pending::<()>().await;
                    drop(s);
                }));
            }
            k => {
                stay.push(simcore::spawn_on(Some(node), "visitor", async move {
                    let Ok(s) = tokio::net::TcpStream::connect(addr).await else { return };
                    if chance(S::App, 500) {
                        env::pause().await;
                    }
                    if k != 2 {
                        simcore::fault(Fault::HostileBytes);
                        let bytes: Vec<u8> = match choose(S::App, 4) {
                            0 => vec![0xff; 12],
                            1 => vec![0xff, 0xff, 0xff, 0xff, 0x7f],
                            2 => vec![3, 0xff, 0xff, 0xff],
                            // a frame that starts with no field at all, and then anything
                            _ => [30, 7].into_iter().chain((0..40).map(|_| choose(S::App, 256) as u8)).collect(),
                        };
                        crate::peer::write(&s, &bytes).await;
                        if chance(S::App, 500) {
                            env::pause().await;
                        }
                    }
                    match choose(S::App, 3) {
                        0 => net::reset(s.sim_id()),
                        1 => {
                            let _ = net::shutdown_write(s.sim_id());
                            env::pause().await;
                        }
                        _ => {}
                    }
                }));
            }
        }
        if env::maybe(500) {
            env::pause().await;
        }
    }
    for i in 0..sys.clients.len() {
        sys.launch(i, 3, 0, false);
    }
    settle().await;
    // which clients made it: a connection that got its reactor is to be served
    let faults = simcore::with(|s| s.faults[Fault::AcceptError as usize] + s.faults[Fault::SockoptError as usize]);
    let mut lost = 0;
    for i in 0..sys.clients.len() {
        let n = sys.clients[i].n;
        if sys.idx(n).is_none() {
            let c = &mut sys.clients[i];
            lost += 1;
            if !net::is_closed(c.sock) && !net::accepted(c.ssock) {
                return fail("server-dead", format!("the connection of client {n} waits to be accepted for ever"));
            }
            c.down = true;
            c.refused = true;
        }
    }
    if lost > faults {
        return fail("server-dead", format!("{lost} clients are not served, {faults} failures were injected"));
    }
    probe("clients_refused");
    sys.verify();
    if env::maybe(500) {
        for s in stay {
            s.abort();
        }
    }
}
