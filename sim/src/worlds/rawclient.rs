//! A real rpc server against scripted clients that write and read raw bytes.
//!
//! Profiles: 0 calls mixed with stray, late, duplicate and unknown control messages, 1 hostile
//! bytes on one connection while another is in use, 2 clients that go away in any way,
//! 3 ids used again as soon as their call has finished.

use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

use simcore::choice::S;
use simcore::net::{self, SockId};
use simcore::{chance, choose, fail, log_uniform, probe, range, weighted, Fault, Join};

use super::conn::{draw_codec, draw_queue, settle};
use super::raw::{judge, poison, Verdict};
use super::rpc::{on, start_server};
use crate::env;
use crate::msg::{self, Kind, Next, Rpc};
use crate::peer::{self, Gone, Peer};
use crate::rpcs::{self, led, op, with_call, SERVER};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fate {
    /// nobody interferes
    Kept,
    /// told to stop, once or more
    Cancelled,
}
#[derive(Clone, Debug)]
struct Known {
    nonce: u64,
    id: u64,
    op: u32,
    a: u32,
    b: u32,
    fate: Fate,
    /// items of a stream or the response received
    got: u32,
    ended: bool,
    written: bool,
}
impl Known {
    fn finished(&self) -> bool {
        if op::unary(self.op) {
            self.got == 1
        } else {
            self.ended
        }
    }
}
#[derive(Default)]
struct Book {
    calls: Vec<Known>,
    /// the latest call of each id
    by_id: BTreeMap<u64, usize>,
    parsed: usize,
    junk: bool,
}
impl Book {
    /// One message from the server.
    fn receive(&mut self, m: &Rpc) {
        let Some(&i) = self.by_id.get(&m.id) else {
            fail("stray-effect", format!("the server sent {m:?}, for an id that was never used for a call"));
            return;
        };
        let c = &mut self.calls[i];
        if c.finished() {
            let class = if op::unary(c.op) { "rpc-wrong-response" } else { "stream-after-end" };
            fail(class, format!("call {} has finished and the server sent {m:?}", c.nonce));
            return;
        }
        match m.code {
            0 if op::unary(c.op) => {
                if !rpcs::is_response(m, c.id, c.nonce, 0, c.b) {
                    fail("rpc-wrong-response", format!("call {} (id {}) got {m:?}", c.nonce, c.id));
                }
                c.got = 1;
            }
            0 => {
                if m.nonce != c.nonce {
                    fail("rpc-wrong-response", format!("stream {} (id {}) got {m:?}", c.nonce, c.id));
                } else if m.index != c.got {
                    fail("stream-order", format!("stream {} got item {} where {} was expected", c.nonce, m.index, c.got));
                } else if !rpcs::is_response(m, c.id, c.nonce, c.got, c.b) {
                    fail("stream-altered", format!("item {} of stream {} has different content", c.got, c.nonce));
                }
                c.got += 1;
            }
            2 if !op::unary(c.op) => {
                let done = with_call(c.nonce, |k| k.completed).unwrap_or(false);
                if !done || c.got != c.a {
                    fail("stream-truncated", format!("stream {} was ended after {} of {} items (service ended it: {done})", c.nonce, c.got, c.a));
                }
                c.ended = true;
            }
            code => fail("rpc-wrong-response", format!("call {} got a message with control code {code}: {m:?}", c.nonce)),
        }
    }
}

struct Client {
    n: u32,
    peer: Peer,
    ssock: SockId,
    address: SocketAddr,
    book: Arc<Mutex<Book>>,
    tasks: Vec<Join<()>>,
}

async fn connect(n: u32, addr: SocketAddr) -> Option<Client> {
    let before = net::opened().len();
    let s = on(n, "raw connect", async move { tokio::net::TcpStream::connect(addr).await.ok() }).await??;
    let (sock, ssock) = net::opened()[before];
    let address = net::local_addr(sock).ok()?;
    Some(Client { n, peer: Peer::new(n, s), ssock, address, book: Default::default(), tasks: Vec::new() })
}

impl Client {
    /// Take in what has arrived.
    fn listen(&self, kind: Kind) {
        listen(&self.book, &self.peer.heard, kind)
    }
}
fn listen(book: &Arc<Mutex<Book>>, heard: &Arc<Mutex<peer::Heard>>, kind: Kind) {
    let mut b = book.lock().unwrap();
    let h = heard.lock().unwrap();
    while b.parsed < h.bytes.len() {
        match msg::reference::<Rpc>(kind, &h.bytes[b.parsed..], usize::MAX) {
            Next::Message(n, m) => {
                b.parsed += n;
                b.receive(&m);
            }
            Next::Incomplete => break,
            _ => {
                if !b.junk {
                    b.junk = true;
                    fail("wire-bytes", format!("bytes at {} from the server are no frame", b.parsed));
                }
                break;
            }
        }
    }
}

struct Script {
    n: u32,
    kind: Kind,
    steps: u32,
    strays: u32,
    reuse: bool,
    max_len: u32,
    base: u64,
}

fn draw_op(reuse: bool) -> (u32, u32, u32) {
    use op::*;
    let o = if reuse {
        [NOW, YIELDS, TASK, S_NOW, S_YIELDS, S_TASK, SLEEP][choose(S::App, 7) as usize]
    } else {
        [NOW, YIELDS, SLEEP, TASK, HANG, UNKNOWN, S_NOW, S_SLOW, S_TASK, S_HANG, S_YIELDS, S_ENDLESS][weighted(S::App, &[5, 3, 2, 3, 2, 1, 4, 2, 3, 2, 2, 1])]
    };
    let a = match o {
        SLEEP => log_uniform(S::App, 800),
        S_ENDLESS => range(S::App, 200, 600),
        o if o >= 10 => [0, 1, 2, 5, 17, 60][weighted(S::App, &[2, 2, 2, 2, 1, 1])],
        _ => choose(S::App, 8),
    };
    let b = if a > 50 { choose(S::App, 12) } else { log_uniform(S::App, 200) };
    (o, a, b)
}

/// The script of one client: requests and control messages, written as they come or in batches.
async fn script(s: Script, stream: Arc<tokio::net::TcpStream>, heard: Arc<Mutex<peer::Heard>>, book: Arc<Mutex<Book>>) {
    let mut out: Vec<u8> = Vec::new();
    let mut fresh: Vec<usize> = Vec::new();
    let mut next = s.base;
    for _ in 0..s.steps {
        listen(&book, &heard, s.kind);
        let strays = chance(S::App, s.strays);
        if !strays {
            let (o, a, b) = draw_op(s.reuse);
            next += 1;
            let nonce = rpcs::nonce_of(s.n, next);
            let len = match weighted(S::App, &[6, 2, 1]) {
                0 => choose(S::App, 20),
                1 => log_uniform(S::App, 300),
                _ => log_uniform(S::App, s.max_len),
            };
            let mut id = rpcs::id_of(nonce);
            if s.reuse || chance(S::App, 100) {
                let done: Vec<u64> = {
                    let k = book.lock().unwrap();
                    let by = &k.by_id;
                    by.iter().filter(|(_, i)| k.calls[**i].finished() && k.calls[**i].fate == Fate::Kept).map(|(id, _)| *id).collect()
                };
                if !done.is_empty() && chance(S::App, 800) {
                    id = done[choose(S::App, done.len() as u32) as usize];
                    probe("ids_used_again");
                }
            }
            rpcs::open_call(s.n, id, nonce, o, a, b);
            probe("work");
            let mut k = book.lock().unwrap();
            k.calls.push(Known { nonce, id, op: o, a, b, fate: Fate::Kept, got: 0, ended: false, written: false });
            let i = k.calls.len() - 1;
            k.by_id.insert(id, i);
            fresh.push(i);
            out.extend(msg::wire(s.kind, &rpcs::request(id, nonce, o, a, b, len as usize)));
        } else {
            let mut k = book.lock().unwrap();
            let pick = |k: &Book, want: &dyn Fn(&Known) -> bool| -> Option<u64> {
                let l: Vec<u64> = k.by_id.iter().filter(|(_, i)| want(&k.calls[**i])).map(|(id, _)| *id).collect();
                if l.is_empty() {
                    None
                } else {
                    Some(l[choose(S::App, l.len() as u32) as usize])
                }
            };
            let never = rpcs::never_id(s.n);
            let odd = [3u32, 4, 7, 128, 255][choose(S::App, 5) as usize];
            let m = match weighted(S::App, &[5, 2, 3, 3, 3, 2, 2]) {
                0 => pick(&k, &|c| !c.finished() && c.fate == Fate::Kept).map(|id| {
                    let i = k.by_id[&id];
                    k.calls[i].fate = Fate::Cancelled;
                    probe("cancels");
                    with_call(k.calls[i].nonce, |c| c.state = rpcs::State::Dropped);
                    let code = if chance(S::App, 300) { odd } else { 1 };
                    Rpc { id, code, ..Default::default() }
                }),
                1 => pick(&k, &|c| c.fate == Fate::Cancelled).map(|id| Rpc { id, code: 1, ..Default::default() }),
                2 => pick(&k, &|c| c.finished()).map(|id| {
                    probe("late_cancels");
                    Rpc { id, code: if chance(S::App, 300) { odd } else { 1 }, ..Default::default() }
                }),
                3 => Some(Rpc { id: never, code: 1, ..Default::default() }),
                4 => pick(&k, &|_| true).map(|id| {
                    probe("ends_from_client");
                    Rpc { id, code: 2, ..Default::default() }
                }),
                5 => Some(Rpc { id: never, code: 2, ..Default::default() }),
                _ => Some(Rpc { id: never, code: odd, ..Default::default() }),
            };
            drop(k);
            if let Some(m) = m {
                simcore::fault(Fault::StrayMessage);
                out.extend(msg::wire(s.kind, &m));
                if chance(S::App, 150) {
                    out.extend(msg::wire(s.kind, &m));
                }
            }
        }
        if !out.is_empty() && !chance(S::App, 500) {
            let bytes = std::mem::take(&mut out);
            let ok = peer::write(&stream, &bytes).await;
            if ok {
                let mut k = book.lock().unwrap();
                for i in fresh.drain(..) {
                    k.calls[i].written = true;
                }
            }
            if chance(S::App, 300) {
                env::pause().await;
            }
        }
        tokio::task::consume_budget().await;
    }
    if !out.is_empty() && peer::write(&stream, &out).await {
        let mut k = book.lock().unwrap();
        for i in fresh.drain(..) {
            k.calls[i].written = true;
        }
    }
}

/// Everything has settled on a live connection.
fn verify(c: &Client, kind: Kind) {
    c.listen(kind);
    if simcore::failed() {
        return;
    }
    if c.peer.gone() != Gone::No {
        return fail("unexpected-end", format!("the connection of client {} ended although nothing ended it", c.n));
    }
    let b = c.book.lock().unwrap();
    for k in b.calls.iter().filter(|k| k.written) {
        let l = with_call(k.nonce, |x| x.clone()).unwrap();
        let latest = b.calls[b.by_id[&k.id]].nonce == k.nonce;
        let bad = match k.fate {
            _ if l.started != 1 => Some(("rpc-lost-request", "was not given to the service exactly once")),
            Fate::Kept if k.op == op::UNKNOWN => None,
            Fate::Kept if op::completes(k.op) && !k.finished() && latest => {
                Some(if op::unary(k.op) { ("rpc-lost-response", "is not answered") } else { ("stream-stuck", "does not end") })
            }
            Fate::Kept if !op::unary(k.op) && k.got != k.a => Some(("stream-stuck", "does not get what the service produced")),
            Fate::Kept if !op::completes(k.op) && l.live != 1 => Some(("rpc-dropped-work", "was not cancelled and its work was dropped")),
            Fate::Kept if op::completes(k.op) && l.live != 0 => Some(("server-leak", "has finished and is still held")),
            Fate::Cancelled if l.live != 0 => Some(("cancel-ignored", "was cancelled and the server still works on it")),
            _ => None,
        };
        if let Some((class, what)) = bad {
            return fail(class, format!("call {} of raw client {} {what}: {k:?} {l:?}", k.nonce, c.n));
        }
    }
    drop(b);
    led(|l| {
        for k in l.calls.values_mut().filter(|k| k.client == c.n && k.state == rpcs::State::Dropped) {
            k.buried = true;
        }
    });
    let served = led(|l| l.conns.iter().filter(|k| k.address == Some(c.address)).map(|k| k.dropped).collect::<Vec<_>>());
    if served != [0] {
        fail("service-dropped", format!("the service of client {}'s live connection: {served:?}", c.n));
    }
}
/// Everything has settled and this connection must be gone.
fn verify_gone(c: &Client) {
    if !net::is_closed(c.ssock) {
        return fail("fate-open", format!("the server keeps the connection of client {} open", c.n));
    }
    let bad = led(|l| {
        if let Some(k) = l.calls.values().find(|k| k.client == c.n && k.live != 0) {
            return Some(format!("the connection of client {} is gone and the server still works on {k:?}", c.n));
        }
        match l.conns.iter().find(|k| k.address == Some(c.address)) {
            Some(k) if k.dropped != 1 => Some(format!("the service of the lost connection of client {} was dropped {} times", c.n, k.dropped)),
            _ => None,
        }
    });
    if let Some(why) = bad {
        fail("server-leak", why);
    }
}

pub async fn world(profile: u32) {
    let codec = draw_codec();
    msg::set_codec(codec);
    let kind = codec.kind;
    let limit = [1 << 20, 6000, 900][weighted(S::Gen, &[4, 2, 2])];
    let most = if kind == Kind::MessagePack { limit as u32 / 2 - 150 } else { limit as u32 - 100 };
    let max_len = most.min(3000);
    let qs = draw_queue();
    env::draw(60_000);
    rpcs::draw_ids();
    rpcs::reset(u64::MAX / 2);
    let addr: SocketAddr = "10.0.0.1:1000".parse().unwrap();
    let Some(server) = start_server(SERVER, addr, limit, qs).await else {
        return fail("server-dead", "the server cannot be started");
    };
    simcore::trace(|| format!("profile {profile} codec {codec:?} limit {limit} server queue {qs}"));
    let nclients = match profile {
        0 | 3 => range(S::Gen, 1, 2),
        _ => range(S::Gen, 2, 3),
    };
    let mut clients = Vec::new();
    for n in 1..=nclients {
        let Some(mut c) = connect(n, addr).await else {
            return fail("server-dead", "a client cannot connect");
        };
        c.peer.start_reading(env::maybe(300));
        clients.push(c);
    }
    let rounds = range(S::Gen, 1, 3);
    let mut down: BTreeSet<u32> = BTreeSet::new();
    for r in 0..rounds {
        for c in clients.iter_mut().filter(|c| !down.contains(&c.n)) {
            let s = Script {
                n: c.n,
                kind,
                steps: range(S::Gen, 1, if env::maybe(200) { 120 } else { 25 }),
                strays: if profile == 3 { 100 } else { 400 },
                reuse: profile == 3,
                max_len,
                base: r as u64 * 10_000,
            };
            c.tasks.push(simcore::spawn_on(Some(c.n), "script", script(s, c.peer.stream.clone(), c.peer.heard.clone(), c.book.clone())));
        }
        if profile == 1 || profile == 2 {
            let v = choose(S::Gen, clients.len() as u32) as usize;
            if !down.contains(&clients[v].n) && down.len() + 1 < clients.len() {
                // possibly let it get somewhere first
                match choose(S::Gen, 3) {
                    0 => {}
                    1 => simcore::timer(1_000 * log_uniform(S::Gen, 3000) as u64).await,
                    _ => settle().await,
                }
                let c = &mut clients[v];
                down.insert(c.n);
                if profile == 1 {
                    // its script stops at a message boundary, then come bytes that are no message
                    simcore::fault(Fault::HostileBytes);
                    simcore::quiesce().await;
                    let sample = rpcs::request(5, 5, 0, 0, 0, 7);
                    let (what, bytes) = loop {
                        let (what, bytes) = poison(kind, limit, &sample);
                        if matches!(judge::<Rpc>(codec, &bytes, limit), (m, Verdict::MustEnd(_)) if m.is_empty()) {
                            break (what, bytes);
                        }
                    };
                    simcore::trace(|| format!("client {} sends poison: {what}", c.n));
                    c.peer.write(&bytes).await;
                    if env::maybe(500) {
                        c.peer.write(&vec![0x55; 1 + log_uniform(S::Gen, 2000) as usize]).await;
                    }
                } else {
                    match choose(S::Gen, 4) {
                        0 => {
                            probe("half_close");
                            c.tasks.iter().for_each(|t| t.abort());
                            simcore::quiesce().await;
                            c.peer.half_close();
                        }
                        1 => {
                            probe("close");
                            c.tasks.iter().for_each(|t| t.abort());
                            c.peer.stop_reading();
                            net::close(c.peer.stream.sim_id());
                        }
                        2 => {
                            probe("reset");
                            net::reset(c.peer.stream.sim_id());
                        }
                        _ => {
                            probe("crash");
                            simcore::crash_node(c.n);
                        }
                    }
                }
            }
        }
        if env::maybe(300) {
            simcore::timer(1_000 * log_uniform(S::App, 20_000) as u64).await;
        } else {
            simcore::quiesce().await;
        }
        settle().await;
        if server.is_finished() {
            return fail("server-ended", "the server future ended");
        }
        for c in &clients {
            if down.contains(&c.n) {
                verify_gone(c);
            } else {
                verify(c, kind);
            }
            if simcore::failed() {
                return;
            }
        }
        probe("rounds_settled");
        env::draw(60_000);
    }
    // a last word from everybody: the connections still work
    for c in clients.iter_mut().filter(|c| !down.contains(&c.n)) {
        let s = Script { n: c.n, kind, steps: 3, strays: 0, reuse: false, max_len: 50, base: 700_000 };
        c.tasks.push(simcore::spawn_on(Some(c.n), "script", script(s, c.peer.stream.clone(), c.peer.heard.clone(), c.book.clone())));
    }
    settle().await;
    for c in clients.iter().filter(|c| !down.contains(&c.n)) {
        verify(c, kind);
    }
}
