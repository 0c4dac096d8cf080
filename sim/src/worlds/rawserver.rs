//! A real rpc client against a scripted server that reads and writes raw bytes.
//!
//! Profiles: 0 responses in any order mixed with stray, late, duplicate and unknown messages,
//! 1 hostile bytes, 2 the server ends the connection (orderly or not) in the middle,
//! 3 ids used again as soon as their call has finished, 4 calls given up.

use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

use futures::StreamExt;
use protosocket_rpc::client::RpcClient;
use simcore::choice::S;
use simcore::net;
use simcore::{chance, choose, fail, log_uniform, probe, range, weighted, Fault, Join};

use super::conn::{draw_codec, draw_queue, settle};
use super::raw::{judge, poison, Verdict};
use super::rpc::{connect, on};
use crate::env;
use crate::msg::{self, Kind, Next, Rpc};
use crate::peer::{self, Peer};
use crate::rpcs;

const UNARY: u32 = 0;
const STREAM: u32 = 1;

/// How the server treats a call.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Answer {
    Whole,
    /// cancelled by the server (this control code) after some items
    Cancel(u32),
    Never,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Sending,
    Open,
    Done,
    Failed,
    Dropped,
    DroppedUnsent,
}
#[derive(Clone, Debug)]
struct Call {
    nonce: u64,
    id: u64,
    kind: u32,
    a: u32,
    b: u32,
    answer: Answer,
    st: St,
    got: u32,
    // the server's side
    arrived: u32,
    /// messages of the answer fully written to the socket
    written: u32,
    queued: u32,
    cancels: u32,
}
impl Call {
    /// number of messages in the answer
    fn total(&self) -> u32 {
        match (self.answer, self.kind) {
            (Answer::Never, UNARY) => 0,
            (Answer::Never, _) => self.a,
            (Answer::Whole, UNARY) => 1,
            (Answer::Whole, _) => self.a + 1,
            (Answer::Cancel(_), UNARY) => 1,
            (Answer::Cancel(_), _) => self.a + 1,
        }
    }
    fn message(&self, i: u32) -> Rpc {
        match (self.answer, self.kind) {
            (Answer::Cancel(code), k) if k == UNARY || i == self.a => Rpc { id: self.id, code, ..Default::default() },
            (Answer::Whole, STREAM) if i == self.a => Rpc { id: self.id, code: 2, ..Default::default() },
            _ => rpcs::response(self.id, self.nonce, i, self.b),
        }
    }
}
#[derive(Default)]
struct World {
    calls: BTreeMap<u64, Call>,
    next: u64,
    free: Vec<u64>,
    /// the connection has been given a reason to end
    down: bool,
    /// an orderly end: what was written before it arrives
    orderly: bool,
}
type Shared = Arc<Mutex<World>>;

struct Mark(Shared, u64);
impl Drop for Mark {
    fn drop(&mut self) {
        if let Some(c) = self.0.lock().unwrap().calls.get_mut(&self.1) {
            c.st = match c.st {
                St::Sending => St::DroppedUnsent,
                St::Open => St::Dropped,
                s => s,
            };
        }
    }
}

fn error(sh: &Shared, nonce: u64, e: protosocket_rpc::Error, sent: bool) {
    let mut w = sh.lock().unwrap();
    let (down, orderly) = (w.down, w.orderly);
    let c = w.calls.get_mut(&nonce).unwrap();
    c.st = St::Failed;
    let cut = matches!(c.answer, Answer::Cancel(_)) && c.queued == c.total() && (c.kind == UNARY || c.got == c.a);
    let c = c.clone();
    drop(w);
    if cut && !down {
        if !matches!(e, protosocket_rpc::Error::CancelledRemotely) {
            fail("stray-effect", format!("call {nonce} was cancelled by the server and reports {e:?}"));
        }
    } else if !down {
        fail("rpc-spurious-error", format!("call {nonce} failed with {e:?} although its connection is up: {c:?}"));
    } else if orderly && sent && matches!(c.answer, Answer::Whole) && c.written == c.total() {
        fail("close-lost-inbound", format!("the whole answer of call {nonce} was sent before the server closed, and it failed with {e:?}: {c:?}"));
    } else if orderly && sent && c.kind == STREAM && c.got < c.written.min(c.a) {
        fail("close-lost-inbound", format!("{} items of stream {nonce} were sent before the server closed and {} arrived", c.written, c.got));
    }
}

async fn run_call(sh: Shared, rpc: &RpcClient<Rpc, Rpc>, c: Call, give_up: Option<(u32, u32)>) {
    let (nonce, id) = (c.nonce, c.id);
    sh.lock().unwrap().calls.insert(nonce, c.clone());
    let mark = Mark(sh.clone(), nonce);
    let len = if chance(S::App, 800) { choose(S::App, 20) } else { log_uniform(S::App, 300) };
    let req = rpcs::request(id, nonce, c.kind, c.a, c.b, len as usize);
    probe("work");
    let set = |s: St| {
        sh.lock().unwrap().calls.get_mut(&nonce).unwrap().st = s;
    };
    if c.kind == UNARY {
        let mut call = match rpc.send_unary(req).await {
            Ok(x) => x,
            Err(e) => return error(&sh, nonce, e, false),
        };
        set(St::Open);
        let r = match give_up {
            Some((0, us)) => {
                simcore::timer(us as u64 * 1000).await;
                None
            }
            Some((_, k)) => env::poll_times(&mut call, k).await,
            None => Some((&mut call).await),
        };
        match r {
            None => {
                simcore::fault(Fault::CallDropped);
                drop(mark);
                return drop(call);
            }
            Some(Ok(m)) => {
                set(St::Done);
                if !rpcs::is_response(&m, id, nonce, 0, c.b) {
                    fail("rpc-wrong-response", format!("call {nonce} (id {id}) got {m:?}"));
                } else if c.answer != Answer::Whole {
                    fail("rpc-wrong-response", format!("call {nonce} got a response the server never sent"));
                }
            }
            Some(Err(e)) => error(&sh, nonce, e, true),
        }
        drop(call);
    } else {
        let mut call = match rpc.send_streaming(req).await {
            Ok(x) => x,
            Err(e) => return error(&sh, nonce, e, false),
        };
        set(St::Open);
        let mut stop = u32::MAX;
        if let Some((0, us)) = give_up {
            simcore::timer(us as u64 * 1000).await;
            stop = 0;
        } else if let Some((_, k)) = give_up {
            stop = k - 1;
        }
        let mut seen = 0;
        let mut over = false;
        while seen < stop {
            match call.next().await {
                Some(Ok(m)) => {
                    if m.nonce != nonce || m.id != id {
                        fail("rpc-wrong-response", format!("stream {nonce} (id {id}) yielded {m:?}"));
                    } else if m.index != seen {
                        fail("stream-order", format!("stream {nonce} yielded item {} where {seen} was expected", m.index));
                    } else if !rpcs::is_response(&m, id, nonce, seen, c.b) {
                        fail("stream-altered", format!("item {seen} of stream {nonce} has different content"));
                    }
                    seen += 1;
                    sh.lock().unwrap().calls.get_mut(&nonce).unwrap().got = seen;
                    if chance(S::App, 50) {
                        env::pause().await;
                    }
                    tokio::task::consume_budget().await;
                }
                Some(Err(protosocket_rpc::Error::Finished)) => {
                    set(St::Done);
                    over = true;
                    if c.answer != Answer::Whole || seen != c.a {
                        fail("stream-truncated", format!("stream {nonce} reports its end after {seen} of {} items, answer {:?}", c.a, c.answer));
                    }
                    break;
                }
                Some(Err(e)) => {
                    over = true;
                    error(&sh, nonce, e, true);
                    break;
                }
                None => {
                    over = true;
                    fail("stream-no-end", format!("stream {nonce} stopped after {seen} items without reporting an end"));
                    break;
                }
            }
        }
        if over {
            for _ in 0..choose(S::App, 3) {
                match env::poll_times(call.next(), 1).await {
                    Some(None) | None => {}
                    Some(Some(x)) => fail("stream-after-end", format!("stream {nonce} had ended and yields {x:?}")),
                }
            }
        } else {
            simcore::fault(Fault::CallDropped);
            drop(mark);
            return drop(call);
        }
        drop(call);
    }
}

async fn caller(sh: Shared, rpc: RpcClient<Rpc, Rpc>, profile: u32, calls: u32, max_b: u32) {
    for _ in 0..calls {
        let kind = choose(S::App, 2);
        let a = if kind == UNARY { 1 } else { [0, 1, 2, 3, 9, 16, 17, 40, 130][weighted(S::App, &[2, 3, 3, 2, 2, 1, 1, 1, 1])] };
        let b = if a > 20 { choose(S::App, 20) } else { log_uniform(S::App, if chance(S::App, 100) { max_b } else { 100 }) };
        let w: [u32; 3] = match profile {
            3 => [1, 0, 0],
            2 => [6, 1, 4],
            _ => [8, 2, 1],
        };
        let answer = match weighted(S::App, &w) {
            0 => Answer::Whole,
            1 => Answer::Cancel([1, 1, 3, 9, 255][choose(S::App, 5) as usize]),
            _ => Answer::Never,
        };
        let nonce = {
            let mut s = sh.lock().unwrap();
            s.next += 1;
            rpcs::nonce_of(1, s.next)
        };
        let mut id = rpcs::id_of(nonce);
        if profile == 3 {
            id = sh.lock().unwrap().free.pop().unwrap_or(id);
        }
        let give_up = if chance(S::App, if profile == 4 { 500 } else if profile == 3 { 0 } else { 80 }) {
            Some(match choose(S::App, 3) {
                0 => (0, log_uniform(S::App, 2000)),
                1 => (1, 1),
                _ => (1, range(S::App, 1, 4)),
            })
        } else {
            None
        };
        let c = Call { nonce, id, kind, a, b, answer, st: St::Sending, got: 0, arrived: 0, written: 0, queued: 0, cancels: 0 };
        run_call(sh.clone(), &rpc, c, give_up).await;
        if profile == 3 && sh.lock().unwrap().calls.get(&nonce).is_some_and(|c| c.st == St::Done) {
            sh.lock().unwrap().free.push(id);
        }
        if chance(S::App, 200) {
            env::pause().await;
        }
    }
}

/// Take in what the client has sent.
fn listen(sh: &Shared, heard: &Arc<Mutex<peer::Heard>>, parsed: &mut usize, kind: Kind) {
    let h = heard.lock().unwrap();
    let mut w = sh.lock().unwrap();
    while *parsed < h.bytes.len() {
        match msg::reference::<Rpc>(kind, &h.bytes[*parsed..], usize::MAX) {
            Next::Message(n, m) => {
                *parsed += n;
                match m.code {
                    0 => match w.calls.get_mut(&m.nonce) {
                        Some(c) if m.id == c.id => {
                            c.arrived += 1;
                            if c.arrived > 1 {
                                fail("rpc-duplicated", format!("request {} was sent twice", m.nonce));
                            }
                        }
                        _ => fail("request-altered", format!("the client sent a request nobody made: {m:?}")),
                    },
                    1 => {
                        let Some(c) = w.calls.values_mut().rfind(|c| c.id == m.id) else {
                            fail("cancel-spurious", format!("the client cancelled id {} which it never used", m.id));
                            return;
                        };
                        c.cancels += 1;
                        if c.cancels > 1 || !matches!(c.st, St::Dropped | St::DroppedUnsent) {
                            fail("cancel-spurious", format!("the client sent {} cancels for a call in state {:?}: {c:?}", c.cancels, c.st));
                        }
                    }
                    code => fail("request-altered", format!("the client sent control code {code}: {m:?}")),
                }
            }
            Next::Incomplete => break,
            _ => {
                fail("wire-bytes", format!("bytes at {parsed} from the client are no frame"));
                break;
            }
        }
    }
}

fn stray(w: &World) -> Option<Rpc> {
    let never = rpcs::never_id(1);
    let odd = [3u32, 5, 77, 254, 255][choose(S::App, 5) as usize];
    // calls whose answer has been sent to the end, or that nobody waits for any more
    let over: Vec<&Call> = w
        .calls
        .values()
        .filter(|c| c.arrived == 1 && c.id == rpcs::id_of(c.nonce) && (c.queued == c.total() && c.answer != Answer::Never || matches!(c.st, St::Dropped)))
        .collect();
    let body = rpcs::response(never, 4711, choose(S::App, 3), 9);
    if chance(S::App, 500) && !over.is_empty() {
        let c = over[choose(S::App, over.len() as u32) as usize];
        Some(match choose(S::App, 4) {
            0 => rpcs::response(c.id, c.nonce, choose(S::App, c.a + 1), c.b),
            1 => Rpc { id: c.id, code: 2, ..Default::default() },
            2 => Rpc { id: c.id, code: 1, ..Default::default() },
            _ => Rpc { id: c.id, code: odd, ..Default::default() },
        })
    } else {
        Some(match choose(S::App, 4) {
            0 => body,
            1 => Rpc { id: never, code: 2, ..Default::default() },
            2 => Rpc { id: never, code: 1, ..Default::default() },
            _ => Rpc { id: never, code: odd, ..Default::default() },
        })
    }
}

struct Server {
    sh: Shared,
    kind: Kind,
    strays: u32,
    peer_stream: Arc<tokio::net::TcpStream>,
    heard: Arc<Mutex<peer::Heard>>,
    /// stop after this many messages
    stop_after: u32,
    parsed: Arc<Mutex<usize>>,
    /// reached stop_after, at a message boundary
    stopped: Arc<Mutex<bool>>,
    wake: Arc<Mutex<Option<std::task::Waker>>>,
}
/// Answers calls in any order, a few messages at a time.
async fn serve(s: Server) {
    let mut sent = 0u32;
    loop {
        listen(&s.sh, &s.heard, &mut s.parsed.lock().unwrap(), s.kind);
        let mut out = Vec::new();
        let mut carried: Vec<u64> = Vec::new();
        let batch = [1, 1, 2, 5, 20, 140][choose(S::App, 6) as usize];
        for _ in 0..batch {
            if sent >= s.stop_after {
                break;
            }
            let mut w = s.sh.lock().unwrap();
            if chance(S::App, s.strays) {
                if let Some(m) = stray(&w) {
                    simcore::fault(Fault::StrayMessage);
                    out.extend(msg::wire(s.kind, &m));
                    sent += 1;
                }
                continue;
            }
            let ready: Vec<u64> = w.calls.values().filter(|c| c.arrived > 0 && c.queued < c.total()).map(|c| c.nonce).collect();
            if ready.is_empty() {
                break;
            }
            let n = ready[choose(S::App, ready.len() as u32) as usize];
            let c = w.calls.get_mut(&n).unwrap();
            out.extend(msg::wire(s.kind, &c.message(c.queued)));
            c.queued += 1;
            carried.push(n);
            sent += 1;
        }
        if !out.is_empty() {
            if !peer::write(&s.peer_stream, &out).await {
                return;
            }
            let mut w = s.sh.lock().unwrap();
            for n in carried {
                w.calls.get_mut(&n).unwrap().written += 1;
            }
        }
        if sent >= s.stop_after {
            *s.stopped.lock().unwrap() = true;
            return;
        }
        if out.is_empty() {
            // wait for more requests, or for the end
            let have = s.heard.lock().unwrap().bytes.len();
            let gone = s.heard.lock().unwrap().gone != peer::Gone::No;
            if gone {
                return;
            }
            std::future::poll_fn(|cx| {
                let h = s.heard.lock().unwrap();
                if h.bytes.len() > have || h.gone != peer::Gone::No {
                    return std::task::Poll::Ready(());
                }
                *s.wake.lock().unwrap() = Some(cx.waker().clone());
                std::task::Poll::Pending
            })
            .await;
        } else if chance(S::App, 200) {
            env::pause().await;
        }
    }
}

fn verify(sh: &Shared, tasks: &[Join<()>], conn_finished: bool) {
    if conn_finished {
        return fail("unexpected-end", "the client's connection ended although nothing ended it");
    }
    let w = sh.lock().unwrap();
    for c in w.calls.values() {
        let bad = match c.st {
            St::Sending => Some(("sender-stuck", "is never handed over")),
            St::Open if c.arrived == 0 => Some(("rpc-lost-request", "never reached the server")),
            St::Open if c.answer != Answer::Never => Some((if c.kind == UNARY { "rpc-lost-response" } else { "stream-stuck" }, "was answered completely and does not resolve")),
            St::Open if c.kind == STREAM && c.got != c.a => Some(("stream-stuck", "does not yield what was sent")),
            St::Dropped if c.cancels != 1 && c.arrived == 1 => Some(("cancel-ignored", "was given up and the server was not told")),
            St::Failed if c.answer == Answer::Whole || c.answer == Answer::Never => Some(("rpc-spurious-error", "failed on a live connection")),
            _ => None,
        };
        if let Some((class, what)) = bad {
            return fail(class, format!("call {} {what}: {c:?}", c.nonce));
        }
    }
    let _ = tasks;
}

pub async fn world(profile: u32) {
    let codec = draw_codec();
    msg::set_codec(codec);
    let kind = codec.kind;
    let limit = [1 << 20, 6000, 900][weighted(S::Gen, &[4, 2, 2])];
    let most = if kind == Kind::MessagePack { limit as u32 / 2 - 150 } else { limit as u32 - 100 };
    let q = draw_queue();
    env::draw(60_000);
    rpcs::draw_ids();
    rpcs::reset(u64::MAX / 2);
    let addr: SocketAddr = "10.0.0.1:1000".parse().unwrap();
    let listener = on(SRV, "raw bind", async move { tokio::net::TcpListener::bind(addr).await.ok() }).await.flatten();
    let Some(listener) = listener else {
        return fail("harness-bind", "cannot bind");
    };
    let Some(client) = connect(1, addr, limit, q).await else {
        return fail("harness-connect", "cannot connect");
    };
    let Some(stream) = on(SRV, "raw accept", async move { listener.accept().await.ok().map(|x| x.0) }).await.flatten() else {
        return fail("harness-accept", "cannot accept");
    };
    simcore::trace(|| format!("profile {profile} codec {codec:?} limit {limit} client queue {q}"));
    let mut p = Peer::new(SRV, stream);
    let wake: Arc<Mutex<Option<std::task::Waker>>> = Default::default();
    p.on_data = Some(wake.clone());
    p.start_reading(env::maybe(200));
    let sh: Shared = Default::default();
    if profile == 3 {
        sh.lock().unwrap().free = (1..=range(S::Gen, 1, 3) as u64).map(|k| 1_500_000 + k).collect();
    }
    let parsed: Arc<Mutex<usize>> = Default::default();
    let stopped: Arc<Mutex<bool>> = Default::default();
    let stop_after = if matches!(profile, 1 | 2) { choose(S::Gen, 60) } else { u32::MAX };
    let server = simcore::spawn_on(
        Some(SRV),
        "raw server",
        serve(Server {
            sh: sh.clone(),
            kind,
            strays: if matches!(profile, 2 | 3) { 0 } else { 250 },
            peer_stream: p.stream.clone(),
            heard: p.heard.clone(),
            stop_after,
            parsed: parsed.clone(),
            stopped: stopped.clone(),
            wake,
        }),
    );
    let rpc = client.rpc.clone().unwrap();
    let mut tasks = Vec::new();
    let rounds = if matches!(profile, 1 | 2) { 1 } else { range(S::Gen, 1, 3) };
    for _ in 0..rounds {
        for _ in 0..range(S::Gen, 1, if env::maybe(200) { 20 } else { 5 }) {
            tasks.push(simcore::spawn_on(Some(1), "caller", caller(sh.clone(), rpc.clone(), profile, range(S::Gen, 1, 8), most.min(3000))));
        }
        if matches!(profile, 1 | 2) {
            break;
        }
        if env::maybe(300) {
            simcore::timer(1_000 * log_uniform(S::App, 20_000) as u64).await;
        } else {
            simcore::quiesce().await;
        }
        settle().await;
        listen(&sh, &p.heard, &mut parsed.lock().unwrap(), kind);
        if simcore::failed() {
            return;
        }
        verify(&sh, &tasks, client.conn.is_finished());
        if simcore::failed() {
            return;
        }
        probe("rounds_settled");
        env::draw(60_000);
    }
    if matches!(profile, 1 | 2) {
        // the server stops at a message boundary, or is interrupted anywhere
        let abrupt = profile == 2 && env::maybe(400);
        if abrupt {
            simcore::timer(1_000 * log_uniform(S::Gen, 3000) as u64).await;
            server.abort();
        }
        simcore::quiesce().await;
        let clean = *stopped.lock().unwrap();
        listen(&sh, &p.heard, &mut parsed.lock().unwrap(), kind);
        sh.lock().unwrap().down = true;
        if profile == 1 {
            simcore::fault(Fault::HostileBytes);
            let sample = rpcs::response(5, 5, 0, 7);
            let bytes = loop {
                let (_, bytes) = poison(kind, limit, &sample);
                if matches!(judge::<Rpc>(codec, &bytes, limit), (m, Verdict::MustEnd(_)) if m.is_empty()) {
                    break bytes;
                }
            };
            p.write(&bytes).await;
            if env::maybe(500) {
                // whatever follows does not count any more: complete answers among them
                let more: Vec<u8> = sh.lock().unwrap().calls.values().filter(|c| c.arrived == 1 && c.queued < c.total()).flat_map(|c| msg::wire(kind, &c.message(c.queued))).collect();
                p.write(&more).await;
            }
        } else {
            let how = choose(S::Gen, 3);
            // the answers written so far are all taken when the end is orderly
            sh.lock().unwrap().orderly = how != 2;
            match how {
                0 => {
                    probe("half_close");
                    p.half_close();
                }
                1 => {
                    probe("close");
                    // bytes unread by the server would turn this close into a reset
                    p.stop_reading();
                    let unread = net::undelivered(client.sock) > 0 || net::sent_bytes(client.sock) != net::read_bytes(p.stream.sim_id());
                    sh.lock().unwrap().orderly = !unread;
                    net::close(p.stream.sim_id());
                }
                _ => {
                    probe("reset");
                    net::reset(p.stream.sim_id());
                }
            }
        }
        let _ = clean;
        settle().await;
        if simcore::failed() {
            return;
        }
        if !client.conn.is_finished() {
            return fail("fate-open", "the client's connection should have ended and has not");
        }
        if !net::is_closed(client.sock) {
            return fail("fate-socket", "the client's socket is still open");
        }
        if let Some(k) = tasks.iter().position(|t| !t.is_finished()) {
            let open: Vec<Call> = sh.lock().unwrap().calls.values().filter(|c| matches!(c.st, St::Sending | St::Open)).cloned().collect();
            return fail("call-hangs", format!("the connection is lost and task {k} still waits; calls {open:?}"));
        }
        if rpc.is_alive() {
            return fail("is-alive", "the connection is lost and the client reports alive");
        }
        on(1, "late caller", async move {
            match env::poll_times(rpc.send_unary(rpcs::request(9, 9, 0, 0, 0, 0)), 50).await {
                Some(Err(protosocket_rpc::Error::ConnectionIsClosed)) => {}
                Some(Ok(_)) => fail("late-call", "a call on a lost connection is accepted"),
                Some(Err(e)) => fail("late-call", format!("a call on a lost connection fails with {e:?}")),
                None => fail("late-call", "a call on a lost connection waits"),
            }
            match env::poll_times(rpc.send_streaming(rpcs::request(10, 10, 1, 0, 0, 0)), 50).await {
                Some(Err(protosocket_rpc::Error::ConnectionIsClosed)) => {}
                Some(Ok(_)) => fail("late-call", "a stream on a lost connection is accepted"),
                Some(Err(e)) => fail("late-call", format!("a stream on a lost connection fails with {e:?}")),
                None => fail("late-call", "a stream on a lost connection waits"),
            }
        })
        .await;
    }
}
/// a node below rpcs::SERVER: nothing on it uses the codecs under test
const SRV: u32 = 50;
