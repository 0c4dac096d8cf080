//! Two `Connection`s joined by a simulated socket pair.
//!
//! Profiles: 0 general, 1 back-pressure (peer does not read), 2 endings in the middle of traffic,
//! 3 orderly close, 4 messages around the size limit, 5 messages of megabytes, 6 an endless flow in one
//! direction beside a finite one in the other, 7 a long life: more messages than 16 bits count.

use std::sync::{Arc, Mutex};

use protosocket::{Connection, ConnectionBindings, MessageReactor, ReactorStatus};
use simcore::choice::S;
use simcore::net::{self, SockId};
use simcore::{chance, choose, fail, log_uniform, probe, range, weighted, Fault, Join};
use tokio::sync::mpsc;

use crate::env;
use crate::msg::{self, Codec, De, Hint, Kind, Msg, Next, Ser};

pub struct Bind;
impl ConnectionBindings for Bind {
    type Deserializer = De<Msg>;
    type Serializer = Ser<Msg>;
    type Reactor = Rx;
}

/// What one direction of a connection should carry and has delivered.
#[derive(Default)]
pub struct Flow {
    pub name: &'static str,
    /// the label of its first sender
    pub base: u32,
    /// length of each message by sender and sequence number, recorded before the first attempt
    pub lens: Vec<Vec<usize>>,
    pub accepted: Vec<u64>,
    pub delivered: Vec<u64>,
    pub noise_accepted: u64,
    pub empties_accepted: u64,
    pub reactor_dropped: u32,
    pub batches: u64,
    pub disconnect_at: Option<u64>,
    pub disconnected: bool,
    /// keep the messages instead of checking them as they come
    pub collect: Option<Vec<Msg>>,
}
pub type Shared = Arc<Mutex<Flow>>;
impl Flow {
    pub fn total_accepted(&self) -> u64 {
        self.accepted.iter().sum()
    }
    pub fn total_delivered(&self) -> u64 {
        self.delivered.iter().sum()
    }
}

pub struct Rx {
    pub flow: Shared,
}
impl Drop for Rx {
    fn drop(&mut self) {
        self.flow.lock().unwrap().reactor_dropped += 1;
    }
}
impl MessageReactor for Rx {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        simcore::point(simcore::P_APP);
        let mut f = self.flow.lock().unwrap();
        f.batches += 1;
        let mut n = 0u64;
        for m in messages {
            n += 1;
            if f.disconnected {
                fail("fate-late-delivery", format!("{}: message delivered after the reactor asked to disconnect", f.name));
            }
            receive(&mut f, &m);
        }
        let total = f.total_delivered();
        if n > 0 {
            let wait: u64 = f.total_accepted().saturating_sub(total);
            simcore::note_state(1 << 40 | (n.min(20) << 20) | wait.min(60));
        }
        if f.disconnect_at.is_some_and(|k| total >= k) {
            f.disconnected = true;
            return ReactorStatus::Disconnect;
        }
        ReactorStatus::Continue
    }
}

pub fn receive(f: &mut Flow, m: &Msg) {
    probe("work");
    if let Some(c) = &mut f.collect {
        c.push(m.clone());
        return;
    }
    let name = f.name;
    if m.sender == msg::OVERSIZE {
        return fail("hostile-delivered", format!("{name}: a message over the limit is delivered"));
    }
    let s = m.sender.wrapping_sub(f.base) as usize;
    if s >= f.delivered.len() {
        let class = if f.base > 0 { "cross-connection" } else { "delivery-altered" };
        return fail(class, format!("{name}: message from unknown sender {}", m.sender));
    }
    let want = f.delivered[s];
    if m.seq != want {
        return fail(
            "delivery-order",
            format!("{name}: sender {s} message {} delivered where {} was expected", m.seq, want),
        );
    }
    match f.lens[s].get(want as usize) {
        None => return fail("delivery-altered", format!("{name}: sender {s} message {want} was never sent")),
        Some(l) if *l != m.body.len() || !msg::msg_ok(m) => {
            return fail("delivery-altered", format!("{name}: sender {s} message {want} has different content"))
        }
        _ => {}
    }
    f.delivered[s] += 1;
}

#[derive(Clone, Copy, Debug)]
pub struct Sizes {
    pub mode: usize,
    pub limit: usize,
    pub cap: usize,
}
impl Sizes {
    /// body length of the next message
    pub fn draw(&self, k: Kind, sender: u32, seq: u64) -> usize {
        let limit = self.limit.min(self.cap);
        let target = match self.mode {
            0 => log_uniform(S::App, 24) as usize,
            1 => log_uniform(S::App, limit as u32) as usize,
            2 => limit - choose(S::App, (limit as u32 / 2).min(12)) as usize,
            3 => limit,
            _ => match weighted(S::App, &[6, 2, 2]) {
                0 => choose(S::App, 30) as usize,
                1 => log_uniform(S::App, limit as u32) as usize,
                _ => limit - choose(S::App, (limit as u32 / 2).min(12)) as usize,
            },
        };
        fit(k, sender, seq, target.min(limit))
    }
}
/// the longest body whose frame is at most `target` bytes (0 if even that does not fit)
pub fn fit(k: Kind, sender: u32, seq: u64, target: usize) -> usize {
    let mut len = target;
    loop {
        let w = msg::wire(k, &msg::msg(sender, seq, len)).len();
        if w <= target || len == 0 {
            return len;
        }
        // large ones are not tried so often
        let step = if target > 1_000_000 && k != Kind::MessagePack { w - target } else { (w - target) / 2 };
        len -= step.clamp(1, len);
    }
}

pub struct SendPlan {
    pub sender: u32,
    pub count: u64,
    pub kind: Kind,
    pub sizes: Sizes,
    pub noise: bool,
    pub eager: bool,
}

pub enum Sent {
    Accepted,
    Closed,
}
/// Get one message accepted, by one of the ways a channel offers.
pub async fn offer(tx: &mpsc::Sender<Msg>, m: Msg, eager: bool) -> Sent {
    let way = if eager { 0 } else { weighted(S::App, &[8, 2, 2, 2, 1]) };
    match way {
        1 => {
            for _ in 0..3 {
                match tx.try_send(m.clone()) {
                    Ok(()) => return Sent::Accepted,
                    Err(mpsc::error::TrySendError::Closed(_)) => return Sent::Closed,
                    Err(mpsc::error::TrySendError::Full(_)) => tokio::task::yield_now().await,
                }
            }
        }
        2 => {
            return match tx.reserve().await {
                Ok(p) => {
                    if chance(S::App, 300) {
                        env::pause().await;
                    }
                    p.send(m);
                    Sent::Accepted
                }
                Err(_) => Sent::Closed,
            }
        }
        3 => {
            // give up waiting, then try again with the same message
            match env::poll_times(tx.send(m.clone()), range(S::App, 1, 3)).await {
                Some(Ok(())) => return Sent::Accepted,
                Some(Err(_)) => return Sent::Closed,
                None => {}
            }
        }
        4 => {
            if env::poll_times(tx.reserve(), 1).await.is_none() {
                tokio::task::yield_now().await;
            }
        }
        _ => {}
    }
    match tx.send(m).await {
        Ok(()) => Sent::Accepted,
        Err(_) => Sent::Closed,
    }
}

pub async fn sender(tx: mpsc::Sender<Msg>, flow: Shared, p: SendPlan) {
    for _ in 0..p.count {
        if p.noise && chance(S::App, 250) {
            let empty = chance(S::App, 500);
            let len = if empty { 0 } else { log_uniform(S::App, (p.sizes.limit.min(p.sizes.cap) - 5) as u32) as usize };
            let n = Msg {
                sender: if empty { msg::NOISE_EMPTY } else { msg::NOISE_SKIP },
                seq: 0,
                body: vec![7; len],
            };
            if let Sent::Accepted = offer(&tx, n, p.eager).await {
                let mut f = flow.lock().unwrap();
                f.noise_accepted += 1;
                f.empties_accepted += empty as u64;
            } else {
                return;
            }
        }
        let s = (p.sender - flow.lock().unwrap().base) as usize;
        let seq = flow.lock().unwrap().accepted[s];
        let len = p.sizes.draw(p.kind, p.sender, seq);
        flow.lock().unwrap().lens[s].push(len);
        match offer(&tx, msg::msg(p.sender, seq, len), p.eager).await {
            Sent::Accepted => flow.lock().unwrap().accepted[s] += 1,
            Sent::Closed => {
                probe("send_refused_closed");
                return;
            }
        }
        if !p.eager {
            env::pause().await;
        }
    }
}

pub struct End {
    pub node: u32,
    pub sock: SockId,
    /// what this end sends
    pub out: Shared,
    /// what this end receives
    pub inn: Shared,
    pub tx: Option<mpsc::Sender<Msg>>,
    pub conn: Join<()>,
    pub senders: Vec<Join<()>>,
    pub queue: usize,
    pub chan: usize,
}

pub fn draw_codec() -> Codec {
    Codec {
        kind: [Kind::Prost, Kind::MessagePack, Kind::Frame][weighted(S::Gen, &[3, 2, 3])],
        hint: [Hint::Total, Hint::Remaining, Hint::One, Hint::Payload][choose(S::Gen, 4) as usize],
    }
}
pub fn draw_queue() -> usize {
    match weighted(S::Gen, &[4, 3, 2, 1]) {
        0 => range(S::Gen, 1, 4) as usize,
        1 => range(S::Gen, 5, 20) as usize,
        2 => range(S::Gen, 21, 140) as usize,
        _ => range(S::Gen, 129, 300) as usize,
    }
}
pub fn draw_limit(profile: u32) -> usize {
    let w: [u32; 5] = if profile == 4 { [1, 6, 4, 1, 1] } else { [4, 2, 3, 2, 1] };
    match weighted(S::Gen, &w) {
        0 => 1 << 20,
        1 => 24 + choose(S::Gen, 100) as usize,
        2 => 24 + choose(S::Gen, 2000) as usize,
        3 => 4096 + choose(S::Gen, 60_000) as usize,
        _ => 100_000 + choose(S::Gen, 3_000_000) as usize,
    }
}

/// Limits of megabytes, often next to the steps in which receive buffers grow.
pub fn draw_big_limit() -> usize {
    let step = [1 << 20, 2 << 20, 4 << 20, 6 << 20][choose(S::Gen, 4) as usize];
    match weighted(S::Gen, &[2, 2, 1]) {
        0 => step + choose(S::Gen, 40) as usize - 20,
        1 => step + log_uniform(S::Gen, 2 << 20) as usize,
        _ => 100_000 + choose(S::Gen, 8_000_000) as usize,
    }
}
pub fn draw_big_codec() -> Codec {
    let mut c = draw_codec();
    if c.kind == Kind::MessagePack && env::maybe(600) {
        c.kind = Kind::Prost;
    }
    c
}

pub fn new_flow(name: &'static str, senders: usize) -> Shared {
    Arc::new(Mutex::new(Flow {
        name,
        lens: vec![Vec::new(); senders],
        accepted: vec![0; senders],
        delivered: vec![0; senders],
        ..Default::default()
    }))
}

pub fn start_end(node: u32, sock: SockId, out: Shared, inn: Shared, codec: Codec, limit: usize, queue: usize, chan: usize) -> End {
    let (tx, rx) = mpsc::channel(chan);
    let stream = tokio::net::TcpStream::from_sim(sock);
    let addr = stream.peer_addr().unwrap();
    let c: Connection<Bind> = Connection::new(
        stream,
        addr,
        De::new(codec),
        Ser::new(codec),
        limit,
        queue,
        rx,
        Rx { flow: inn.clone() },
    );
    let conn = simcore::spawn_on(Some(node), "connection", c);
    End { node, sock, out, inn, tx: Some(tx), conn, senders: Vec::new(), queue, chan }
}

fn launch(e: &mut End, kind: Kind, sizes: Sizes, noise: bool, count: u64, eager: bool) {
    let n = e.out.lock().unwrap().accepted.len();
    for s in 0..n {
        if count == 0 {
            break;
        }
        let c = range(S::Gen, 1, count as u32) as u64;
        let plan = SendPlan { sender: s as u32, count: c, kind, sizes, noise, eager };
        let tx = e.tx.clone().unwrap();
        e.senders.push(simcore::spawn_on(Some(e.node), "sender", sender(tx, e.out.clone(), plan)));
    }
}

async fn chaos(socks: [SockId; 2], events: u32) {
    for _ in 0..events {
        simcore::timer(1_000 * (1 + log_uniform(S::Fault, 3000) as u64)).await;
        let k = choose(S::Fault, 2) as usize;
        match weighted(S::Fault, &[1, 3, 3, 2]) {
            0 => {}
            1 => net::hold(socks[k], true),
            2 => net::hold(socks[k], false),
            _ => simcore::stall_node(1 + k as u32, 1_000 * log_uniform(S::Fault, 5000) as u64),
        }
    }
}

/// frames completely handed to the network by this socket, checked against what was accepted
pub fn parse_tap(e_sock: SockId, out: &Shared, kind: Kind, limit: usize) -> Result<Vec<u64>, String> {
    let b = net::tapped(e_sock);
    let f = out.lock().unwrap();
    let mut seen = vec![0u64; f.accepted.len()];
    let mut at = 0;
    while at < b.len() {
        match msg::reference::<Msg>(kind, &b[at..], limit) {
            Next::Message(n, m) => {
                let s = m.sender.wrapping_sub(f.base) as usize;
                if s >= seen.len() || m.seq != seen[s] || f.lens[s].get(m.seq as usize) != Some(&m.body.len()) || !msg::msg_ok(&m) {
                    return Err(format!("{}: frame at byte {at} is sender {s} message {}", f.name, m.seq));
                }
                let exact = msg::wire(kind, &m);
                if exact != b[at..at + n] {
                    return Err(format!("{}: frame at byte {at} is not the encoding of its message", f.name));
                }
                seen[s] += 1;
                at += n;
            }
            Next::Skip(n) => at += n,
            Next::Incomplete => break,
            Next::Bad(why) => return Err(format!("{}: bytes at {at} are not a frame: {why}", f.name)),
            Next::Unspecified => return Err(format!("{}: bytes at {at} are not a canonical frame", f.name)),
        }
    }
    Ok(seen)
}

fn check_tap(e: &End, kind: Kind, limit: usize) -> u64 {
    match parse_tap(e.sock, &e.out, kind, limit) {
        Ok(v) => v.iter().sum(),
        Err(why) => {
            fail("wire-bytes", why);
            0
        }
    }
}

/// While the peer is not reading: waiting, not buffering.
fn check_blocked(e: &End, kind: Kind, limit: usize) {
    let taken = check_tap(e, kind, limit);
    let f = e.out.lock().unwrap();
    let skips = f.noise_accepted;
    let accepted = f.total_accepted();
    let held = accepted.saturating_sub(taken);
    let q = e.queue.max(e.chan) as u64;
    simcore::note_state(2 << 40 | (held.min(500) << 10) | q.min(500));
    if held > 4 * q + 4 + skips {
        fail(
            "buffering-unbounded",
            format!("{}: {accepted} messages accepted, {taken} taken by the network, queue limit {q}", f.name),
        );
    }
}

fn check_settled(ends: &[&End; 2]) {
    for e in ends {
        if e.conn.is_finished() {
            fail("unexpected-end", format!("connection of node {} ended although nothing ended it", e.node));
        }
        let f = e.out.lock().unwrap();
        if f.total_accepted() != f.total_delivered() {
            fail(
                "stall",
                format!(
                    "{}: {} messages accepted, {} delivered, nothing left to happen; {} bytes undelivered",
                    f.name,
                    f.total_accepted(),
                    f.total_delivered(),
                    net::undelivered(net::peer_of(e.sock))
                ),
            );
        }
        if let Some(k) = e.senders.iter().position(|s| !s.is_finished()) {
            fail("sender-stuck", format!("{}: sending task {k} waits for ever", f.name));
        }
        if f.reactor_dropped != 0 {
            fail("fate-reactor", format!("{}: receiving reactor dropped while the connection is up", f.name));
        }
    }
}

pub fn check_gone(e: &End) {
    let n = e.node;
    if !e.conn.is_finished() {
        return fail("fate-open", format!("connection of node {n} is still running after it should have ended"));
    }
    if e.inn.lock().unwrap().reactor_dropped != 1 {
        fail("fate-reactor", format!("reactor of node {n} dropped {} times", e.inn.lock().unwrap().reactor_dropped));
    }
    if !net::is_closed(e.sock) {
        fail("fate-socket", format!("socket of node {n} is still open"));
    }
    if e.tx.as_ref().is_some_and(|t| !t.is_closed()) {
        fail("fate-handle", format!("outbound handle of node {n} does not report closed"));
    }
    if let Some(k) = e.senders.iter().position(|s| !s.is_finished()) {
        fail("fate-sender", format!("sending task {k} of node {n} still waits on a dead connection"));
    }
}

pub async fn settle() {
    if env::maybe(40) {
        // hours pass, whatever is held, parked or half done
        probe("long_silence");
        simcore::timer(1_000_000_000 * log_uniform(S::Gen, 400_000) as u64).await;
    }
    simcore::calm();
    net::release_all();
    simcore::quiesce().await;
}

/// So many messages of an endless flow may pass between two signs of progress of the other direction.
const FLOOD_BOUND: u64 = 20_000;

async fn endless(tx: mpsc::Sender<Msg>, flow: Shared, kind: Kind, sizes: Sizes, stop: Arc<std::sync::atomic::AtomicBool>) {
    while !stop.load(std::sync::atomic::Ordering::Relaxed) {
        let seq = flow.lock().unwrap().accepted[0];
        let len = sizes.draw(kind, 0, seq);
        flow.lock().unwrap().lens[0].push(len);
        match offer(&tx, msg::msg(0, seq, len), true).await {
            Sent::Accepted => flow.lock().unwrap().accepted[0] += 1,
            Sent::Closed => return,
        }
    }
}

/// One direction never stops; the other must get on all the same.
async fn flood() {
    let codec = draw_codec();
    let kind = codec.kind;
    let limit = [4096, 60_000, 1 << 20, 200][choose(S::Gen, 4) as usize];
    let sizes = Sizes { mode: 0, limit, cap: 400 };
    let q = [draw_queue(), if env::maybe(700) { range(S::Gen, 1, 6) as usize } else { draw_queue() }];
    env::draw(400_000);
    simcore::with(|s| {
        // the simulated machine must be fair, and both directions equally fast
        if s.cfg.strategy == simcore::Strategy::Priority {
            s.cfg.strategy = simcore::Strategy::Random;
        }
        s.cfg.net.capacity = s.cfg.net.capacity.max(4096);
        s.cfg.net.lat_min = s.cfg.net.lat_min.min(20_000);
        s.cfg.net.lat_max = s.cfg.net.lat_max.min(s.cfg.net.lat_min + 5_000);
    });
    let (sa, sb) = net::pair(1, 2);
    let ab = new_flow("1->2", 1);
    let ba = new_flow("2->1", range(S::Gen, 1, 2) as usize);
    let mut a = start_end(1, sa, ab.clone(), ba.clone(), codec, limit, q[0], q[0]);
    let mut b = start_end(2, sb, ba.clone(), ab.clone(), codec, limit, q[1], q[1]);
    simcore::trace(|| format!("codec {codec:?} limit {limit} queues {q:?} flood"));
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let tx = a.tx.clone().unwrap();
    a.senders.push(simcore::spawn_on(Some(1), "flood", endless(tx, ab.clone(), kind, sizes, stop.clone())));
    simcore::timer(1_000 * log_uniform(S::Gen, 500) as u64).await;
    launch(&mut b, kind, sizes, false, 40, true);
    let (mut seen, mut mark) = (0, ab.lock().unwrap().total_delivered());
    loop {
        simcore::timer(20_000).await;
        let passed = ab.lock().unwrap().total_delivered();
        let (accepted, delivered) = {
            let f = ba.lock().unwrap();
            (f.total_accepted(), f.total_delivered())
        };
        if accepted == delivered && b.senders.iter().all(|s| s.is_finished()) || simcore::failed() || a.conn.is_finished() || b.conn.is_finished() {
            break;
        }
        if accepted + delivered != seen {
            seen = accepted + delivered;
            mark = passed;
        }
        if passed - mark > FLOOD_BOUND {
            fail("starved", format!("2->1: {accepted} messages accepted, {delivered} delivered, and nothing moves while {} messages are delivered the other way", passed - mark));
            break;
        }
    }
    simcore::note_state(3 << 40 | (ab.lock().unwrap().total_delivered() / 64).min(1000));
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    probe("flood_outlasted");
    settle().await;
    check_settled(&[&a, &b]);
}

/// The environment of a run with very many steps.
pub fn long_run() {
    env::draw(20_000_000);
    simcore::with(|s| {
        s.cfg.max_steps = 200_000_000;
        s.cfg.preempt_mean = if s.cfg.preempt_mean > 0 { s.cfg.preempt_mean.max(150) } else { 0 };
        s.cfg.net.capacity = s.cfg.net.capacity.max(4096);
        s.rearm();
    });
}

/// A connection that lives long.
async fn long_life() {
    let codec = draw_codec();
    let kind = codec.kind;
    let limit = [4096, 60_000, 1 << 20, 200][choose(S::Gen, 4) as usize];
    let sizes = Sizes { mode: 0, limit, cap: 400 };
    let q = [range(S::Gen, 1, 300) as usize, range(S::Gen, 1, 300) as usize];
    long_run();
    let (sa, sb) = net::pair(1, 2);
    let ab = new_flow("1->2", 1);
    let ba = new_flow("2->1", 1);
    let mut a = start_end(1, sa, ab.clone(), ba.clone(), codec, limit, q[0], q[0]);
    let mut b = start_end(2, sb, ba, ab, codec, limit, q[1], q[1]);
    let counts = [range(S::Gen, 66_000, 80_000) as u64, if env::maybe(500) { range(S::Gen, 66_000, 80_000) as u64 } else { 50 }];
    launch(&mut a, kind, sizes, false, counts[0], true);
    launch(&mut b, kind, sizes, false, counts[1], true);
    simcore::quiesce().await;
    settle().await;
    check_settled(&[&a, &b]);
    probe("long_life");
    // and it is as good as new
    launch(&mut a, kind, sizes, false, 20, true);
    launch(&mut b, kind, sizes, false, 20, true);
    settle().await;
    check_settled(&[&a, &b]);
}

pub async fn world(profile: u32) {
    if profile == 6 {
        return flood().await;
    }
    if profile == 7 {
        return long_life().await;
    }
    let big = profile == 5;
    let codec = if big { draw_big_codec() } else { draw_codec() };
    let kind = codec.kind;
    let limit = if big { draw_big_limit() } else { draw_limit(profile) };
    let cap = if big { limit } else { [400, 4096, 60_000][weighted(S::Gen, &[5, 3, 1])] };
    let mode = if profile == 4 { range(S::Gen, 2, 4) } else { weighted(S::Gen, &[3, 2, 1, 1, 3]) as u32 } as usize;
    let sizes = Sizes { mode, limit, cap };
    let rounds = range(S::Gen, 1, 3);
    let ns = [range(S::Gen, 1, 3) as usize, choose(S::Gen, 4) as usize];
    let noise = kind == Kind::Frame && env::maybe(500);
    let mut q = [draw_queue(), draw_queue()];
    if profile == 1 {
        q = [range(S::Gen, 1, 12) as usize, range(S::Gen, 1, 12) as usize];
    }
    let chan = q.map(|q| if env::maybe(200) { range(S::Gen, 1, 20) as usize } else { q });
    let count: u64 = match weighted(S::Gen, &[5, 3, 1]) {
        0 => 12,
        1 => 60,
        _ => 300,
    }
    .min(2_000_000 / (ns[0].max(ns[1]) as u64 * cap.min(limit) as u64) + 2);
    let count = if big { (15_000_000 / (rounds as u64 * ns[0].max(ns[1]) as u64 * limit as u64)).clamp(1, 20) } else { count };
    let bytes = count as usize * ns[0].max(ns[1]) * rounds as usize * sizes.cap.min(limit);
    env::draw(bytes);
    let (sa, sb) = net::pair(1, 2);
    net::tap(sa);
    net::tap(sb);
    let ab = new_flow("1->2", ns[0]);
    let ba = new_flow("2->1", ns[1]);
    let mut a = start_end(1, sa, ab.clone(), ba.clone(), codec, limit, q[0], chan[0]);
    let mut b = start_end(2, sb, ba, ab, codec, limit, q[1], chan[1]);
    simcore::trace(|| format!("codec {codec:?} limit {limit} queues {q:?} channels {chan:?} senders {ns:?} rounds {rounds} count {count} sizes {sizes:?}"));

    for _ in 0..rounds {
        let blocked = profile == 1 || env::maybe(150);
        if blocked {
            // the peer (or the network) takes nothing for now
            simcore::fault(Fault::Custom1);
            net::hold(sa, true);
            if env::maybe(500) {
                net::hold(sb, true);
            }
        }
        let eager = env::maybe(300);
        let c = if blocked && profile == 1 { count.max(5 * q[0].max(chan[0]) as u64 + 10) } else { count };
        launch(&mut a, kind, sizes, noise, c, eager);
        launch(&mut b, kind, sizes, noise, count, eager);
        if blocked {
            simcore::quiesce().await;
            check_blocked(&a, kind, limit);
            check_blocked(&b, kind, limit);
            if simcore::failed() {
                return;
            }
            if env::maybe(300) {
                net::hold(sa, false);
            }
        }
        let events = if env::maybe(600) { range(S::Gen, 1, 8) } else { 0 };
        let ch = simcore::spawn_on(Some(0), "chaos", chaos([sa, sb], events));
        if env::maybe(300) {
            simcore::timer(1_000 * log_uniform(S::App, 20_000) as u64).await;
        } else {
            simcore::quiesce().await;
        }
        ch.abort();
        settle().await;
        check_settled(&[&a, &b]);
        check_tap(&a, kind, limit);
        check_tap(&b, kind, limit);
        if simcore::failed() {
            return;
        }
        a.senders.clear();
        b.senders.clear();
        probe("rounds_settled");
    }

    // ------------------------------------------------ the end
    let end = match profile {
        3 => weighted(S::Gen, &[0, 6, 3]),
        2 => weighted(S::Gen, &[0, 1, 1, 2, 2, 2, 2, 1]),
        _ => weighted(S::Gen, &[6, 2, 1, 1, 1, 1, 1, 1]),
    };
    if end == 0 {
        return;
    }
    // faults again, now around the end
    env::draw(bytes);
    if env::maybe(300) {
        net::hold(sa, true);
    }
    let strict = end == 1;
    let (last_a, last_b) = (choose(S::Gen, count as u32 + 1) as u64, if strict { 0 } else { count });
    launch(&mut a, kind, sizes, noise, last_a, env::maybe(500));
    launch(&mut b, kind, sizes, noise, last_b, env::maybe(500));
    if end == 3 {
        let mut f = a.inn.lock().unwrap();
        let n = f.total_delivered() + choose(S::Gen, 10) as u64;
        f.disconnect_at = Some(n);
    }
    match weighted(S::Gen, &[2, 2, 3]) {
        0 => {}
        1 => tokio::task::yield_now().await,
        _ => simcore::timer(1_000 * log_uniform(S::Gen, 3000) as u64).await,
    }
    let name = ["", "drop_handles_quiet_peer", "drop_handles", "reactor_disconnects", "task_dropped", "reset", "peer_crashes", "both_drop_handles"][end];
    probe(name);
    simcore::trace(|| format!("ending: {name}"));
    match end {
        1 | 2 => a.tx = None,
        3 => {
            // until a message makes the reactor ask for it
            let mut f = a.inn.lock().unwrap();
            if f.lens.is_empty() {
                f.disconnect_at = None;
                drop(f);
                a.conn.abort();
            }
        }
        4 => {
            simcore::fault(Fault::TaskAbort);
            a.conn.abort()
        }
        5 => net::reset(sa),
        6 => simcore::crash_node(2),
        _ => {
            a.tx = None;
            b.tx = None;
        }
    }
    if env::maybe(400) {
        simcore::timer(1_000 * log_uniform(S::App, 5_000) as u64).await;
    }
    settle().await;
    if end == 3 && !a.conn.is_finished() {
        // too few messages came: send enough now
        let (asked, have) = {
            let f = a.inn.lock().unwrap();
            (f.disconnect_at.unwrap_or(0), f.total_delivered())
        };
        if have >= asked && a.inn.lock().unwrap().batches > 0 && asked > 0 {
            return fail("fate-open", "the reactor asked to disconnect and the connection goes on".to_string());
        }
        if b.tx.is_some() {
            b.senders.clear();
            for s in 0..b.out.lock().unwrap().accepted.len() {
                let plan = SendPlan { sender: s as u32, count: 12, kind, sizes, noise: false, eager: true };
                let tx = b.tx.clone().unwrap();
                b.senders.push(simcore::spawn_on(Some(2), "sender", sender(tx, b.out.clone(), plan)));
            }
            settle().await;
        }
    }
    check_gone(&a);
    check_gone(&b);
    if (end == 1 || end == 2) && !simcore::failed() {
        // an orderly close: everything accepted was written before the socket closed
        match parse_tap(sa, &a.out, kind, limit) {
            Err(why) => fail("wire-bytes", why),
            Ok(seen) => {
                let f = a.out.lock().unwrap();
                if seen != f.accepted {
                    fail(
                        "close-lost-outbound",
                        format!("{}: accepted {:?}, written before the close {:?}", f.name, f.accepted, seen),
                    );
                }
            }
        }
    }
    if strict && !simcore::failed() {
        let f = a.out.lock().unwrap();
        if f.accepted != f.delivered {
            fail(
                "close-lost-inbound",
                format!("{}: accepted {:?}, delivered before the end {:?}", f.name, f.accepted, f.delivered),
            );
        }
    }
}
