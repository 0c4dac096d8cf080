//! One real `Connection` against a scripted peer that reads and writes raw bytes.
//!
//! Profiles: 0 bytes sent, 1 legal bytes received, 2 hostile bytes received, 3 oversized send,
//! 4 both directions with the peer closing one or both ways, 5 and 6 legal and hostile bytes in megabytes.

use simcore::choice::S;
use simcore::net;
use simcore::{choose, fail, log_uniform, probe, range, weighted, Fault};

use super::conn::{self, check_gone, draw_codec, draw_limit, draw_queue, fit, new_flow, settle, start_end, End, Sizes};
use crate::env;
use crate::msg::{self, Hint, Kind, Msg, Next};
use crate::peer::{Gone, Peer};

struct World {
    e: End,
    peer: Peer,
    codec: msg::Codec,
    limit: usize,
    sizes: Sizes,
}

fn small_limit(profile: u32) -> usize {
    draw_limit(if matches!(profile, 1 | 2) && env::maybe(500) { 4 } else { 0 })
}
fn setup(profile: u32, bytes_factor: usize) -> World {
    let big = profile > 4;
    let codec = if big { conn::draw_big_codec() } else { draw_codec() };
    let limit = if big { conn::draw_big_limit() } else { small_limit(profile) };
    let cap = if big { limit } else { [400, 4096, 60_000][weighted(S::Gen, &[5, 3, 1])] };
    let mode = weighted(S::Gen, &[2, 2, 2, 1, 4]);
    let sizes = Sizes { mode, limit, cap };
    let queue = draw_queue();
    let chan = if env::maybe(200) { range(S::Gen, 1, 20) as usize } else { queue };
    env::draw(bytes_factor * cap.min(limit));
    let (sa, sb) = net::pair(1, 2);
    net::tap(sa);
    let out = new_flow("out", 1);
    let inn = new_flow("in", 1);
    let e = start_end(1, sa, out, inn, codec, limit, queue, chan);
    let peer = Peer::new(2, tokio::net::TcpStream::from_sim(sb));
    simcore::trace(|| format!("codec {codec:?} limit {limit} queue {queue} channel {chan} sizes {sizes:?}"));
    World { e, peer, codec, limit, sizes }
}

/// The bytes of the next legal frame; the flow records the message in it.
fn legal(w: &World, noise: bool) -> Vec<u8> {
    if noise && w.codec.kind == Kind::Frame && simcore::chance(S::App, 250) {
        let max = w.sizes.limit.min(w.sizes.cap) - 5;
        return msg::skip_frame(log_uniform(S::App, max as u32) as usize);
    }
    let mut f = w.e.inn.lock().unwrap();
    let seq = f.accepted[0];
    let len = w.sizes.draw(w.codec.kind, 0, seq);
    f.lens[0].push(len);
    f.accepted[0] += 1;
    drop(f);
    let frame = msg::wire(w.codec.kind, &msg::msg(0, seq, len));
    if w.codec.kind == Kind::Prost && noise && simcore::chance(S::App, 100) {
        let padded = msg::pad_length(&frame, range(S::App, 1, 9) as usize);
        if padded.len() <= w.limit {
            probe("padded_length");
            return padded;
        }
    }
    frame
}

pub async fn world(profile: u32) {
    match profile {
        0 => sends().await,
        1 => receives(false).await,
        2 => hostile(false).await,
        3 => oversized_send().await,
        4 => closing().await,
        5 => receives(true).await,
        _ => hostile(true).await,
    }
}

/// One sending task; returns the exact bytes its accepted messages must occupy.
async fn send_all(w: &World, count: u64, noise: bool) -> Vec<u8> {
    let mut want = Vec::new();
    let eager = simcore::chance(S::App, 400);
    let tx = w.e.tx.clone().unwrap();
    for _ in 0..count {
        if noise && simcore::chance(S::App, 250) {
            let empty = simcore::chance(S::App, 500);
            let max = w.sizes.limit.min(w.sizes.cap) - 5;
            let len = if empty { 0 } else { log_uniform(S::App, max as u32) as usize };
            let n = Msg { sender: if empty { msg::NOISE_EMPTY } else { msg::NOISE_SKIP }, seq: 0, body: vec![7; len] };
            match conn::offer(&tx, n.clone(), eager).await {
                conn::Sent::Accepted => want.extend(msg::wire(w.codec.kind, &n)),
                conn::Sent::Closed => return want,
            }
        }
        let seq = w.e.out.lock().unwrap().accepted[0];
        let len = w.sizes.draw(w.codec.kind, 0, seq);
        let m = msg::msg(0, seq, len);
        match conn::offer(&tx, m.clone(), eager).await {
            conn::Sent::Accepted => {
                w.e.out.lock().unwrap().accepted[0] += 1;
                probe("work");
                want.extend(msg::wire(w.codec.kind, &m));
            }
            conn::Sent::Closed => return want,
        }
        if !eager {
            env::pause().await;
        }
    }
    want
}

fn compare(heard: &[u8], want: &[u8], complete: bool, lost_class: &str) {
    if let Some(i) = (0..heard.len()).find(|i| want.get(*i) != Some(&heard[*i])) {
        return fail("wire-bytes", format!("byte {i} on the wire is {:?}, expected {:?} (of {})", heard[i], want.get(i), want.len()));
    }
    if complete && heard.len() < want.len() {
        fail(lost_class, format!("{} of {} bytes of accepted messages reached the peer", heard.len(), want.len()));
    }
}

async fn sends() {
    let n = match weighted(S::Gen, &[4, 3, 1]) {
        0 => range(S::Gen, 1, 12),
        1 => range(S::Gen, 1, 60),
        _ => range(S::Gen, 100, 320),
    };
    let mut w = setup(0, n as usize * 2);
    let noise = w.codec.kind == Kind::Frame && env::maybe(500);
    let rounds = range(S::Gen, 1, 3);
    let mut want = Vec::new();
    w.peer.start_reading(env::maybe(600));
    for _ in 0..rounds {
        let blocked = env::maybe(250);
        if blocked {
            simcore::fault(Fault::Custom1);
            w.peer.stop_reading();
        }
        if blocked {
            // enough to fill everything, or not
            match env::poll_times(send_all(&w, 1, noise), 1).await {
                Some(b) => want.extend(b),
                None => {
                    // the message may have been accepted or not: only a prefix can be compared from here on
                    w.peer.start_reading(false);
                    settle().await;
                    return;
                }
            }
            w.peer.start_reading(env::maybe(600));
        }
        want.extend(send_all(&w, n as u64, noise).await);
        if env::maybe(500) {
            // everything gets there with no further stimulus
            settle().await;
            if w.e.conn.is_finished() {
                return fail("unexpected-end", "connection ended although nothing ended it");
            }
            compare(&w.peer.bytes(), &want, true, "stall");
            if simcore::failed() {
                return;
            }
            env::draw(n as usize * w.sizes.cap.min(w.limit));
        }
    }
    match weighted(S::Gen, &[5, 2]) {
        0 => {
            // orderly: the last handle goes away, in the middle of writing
            probe("orderly");
            w.e.tx = None;
            if env::maybe(500) {
                simcore::timer(1_000 * log_uniform(S::App, 2000) as u64).await;
            }
            settle().await;
            compare(&w.peer.bytes(), &want, true, "close-lost-outbound");
            if w.peer.gone() != Gone::Eof && !simcore::failed() {
                fail("close-not-orderly", format!("after an orderly close the peer sees {:?}", w.peer.gone()));
            }
            check_gone(&w.e);
        }
        _ => {
            probe("abrupt");
            simcore::fault(Fault::TaskAbort);
            w.e.conn.abort();
            settle().await;
            compare(&w.peer.bytes(), &want, false, "");
            check_gone(&w.e);
        }
    }
}

async fn receives(big: bool) {
    let n = if big {
        range(S::Gen, 1, 6)
    } else {
        match weighted(S::Gen, &[4, 4, 1]) {
        0 => range(S::Gen, 1, 12),
        1 => range(S::Gen, 1, 80),
        _ => range(S::Gen, 100, 400),
        }
    };
    let w = setup(if big { 5 } else { 1 }, n as usize);
    let rounds = range(S::Gen, 1, if big { 2 } else { 3 });
    let burst = env::maybe(500);
    for r in 0..rounds {
        let mut bytes = Vec::new();
        for _ in 0..n {
            bytes.extend(legal(&w, true));
            if !burst && bytes.len() > 2000 {
                if !w.peer.write(&bytes).await {
                    break;
                }
                bytes.clear();
            }
        }
        if env::maybe(300) {
            // nothing arrives for a while
            net::hold(w.peer.stream.sim_id(), true);
            let id = w.peer.stream.sim_id();
            let t = 1_000 * log_uniform(S::App, 2000) as u64;
            simcore::spawn_on(Some(0), "release", async move {
                simcore::timer(t).await;
                net::hold(id, false);
            });
        }
        let wrote = w.peer.write(&bytes).await;
        if r + 1 == rounds && wrote && env::maybe(600) {
            // an orderly end right behind the bytes
            probe("eof_behind_bytes");
            match choose(S::Gen, 2) {
                0 => w.peer.half_close(),
                _ => {
                    w.peer.half_close();
                    net::close(w.peer.stream.sim_id());
                }
            }
            if env::maybe(500) {
                simcore::timer(1_000 * log_uniform(S::App, 2000) as u64).await;
            }
            settle().await;
            let f = w.e.inn.lock().unwrap();
            if f.accepted != f.delivered {
                fail("close-lost-inbound", format!("sent {:?} before the orderly end, delivered {:?}", f.accepted, f.delivered));
            }
            drop(f);
            return check_gone(&w.e);
        }
        settle().await;
        if w.e.conn.is_finished() || !wrote {
            let f = w.e.inn.lock().unwrap();
            return fail("legal-refused", format!("connection ended on legal input; sent {:?}, delivered {:?}", f.accepted, f.delivered));
        }
        {
            let f = w.e.inn.lock().unwrap();
            if f.accepted != f.delivered {
                return fail("stall", format!("sent {:?}, delivered {:?}, nothing left to happen", f.accepted, f.delivered));
            }
        }
        env::draw(n as usize * w.sizes.cap.min(w.limit));
    }
    w.peer.close();
    settle().await;
    check_gone(&w.e);
}

/// What the connection must do about a stream of bytes.
#[derive(Debug, PartialEq)]
pub enum Verdict {
    /// all frames are legal, or the last one is incomplete
    Open,
    MustEnd(&'static str),
    Unspecified,
}
/// number of messages in the legal prefix, and the verdict about the rest
pub fn judge<M: msg::Wire>(c: msg::Codec, bytes: &[u8], limit: usize) -> (Vec<M>, Verdict) {
    let mut at = 0;
    let mut msgs = Vec::new();
    loop {
        if at == bytes.len() {
            return (msgs, Verdict::Open);
        }
        let rest = &bytes[at..];
        match msg::reference_in::<M>(c.kind, rest, limit) {
            Next::Message(n, m) => {
                msgs.push(m);
                at += n;
            }
            Next::Skip(n) => at += n,
            Next::Incomplete => return (msgs, Verdict::Open),
            Next::Unspecified => return (msgs, Verdict::Unspecified),
            Next::Bad("frame over the limit") => {
                // the announcement alone must end the connection when the codec passes it on; otherwise it has to
                // end once as much as the limit has arrived
                let told = match c.kind {
                    Kind::Prost => payload_len(c.kind, rest) > limit as u64,
                    Kind::MessagePack => true,
                    Kind::Frame => match (rest[0], c.hint) {
                        (msg::F_SKIP, _) | (_, Hint::Total) => true,
                        (_, Hint::Payload) => payload_len(c.kind, rest) > limit as u64,
                        _ => false,
                    },
                };
                let v = if told || rest.len() >= limit { Verdict::MustEnd("frame over the limit") } else { Verdict::Unspecified };
                return (msgs, v);
            }
            Next::Bad(why) => return (msgs, Verdict::MustEnd(why)),
        }
    }
}
fn payload_len(k: Kind, b: &[u8]) -> u64 {
    match k {
        Kind::Prost => prost::decode_length_delimiter(b).map(|x| x as u64).unwrap_or(u64::MAX),
        _ => u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as u64,
    }
}

/// Something that is not legal, or nearly.
pub fn poison<M: msg::Wire>(k: Kind, limit: usize, sample: &M) -> (&'static str, Vec<u8>) {
    let l = limit as u64;
    let near = l + choose(S::App, 16) as u64;
    let some = match weighted(S::App, &[3, 3, 2]) {
        0 => near,
        1 => l.saturating_add(1 + log_uniform(S::App, u32::MAX - 1) as u64),
        _ => [u32::MAX as u64, u32::MAX as u64 - 4, u32::MAX as u64 - 5, i32::MAX as u64, 1 << 31][choose(S::App, 5) as usize],
    };
    match weighted(S::App, &[4, 4, 3, 3, 2, 2]) {
        0 => {
            // announces too much
            let mut b = Vec::new();
            match k {
                Kind::Prost => {
                    let v = if simcore::chance(S::App, 300) {
                        [u64::MAX, u64::MAX - 9, u64::MAX - 10, i64::MAX as u64, i64::MAX as u64 - 9, 1 << 63][choose(S::App, 6) as usize]
                    } else {
                        some
                    };
                    msg::varint(v, &mut b)
                }
                Kind::MessagePack => {
                    b.push(0xce);
                    b.extend((some.min(u32::MAX as u64) as u32).to_be_bytes());
                }
                Kind::Frame => {
                    b.push(choose(S::App, 2) as u8);
                    b.extend((some.min(u32::MAX as u64) as u32).to_be_bytes());
                }
            }
            ("announces too much", b)
        }
        1 => {
            // a whole frame a little over the limit
            let over = limit + 1 + choose(S::App, 14) as usize;
            if over > 100_000 && !simcore::chance(S::App, 500) {
                return ("garbage", vec![0xff; 12]);
            }
            let p = vec![0x5a; over];
            let mut f = msg::enframe(k, &p);
            f.truncate(over + choose(S::App, 10) as usize);
            ("frame over the limit", f)
        }
        2 => {
            // a frame of legal length whose payload does not decode
            let mut p = msg::payload(k, sample);
            if p.is_empty() {
                p = vec![0xff];
            }
            match choose(S::App, 3) {
                0 => p = vec![0xff; (1 + choose(S::App, 12) as usize).min(limit.saturating_sub(10).max(1))],
                1 => {
                    let i = choose(S::App, p.len() as u32) as usize;
                    p[i] ^= 1 << choose(S::App, 8);
                }
                _ => {
                    p.pop();
                }
            }
            ("payload does not decode", msg::enframe(k, &p))
        }
        3 => {
            // length that is no length
            let b = match k {
                Kind::Prost => {
                    let mut b = vec![0x80 | choose(S::App, 128) as u8; 9 + choose(S::App, 4) as usize];
                    if simcore::chance(S::App, 300) {
                        b.push(2);
                    }
                    b
                }
                Kind::MessagePack => vec![choose(S::App, 0xce) as u8, 0, 0, 0, 4, 1, 2, 3, 4],
                Kind::Frame => vec![2 + choose(S::App, 200) as u8, 0, 0, 0, 4, 1, 2, 3, 4],
            };
            ("length is no length", b)
        }
        4 => {
            // contents longer or shorter than announced
            let p = msg::payload(k, sample);
            let mut f = msg::enframe(k, &p);
            let at = if k == Kind::Prost { 0 } else { 4 };
            f[at] = f[at].wrapping_add([1u8, 255, 2, 5][choose(S::App, 4) as usize]);
            ("lying length", f)
        }
        _ => {
            let n = log_uniform(S::App, 300) as usize;
            let mut b = msg::body(choose(S::App, 1 << 30) as u64, n);
            if simcore::chance(S::App, 300) {
                b.iter_mut().for_each(|x| *x |= 0x80);
            }
            ("garbage", b)
        }
    }
}

async fn hostile(big: bool) {
    let n = range(S::Gen, 0, if big { 3 } else { 12 });
    let w = setup(if big { 6 } else { 2 }, if big { 4 } else { 40 });
    let mut bytes = Vec::new();
    for _ in 0..n {
        bytes.extend(legal(&w, true));
    }
    let sample_len = fit(w.codec.kind, 0, 0, (w.limit.min(60)).max(20));
    let sample = msg::msg(0, n as u64, sample_len);
    let (what, p) = if env::maybe(200) {
        // a legal frame that never finishes
        let f = msg::wire(w.codec.kind, &sample);
        let keep = choose(S::App, f.len() as u32) as usize;
        ("truncated", f[..keep].to_vec())
    } else {
        poison(w.codec.kind, w.limit, &sample)
    };
    probe(what);
    simcore::fault(Fault::HostileBytes);
    bytes.extend(&p);
    // sometimes a lot follows it
    match weighted(S::App, &[4, 3, 2]) {
        0 => {}
        1 => {
            for _ in 0..range(S::App, 1, 10) {
                bytes.extend(msg::wire(w.codec.kind, &msg::msg(0, 0, sample_len)));
            }
        }
        _ => {
            let n = (w.limit + 20).min(if big { 9_000_000 } else { 6_000 });
            bytes.extend(msg::body(99, n));
        }
    }
    // what a correct implementation may deliver is decided by the reference decoder on the whole stream
    let (msgs, verdict) = judge::<Msg>(w.codec, &bytes, w.limit);
    {
        let mut f = w.e.inn.lock().unwrap();
        f.lens[0] = msgs.iter().map(|m| m.body.len()).collect();
    }
    let legal_seq: Vec<Msg> = msgs;
    simcore::trace(|| format!("{what}: {} bytes, {} legal messages, then {verdict:?}", bytes.len(), legal_seq.len()));
    w.e.inn.lock().unwrap().collect = Some(Vec::new());
    let wrote = w.peer.write(&bytes).await;
    settle().await;
    let got = w.e.inn.lock().unwrap().collect.take().unwrap();
    if let Some(i) = (0..got.len().min(legal_seq.len())).find(|i| got[*i] != legal_seq[*i]) {
        return fail("delivery-altered", format!("{what}: delivered message {i} differs from the one sent"));
    }
    match verdict {
        Verdict::Unspecified => probe("unspecified"),
        Verdict::Open => {
            probe("legal_after_all");
            if w.e.conn.is_finished() || !wrote {
                return fail("legal-refused", format!("{what}: connection ended on legal input"));
            }
            if got.len() != legal_seq.len() {
                return fail("stall", format!("{what}: {} messages sent, {} delivered", legal_seq.len(), got.len()));
            }
        }
        Verdict::MustEnd(why) => {
            probe("must_end");
            if got.len() > legal_seq.len() {
                return fail("hostile-delivered", format!("{what}: {} messages delivered, only {} were legal", got.len(), legal_seq.len()));
            }
            if !w.e.conn.is_finished() {
                return fail("hostile-open", format!("{what}: {why}, but the connection stays open"));
            }
            return check_gone(&w.e);
        }
    }
    // whatever is left of it ends with the peer
    w.peer.close();
    settle().await;
    check_gone(&w.e);
}

async fn oversized_send() {
    let mut w = setup(3, 40);
    w.sizes.cap = w.limit.min(3000).max(24);
    w.peer.start_reading(env::maybe(500));
    let before = send_all(&w, range(S::Gen, 1, 20) as u64, false).await;
    let k = w.codec.kind;
    let seq = w.e.out.lock().unwrap().accepted[0];
    let over = 1 + match weighted(S::Gen, &[3, 1]) {
        0 => choose(S::Gen, 12) as usize,
        _ => log_uniform(S::Gen, 100_000) as usize,
    };
    let mut len = w.limit.saturating_sub(40);
    while msg::wire(k, &msg::msg(0, seq, len)).len() < w.limit + over {
        let have = msg::wire(k, &msg::msg(0, seq, len)).len();
        len += ((w.limit + over - have) / 2).max(1);
    }
    let m = msg::msg(0, seq, len);
    simcore::trace(|| format!("oversized message: {} bytes of {}", msg::wire(k, &m).len(), w.limit));
    let tx = w.e.tx.clone().unwrap();
    probe("oversized");
    if let conn::Sent::Closed = conn::offer(&tx, m, true).await {
        return fail("unexpected-end", "connection ended before the oversized message");
    }
    let follow = msg::msg(0, seq + 1, 0);
    let _ = env::poll_times(tx.send(follow), 2).await;
    drop(tx);
    settle().await;
    if !w.e.conn.is_finished() {
        return fail("oversize-open", "the connection goes on after a message that is too large to send");
    }
    let heard = w.peer.bytes();
    if heard.len() > before.len() {
        return fail("oversize-sent", format!("{} bytes on the wire, {} of them legal", heard.len(), before.len()));
    }
    compare(&heard, &before, false, "");
    check_gone(&w.e);
}

async fn closing() {
    let n = range(S::Gen, 1, 30);
    let mut w = setup(4, n as usize * 3);
    if env::maybe(700) {
        w.peer.start_reading(env::maybe(500));
    }
    // both directions at once
    let tx = w.e.tx.clone().unwrap();
    let out = w.e.out.clone();
    let plan = conn::SendPlan { sender: 0, count: n as u64, kind: w.codec.kind, sizes: w.sizes, noise: false, eager: env::maybe(500) };
    let s = simcore::spawn_on(Some(1), "sender", conn::sender(tx, out, plan));
    w.e.senders.push(s);
    let mut bytes = Vec::new();
    for _ in 0..choose(S::Gen, n + 1) {
        bytes.extend(legal(&w, true));
    }
    let stream = w.peer.stream.clone();
    let writer = simcore::spawn_on(Some(2), "raw writer", async move { crate::peer::write(&stream, &bytes).await });
    if env::maybe(850) {
        simcore::timer(1_000 * log_uniform(S::Gen, 20_000) as u64).await;
    }
    let sb = w.peer.stream.sim_id();
    match weighted(S::Gen, &[3, 3, 2]) {
        0 => {
            probe("peer_half_closes");
            writer.abort();
            w.peer.half_close();
        }
        1 => {
            probe("peer_closes");
            writer.abort();
            w.peer.stop_reading();
            net::close(sb);
        }
        _ => {
            probe("reset");
            net::reset(sb);
        }
    }
    if env::maybe(400) {
        simcore::timer(1_000 * log_uniform(S::App, 3000) as u64).await;
    }
    settle().await;
    check_gone(&w.e);
}
