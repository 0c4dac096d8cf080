//! The simulated network: stream sockets with bounded buffers, delayed FIFO segments, cached
//! edge-triggered readiness as tokio presents it, orderly and abortive closes.

use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::task::{Context, Poll, Waker};

use crate::choice::S;
use crate::{coop_ready, coop_spend, point, with, Fault, NodeId, Sim, P_NET};

pub type SockId = usize;

#[derive(Clone, Debug)]
pub struct NetCfg {
    /// bytes in flight and unread that one direction of a connection can hold
    pub capacity: usize,
    pub lat_min: u64,
    pub lat_max: u64,
    /// per mille
    pub short_read: u32,
    pub short_write: u32,
    pub eintr: u32,
    pub spurious: u32,
    pub delay: u32,
    pub split: u32,
    /// free fraction (in 1/8) of the buffer needed before writability is signalled again
    pub hysteresis: usize,
    pub max_iov: usize,
    pub accept_error: u32,
    pub sockopt_error: u32,
    pub connect_refused: u32,
}
impl Default for NetCfg {
    fn default() -> Self {
        NetCfg {
            capacity: 1 << 20,
            lat_min: 1_000,
            lat_max: 1_000,
            short_read: 0,
            short_write: 0,
            eintr: 0,
            spurious: 0,
            delay: 0,
            split: 0,
            hysteresis: 3,
            max_iov: 1024,
            accept_error: 0,
            sockopt_error: 0,
            connect_refused: 0,
        }
    }
}
impl NetCfg {
    pub fn calm(&mut self) {
        self.short_read = 0;
        self.short_write = 0;
        self.eintr = 0;
        self.spurious = 0;
        self.delay = 0;
        self.split = 0;
        self.accept_error = 0;
        self.sockopt_error = 0;
        self.connect_refused = 0;
    }
}

enum Seg {
    Data(Vec<u8>),
    Fin,
    Rst,
}

#[derive(Default)]
struct Sock {
    node: NodeId,
    local: Option<SocketAddr>,
    remote: Option<SocketAddr>,
    peer: SockId,
    // receiving
    rx: VecDeque<u8>,
    rx_fin: bool,
    rst: bool,
    rst_reported: bool,
    rd_ready: bool,
    rd_closed: bool,
    rd_waker: Option<Waker>,
    rd_waiters: Vec<Waker>,
    // sending
    capacity: usize,
    /// bytes taken from the application and not yet read (and acknowledged) by the peer
    outstanding: usize,
    nospace: bool,
    wr_ready: bool,
    wr_closed: bool,
    wr_waker: Option<Waker>,
    wr_waiters: Vec<Waker>,
    fin_sent: bool,
    abortive: bool,
    /// segments on their way to the peer, with the time each becomes deliverable
    wire: VecDeque<(u64, Seg)>,
    last_at: u64,
    held: bool,
    closed: bool,
    nodelay: bool,
    sent_bytes: u64,
    read_bytes: u64,
    tap: Option<Vec<u8>>,
    /// times its readiness was announced
    events: u64,
    accepted: bool,
}

struct Listener {
    id: u64,
    node: NodeId,
    backlog: VecDeque<SockId>,
    wakers: Vec<Waker>,
    poll_waker: Option<Waker>,
}

#[derive(Default)]
pub struct Net {
    socks: Vec<Sock>,
    listeners: BTreeMap<SocketAddr, Listener>,
    next_port: u16,
    next_listener: u64,
    /// connections opened, in order: (connecting side, accepting side)
    opened: Vec<(SockId, SockId)>,
    tap_all: bool,
}

fn err(code: i32) -> io::Error {
    io::Error::from_raw_os_error(code)
}
const EINTR: i32 = 4;
const EPIPE: i32 = 32;
const EMFILE: i32 = 24;
const EINVAL: i32 = 22;
const EADDRINUSE: i32 = 98;
const ECONNABORTED: i32 = 103;
const ECONNRESET: i32 = 104;
const ENOTCONN: i32 = 107;
const ECONNREFUSED: i32 = 111;

type Wakes = Vec<Waker>;
fn wake_all(w: Wakes) {
    for w in w {
        w.wake();
    }
}

impl Sock {
    fn wake_rd(&mut self, out: &mut Wakes) {
        self.events += 1;
        self.rd_ready = true;
        out.extend(self.rd_waker.take());
        out.append(&mut self.rd_waiters);
    }
    fn wake_wr(&mut self, out: &mut Wakes) {
        self.events += 1;
        self.wr_ready = true;
        out.extend(self.wr_waker.take());
        out.append(&mut self.wr_waiters);
    }
    fn readable_now(&self) -> bool {
        !self.rx.is_empty() || self.rx_fin || self.rst
    }
}

impl Sim {
    fn latency(&mut self) -> u64 {
        let c = &self.cfg.net;
        let (lo, hi, delay) = (c.lat_min, c.lat_max, c.delay);
        let span = ((hi - lo) / 500).min(u32::MAX as u64 - 1) as u32;
        let mut l = lo;
        if span > 0 {
            l += 500 * self.choices.pick(S::Net, span + 1, |r| r.below(span as u64 + 1) as u32) as u64;
        }
        if delay > 0 && self.choices.pick(S::Net, 2, |r| r.permille(delay) as u32) == 1 {
            self.fault(Fault::Delay);
            let k = self.choices.pick(S::Net, 2000, |r| r.below(2000) as u32) as u64;
            l += k * 1_000;
        }
        l
    }
    fn new_sock(&mut self, node: NodeId, local: SocketAddr, remote: SocketAddr) -> SockId {
        let capacity = self.cfg.net.capacity.max(1);
        let tap = self.net.tap_all.then(Vec::new);
        self.net.socks.push(Sock {
            node,
            tap,
            local: Some(local),
            remote: Some(remote),
            capacity,
            ..Default::default()
        });
        self.net.socks.len() - 1
    }
    fn connect_pair(&mut self, a_node: NodeId, b_node: NodeId, a: SocketAddr, b: SocketAddr) -> (SockId, SockId) {
        let x = self.new_sock(a_node, a, b);
        let y = self.new_sock(b_node, b, a);
        self.net.socks[x].peer = y;
        self.net.socks[y].peer = x;
        self.net.opened.push((x, y));
        (x, y)
    }
    fn ephemeral(&mut self, node: NodeId) -> SocketAddr {
        if self.net.next_port == 0 {
            self.net.next_port = 30_000;
        }
        self.net.next_port += 1;
        SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 0, node as u8)), self.net.next_port)
    }
    /// the poller reports the socket's state some time after registration
    fn register(&mut self, id: SockId) {
        let l = self.latency();
        self.schedule(
            l,
            Box::new(move || {
                let mut w = Vec::new();
                with(|s| {
                    let k = &mut s.net.socks[id];
                    if k.closed {
                        return;
                    }
                    if k.outstanding < k.capacity || k.wr_closed {
                        k.wake_wr(&mut w);
                    }
                    if k.readable_now() {
                        k.wake_rd(&mut w);
                    }
                });
                wake_all(w);
            }),
        );
    }
    fn push_seg(&mut self, from: SockId, seg: Seg) {
        let l = self.latency();
        let at = (self.now + l).max(self.net.socks[from].last_at);
        let k = &mut self.net.socks[from];
        k.last_at = at;
        k.wire.push_back((at, seg));
        if !k.held {
            let delay = at - self.now;
            self.schedule(delay, Box::new(move || deliver(from)));
        }
    }
    fn maybe_spurious(&mut self, id: SockId) {
        let p = self.cfg.net.spurious;
        if p > 0 && self.choices.pick(S::Net, 2, |r| r.permille(p) as u32) == 1 {
            let l = self.latency();
            self.schedule(
                l,
                Box::new(move || {
                    let mut w = Vec::new();
                    with(|s| {
                        if s.net.socks[id].closed {
                            return;
                        }
                        s.fault(Fault::SpuriousReady);
                        s.trace(|| format!("spurious readiness on socket {id}"));
                        let k = &mut s.net.socks[id];
                        k.wake_rd(&mut w);
                        k.wake_wr(&mut w);
                    });
                    wake_all(w);
                }),
            );
        }
    }
}

/// Hand every due segment of `from`'s sending direction to its peer.
fn deliver(from: SockId) {
    let mut w = Vec::new();
    with(|s| loop {
        if s.net.socks[from].held {
            break;
        }
        let now = s.now;
        match s.net.socks[from].wire.front() {
            Some((at, _)) if *at <= now => {}
            _ => break,
        }
        let (_, seg) = s.net.socks[from].wire.pop_front().unwrap();
        let to = s.net.socks[from].peer;
        match seg {
            Seg::Data(d) => {
                if s.net.socks[to].closed {
                    // nobody there any more: the data is answered with a reset
                    if !s.net.socks[from].rst {
                        s.trace(|| format!("socket {to} is closed: reset sent to {from}"));
                        s.abort_direction(to);
                    }
                    continue;
                }
                if s.net.socks[to].rst {
                    continue;
                }
                s.trace(|| format!("{} bytes arrive at socket {to}", d.len()));
                s.mix_hash(d.len() as u64 | (to as u64) << 32 | 3 << 60);
                let k = &mut s.net.socks[to];
                k.rx.extend(d);
                k.wake_rd(&mut w);
            }
            Seg::Fin => {
                s.trace(|| format!("end of stream arrives at socket {to}"));
                let k = &mut s.net.socks[to];
                if k.closed || k.rst {
                    continue;
                }
                k.rx_fin = true;
                k.rd_closed = true;
                k.wake_rd(&mut w);
            }
            Seg::Rst => {
                s.trace(|| format!("reset arrives at socket {to}"));
                let k = &mut s.net.socks[to];
                if k.closed {
                    continue;
                }
                k.rst = true;
                k.rd_closed = true;
                k.wr_closed = true;
                k.wire.retain(|(_, g)| matches!(g, Seg::Rst));
                k.wake_rd(&mut w);
                k.wake_wr(&mut w);
            }
        }
    });
    wake_all(w);
}

// ---------------------------------------------------------------- stream operations

pub fn poll_read_ready(id: SockId, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    point(P_NET);
    if !coop_ready(cx) {
        return Poll::Pending;
    }
    let w = cx.waker().clone();
    let r = with(|s| {
        let k = &mut s.net.socks[id];
        if k.rd_ready || k.rd_closed {
            Poll::Ready(Ok(()))
        } else {
            k.rd_waker = Some(w);
            Poll::Pending
        }
    });
    if r.is_ready() {
        coop_spend();
    }
    r
}
pub fn poll_write_ready(id: SockId, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    point(P_NET);
    if !coop_ready(cx) {
        return Poll::Pending;
    }
    let w = cx.waker().clone();
    let r = with(|s| {
        let k = &mut s.net.socks[id];
        if k.wr_ready || k.wr_closed {
            Poll::Ready(Ok(()))
        } else {
            k.wr_waker = Some(w);
            Poll::Pending
        }
    });
    if r.is_ready() {
        coop_spend();
    }
    r
}
/// for readable()/writable(): any number of waiters
pub fn poll_ready_many(id: SockId, read: bool, write: bool, cx: &mut Context<'_>) -> Poll<(bool, bool)> {
    point(P_NET);
    if !coop_ready(cx) {
        return Poll::Pending;
    }
    let w = cx.waker().clone();
    let r = with(|s| {
        let k = &mut s.net.socks[id];
        let r = read && (k.rd_ready || k.rd_closed);
        let wr = write && (k.wr_ready || k.wr_closed);
        if r || wr {
            return Poll::Ready((r, wr));
        }
        if read {
            k.rd_waiters.push(w.clone());
        }
        if write {
            k.wr_waiters.push(w);
        }
        Poll::Pending
    });
    if r.is_ready() {
        coop_spend();
    }
    r
}

/// A read system call guarded by the cached readiness, as tokio's `try_read`.
pub fn try_read(id: SockId, buf: &mut [u8]) -> io::Result<usize> {
    point(P_NET);
    try_read_inner(id, buf, true)
}
pub fn try_peek(id: SockId, buf: &mut [u8]) -> io::Result<usize> {
    point(P_NET);
    try_read_inner(id, buf, false)
}
fn try_read_inner(id: SockId, buf: &mut [u8], consume: bool) -> io::Result<usize> {
    let mut acked = 0;
    let r = with(|s| {
        let k = &s.net.socks[id];
        if !(k.rd_ready || k.rd_closed) {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if k.rx.is_empty() {
            if k.rst {
                let k = &mut s.net.socks[id];
                if k.rst_reported {
                    return Ok(0);
                }
                k.rst_reported = true;
                return Err(err(ECONNRESET));
            }
            if k.rx_fin {
                return Ok(0);
            }
            s.net.socks[id].rd_ready = false;
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let p = s.cfg.net.eintr;
        if p > 0 && s.choices.pick(S::Net, 2, |r| r.permille(p) as u32) == 1 {
            s.fault(Fault::Eintr);
            return Err(err(EINTR));
        }
        let avail = s.net.socks[id].rx.len().min(buf.len());
        let mut n = avail;
        let p = s.cfg.net.short_read;
        if p > 0 && avail > 1 {
            // 0 = everything; otherwise that many bytes
            let v = s.choices.pick(S::Net, avail as u32, |r| {
                if !r.permille(p) {
                    0
                } else if r.permille(500) {
                    1 + r.below(8.min(avail as u64 - 1)) as u32
                } else {
                    1 + r.below(avail as u64 - 1) as u32
                }
            });
            if v > 0 {
                n = v as usize;
                s.fault(Fault::ShortRead);
            }
        }
        let k = &mut s.net.socks[id];
        let (a, b) = k.rx.as_slices();
        let m = a.len().min(n);
        buf[..m].copy_from_slice(&a[..m]);
        if n > m {
            buf[m..n].copy_from_slice(&b[..n - m]);
        }
        if consume {
            k.rx.drain(..n);
            k.read_bytes += n as u64;
            acked = n;
        }
        s.trace(|| format!("socket {id} reads {n}"));
        s.mix_hash(n as u64 | (id as u64) << 32 | 1 << 61);
        s.maybe_spurious(id);
        Ok(n)
    });
    if acked > 0 {
        let peer = with(|s| s.net.socks[id].peer);
        ack(peer, acked);
    }
    r
}

/// The peer has read `n` bytes: after a while the sender has room for that many again.
fn ack(sender: SockId, n: usize) {
    with(|s| {
        let l = s.cfg.net.lat_min;
        s.schedule(
            l,
            Box::new(move || {
                let mut w = Vec::new();
                with(|s| {
                    let h = s.cfg.net.hysteresis;
                    let k = &mut s.net.socks[sender];
                    k.outstanding = k.outstanding.saturating_sub(n);
                    let free = k.capacity - k.outstanding.min(k.capacity);
                    if !k.closed && k.nospace && free >= (k.capacity * h / 8).max(1) {
                        k.nospace = false;
                        k.wake_wr(&mut w);
                    }
                });
                wake_all(w);
            }),
        );
    });
}

/// A write system call guarded by the cached readiness, as tokio's `try_write_vectored`.
pub fn try_write(id: SockId, bufs: &[&[u8]]) -> io::Result<usize> {
    point(P_NET);
    with(|s| {
        let k = &s.net.socks[id];
        if !(k.wr_ready || k.wr_closed) {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        if k.rst {
            let k = &mut s.net.socks[id];
            if !k.rst_reported {
                k.rst_reported = true;
                return Err(err(ECONNRESET));
            }
            return Err(err(EPIPE));
        }
        if k.fin_sent {
            return Err(err(EPIPE));
        }
        let max_iov = s.cfg.net.max_iov;
        let total: usize = bufs.iter().take(max_iov).map(|b| b.len()).sum();
        if total == 0 {
            return Ok(0);
        }
        let p = s.cfg.net.eintr;
        if p > 0 && s.choices.pick(S::Net, 2, |r| r.permille(p) as u32) == 1 {
            s.fault(Fault::Eintr);
            return Err(err(EINTR));
        }
        let k = &mut s.net.socks[id];
        let free = k.capacity - k.outstanding.min(k.capacity);
        if free == 0 {
            k.wr_ready = false;
            k.nospace = true;
            s.fault(Fault::WriteBlocked);
            s.trace(|| format!("socket {id} would block on write"));
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let mut n = total.min(free);
        if n < total {
            k.nospace = true;
        }
        let p = s.cfg.net.short_write;
        if p > 0 && n > 1 {
            let v = s.choices.pick(S::Net, n as u32, |r| {
                if !r.permille(p) {
                    0
                } else if r.permille(500) {
                    1 + r.below(8.min(n as u64 - 1)) as u32
                } else {
                    1 + r.below(n as u64 - 1) as u32
                }
            });
            if v > 0 {
                n = v as usize;
                s.fault(Fault::ShortWrite);
            }
        }
        let mut data = Vec::with_capacity(n);
        for b in bufs.iter().take(max_iov) {
            let want = n - data.len();
            if want == 0 {
                break;
            }
            data.extend_from_slice(&b[..b.len().min(want)]);
        }
        let k = &mut s.net.socks[id];
        k.outstanding += n;
        k.sent_bytes += n as u64;
        if let Some(t) = &mut k.tap {
            t.extend_from_slice(&data);
        }
        s.trace(|| format!("socket {id} writes {n} of {total}"));
        s.mix_hash(n as u64 | (id as u64) << 32 | 1 << 62);
        let p = s.cfg.net.split;
        if p > 0 && n > 1 {
            let cut = s.choices.pick(S::Net, n as u32, |r| {
                if r.permille(p) {
                    1 + r.below(n as u64 - 1) as u32
                } else {
                    0
                }
            });
            if cut > 0 {
                s.fault(Fault::SplitSegment);
                let tail = data.split_off(cut as usize);
                s.push_seg(id, Seg::Data(data));
                s.push_seg(id, Seg::Data(tail));
                s.maybe_spurious(id);
                return Ok(n);
            }
        }
        s.push_seg(id, Seg::Data(data));
        s.maybe_spurious(id);
        Ok(n)
    })
}

pub fn clear_read_ready(id: SockId) {
    with(|s| s.net.socks[id].rd_ready = false)
}
pub fn clear_write_ready(id: SockId) {
    with(|s| s.net.socks[id].wr_ready = false)
}

/// Orderly end of the sending direction.
pub fn shutdown_write(id: SockId) -> io::Result<()> {
    point(P_NET);
    with(|s| {
        let k = &mut s.net.socks[id];
        if k.rst {
            return Err(err(ENOTCONN));
        }
        if !k.fin_sent {
            k.fin_sent = true;
            s.fault(Fault::HalfClose);
            s.trace(|| format!("socket {id} half-closes"));
            s.push_seg(id, Seg::Fin);
        }
        Ok(())
    })
}

pub fn close(id: SockId) {
    point(P_NET);
    let dead = crate::try_with(|s| {
        let k = &mut s.net.socks[id];
        let mut dead = Vec::new();
        if k.closed {
            return dead;
        }
        k.closed = true;
        dead.extend(k.rd_waker.take());
        dead.extend(k.wr_waker.take());
        dead.append(&mut k.rd_waiters);
        dead.append(&mut k.wr_waiters);
        let unread = !k.rx.is_empty();
        k.rx = VecDeque::new();
        if k.rst {
            return dead;
        }
        if unread || k.abortive {
            s.trace(|| format!("socket {id} closes {}: reset", if unread { "with unread data" } else { "without lingering" }));
            s.abort_direction(id);
        } else if !k.fin_sent {
            k.fin_sent = true;
            s.trace(|| format!("socket {id} closes"));
            s.push_seg(id, Seg::Fin);
        } else {
            s.trace(|| format!("socket {id} closes after half-close"));
        }
        dead
    });
    drop(dead);
}

impl Sim {
    /// send a reset; some of what is still on the wire may be lost with it
    fn abort_direction(&mut self, id: SockId) {
        self.fault(Fault::Reset);
        let n = self.net.socks[id].wire.len() as u32;
        let lose = self.choices.pick(S::Fault, n + 1, |r| r.below(n as u64 + 1) as u32) as usize;
        if lose > 0 {
            self.fault(Fault::ResetLoss);
            let k = &mut self.net.socks[id];
            let keep = k.wire.len() - lose;
            k.wire.truncate(keep);
        }
        self.push_seg(id, Seg::Rst);
    }
}

/// Both ends see a reset (a middlebox or an administrator killed the connection).
pub fn reset(id: SockId) {
    let ok = with(|s| {
        let peer = s.net.socks[id].peer;
        if s.net.socks[id].closed && s.net.socks[peer].closed {
            return false;
        }
        s.trace(|| format!("connection {id}-{peer} is reset"));
        // on a held link the reset waits like everything else
        s.abort_direction(id);
        s.abort_direction(peer);
        true
    });
    let _ = ok;
}

/// Stop delivering what `id` sends, or resume.
pub fn hold(id: SockId, held: bool) {
    with(|s| {
        if s.net.socks[id].held == held {
            return;
        }
        s.net.socks[id].held = held;
        s.fault(if held { Fault::Hold } else { Fault::Release });
        s.trace(|| format!("socket {id}: link {}", if held { "held" } else { "released" }));
        if !held {
            let l = s.cfg.net.lat_min;
            let now = s.now;
            for seg in s.net.socks[id].wire.iter_mut() {
                seg.0 = seg.0.min(now + l).max(now);
            }
            s.net.socks[id].last_at = s.net.socks[id].last_at.min(now + l);
            s.schedule(l, Box::new(move || deliver(id)));
        }
    });
}
pub fn release_all() {
    let ids: Vec<SockId> = with(|s| (0..s.net.socks.len()).filter(|i| s.net.socks[*i].held).collect());
    for id in ids {
        hold(id, false);
    }
}

pub fn crash(node: NodeId) {
    let mut w = Vec::new();
    with(|s| {
        for id in 0..s.net.socks.len() {
            let k = &mut s.net.socks[id];
            if k.node != node || k.closed {
                continue;
            }
            k.closed = true;
            k.rx = VecDeque::new();
            w.extend(k.rd_waker.take());
            w.extend(k.wr_waker.take());
            w.append(&mut k.rd_waiters);
            w.append(&mut k.wr_waiters);
            if !k.rst {
                s.abort_direction(id);
            }
        }
        let addrs: Vec<SocketAddr> =
            s.net.listeners.iter().filter(|(_, l)| l.node == node).map(|(a, _)| *a).collect();
        for a in addrs {
            s.net.listeners.remove(&a);
        }
    });
    drop(w);
}

/// SO_LINGER with a time of 0 turns a close into a reset.
pub fn set_abortive(id: SockId, on: bool) {
    with(|s| s.net.socks[id].abortive = on)
}
pub fn abortive(id: SockId) -> bool {
    with(|s| s.net.socks[id].abortive)
}

pub fn set_nodelay(id: SockId, on: bool) -> io::Result<()> {
    point(P_NET);
    with(|s| {
        let p = s.cfg.net.sockopt_error;
        if s.net.socks[id].rst {
            return Err(err(EINVAL));
        }
        if p > 0 && s.choices.pick(S::Fault, 2, |r| r.permille(p) as u32) == 1 {
            s.fault(Fault::SockoptError);
            s.trace(|| format!("setsockopt fails on socket {id}"));
            return Err(err(EINVAL));
        }
        s.net.socks[id].nodelay = on;
        Ok(())
    })
}
pub fn nodelay(id: SockId) -> bool {
    with(|s| s.net.socks[id].nodelay)
}
pub fn local_addr(id: SockId) -> io::Result<SocketAddr> {
    with(|s| s.net.socks[id].local.ok_or_else(|| err(ENOTCONN)))
}
pub fn peer_addr(id: SockId) -> io::Result<SocketAddr> {
    with(|s| match s.net.socks[id].remote {
        // as Linux has it: a socket that was reset has no peer any more
        Some(a) if !s.net.socks[id].rst => Ok(a),
        _ => Err(err(ENOTCONN)),
    })
}

// ---------------------------------------------------------------- connecting

/// A connected pair without a listener.
pub fn pair(a_node: NodeId, b_node: NodeId) -> (SockId, SockId) {
    with(|s| {
        let a = s.ephemeral(a_node);
        let b = s.ephemeral(b_node);
        let (x, y) = s.connect_pair(a_node, b_node, a, b);
        s.net.socks[y].accepted = true;
        s.register(x);
        s.register(y);
        (x, y)
    })
}

pub async fn connect(addr: SocketAddr) -> io::Result<SockId> {
    point(P_NET);
    let l = with(|s| s.latency());
    crate::timer(l).await;
    let mut w = Vec::new();
    let r = with(|s| {
        let node = s.node();
        let p = s.cfg.net.connect_refused;
        if p > 0 && s.choices.pick(S::Fault, 2, |r| r.permille(p) as u32) == 1 {
            s.fault(Fault::ConnectRefused);
            return Err(err(ECONNREFUSED));
        }
        let target = if s.net.listeners.contains_key(&addr) {
            addr
        } else {
            let any = SocketAddr::new(IpAddr::V4(Ipv4Addr::UNSPECIFIED), addr.port());
            if s.net.listeners.contains_key(&any) {
                any
            } else {
                return Err(err(ECONNREFUSED));
            }
        };
        let srv_node = s.net.listeners[&target].node;
        let local = s.ephemeral(node);
        let (x, y) = s.connect_pair(node, srv_node, local, addr);
        let li = s.net.listeners.get_mut(&target).unwrap();
        if li.backlog.len() >= 1024 {
            return Err(err(ECONNREFUSED));
        }
        li.backlog.push_back(y);
        w.extend(li.poll_waker.take());
        w.append(&mut li.wakers);
        s.trace(|| format!("connect {local} -> {addr}: sockets {x}-{y}"));
        s.register(x);
        Ok(x)
    });
    wake_all(w);
    r
}

pub fn bind(addr: SocketAddr) -> io::Result<(u64, SocketAddr)> {
    point(P_NET);
    with(|s| {
        let node = s.node();
        let mut addr = addr;
        if addr.port() == 0 {
            let p = s.ephemeral(node).port();
            addr.set_port(p);
        }
        if s.net.listeners.contains_key(&addr) {
            return Err(err(EADDRINUSE));
        }
        s.net.next_listener += 1;
        let id = s.net.next_listener;
        s.net.listeners.insert(
            addr,
            Listener { id, node, backlog: VecDeque::new(), wakers: Vec::new(), poll_waker: None },
        );
        Ok((id, addr))
    })
}

pub fn poll_accept(
    id: u64,
    addr: SocketAddr,
    many: bool,
    cx: &mut Context<'_>,
) -> Poll<io::Result<(SockId, SocketAddr)>> {
    point(P_NET);
    if !coop_ready(cx) {
        return Poll::Pending;
    }
    let wk = cx.waker().clone();
    let r = with(|s| {
        if !s.net.listeners.get(&addr).is_some_and(|l| l.id == id) {
            // the process owning this listener has crashed
            return Poll::Pending;
        }
        let empty = s.net.listeners[&addr].backlog.is_empty();
        let p = s.cfg.net.accept_error;
        if !empty && p > 0 {
            // 1: out of descriptors, the connection stays queued; 2: it was aborted meanwhile
            let v = s.choices.pick(S::Fault, 3, |r| {
                if r.permille(p) {
                    1 + r.below(2) as u32
                } else {
                    0
                }
            });
            if v > 0 {
                s.fault(Fault::AcceptError);
                s.trace(|| "accept fails".to_string());
                if v == 1 {
                    return Poll::Ready(Err(err(EMFILE)));
                }
                let y = s.net.listeners.get_mut(&addr).unwrap().backlog.pop_front().unwrap();
                s.net.socks[y].closed = true;
                s.abort_direction(y);
                return Poll::Ready(Err(err(ECONNABORTED)));
            }
        }
        let li = s.net.listeners.get_mut(&addr).unwrap();
        match li.backlog.pop_front() {
            Some(y) => {
                s.net.socks[y].accepted = true;
                let remote = s.net.socks[y].remote.unwrap();
                s.trace(|| format!("accept socket {y} from {remote}"));
                s.register(y);
                Poll::Ready(Ok((y, remote)))
            }
            None => {
                if many {
                    li.wakers.push(wk);
                } else {
                    li.poll_waker = Some(wk);
                }
                Poll::Pending
            }
        }
    });
    if r.is_ready() {
        coop_spend();
    }
    r
}

pub fn unbind(id: u64, addr: SocketAddr) {
    let dead = crate::try_with(|s| {
        if s.net.listeners.get(&addr).is_some_and(|l| l.id == id) {
            let l = s.net.listeners.remove(&addr).unwrap();
            for y in &l.backlog {
                s.net.socks[*y].closed = true;
                s.abort_direction(*y);
            }
            Some((l.wakers, l.poll_waker))
        } else {
            None
        }
    });
    drop(dead);
}

// ---------------------------------------------------------------- observation by the harness

/// connections opened so far: (connecting socket, accepting socket)
pub fn opened() -> Vec<(SockId, SockId)> {
    with(|s| s.net.opened.clone())
}
pub fn peer_of(id: SockId) -> SockId {
    with(|s| s.net.socks[id].peer)
}
pub fn is_closed(id: SockId) -> bool {
    with(|s| s.net.socks[id].closed)
}
pub fn was_reset(id: SockId) -> bool {
    with(|s| s.net.socks[id].rst)
}
pub fn accepted(id: SockId) -> bool {
    with(|s| s.net.socks[id].accepted)
}
pub fn sent_bytes(id: SockId) -> u64 {
    with(|s| s.net.socks[id].sent_bytes)
}
pub fn read_bytes(id: SockId) -> u64 {
    with(|s| s.net.socks[id].read_bytes)
}
/// bytes that arrived and were not read, plus bytes still on the way to `id`
pub fn undelivered(id: SockId) -> usize {
    with(|s| {
        let p = s.net.socks[id].peer;
        let wire: usize = s.net.socks[p]
            .wire
            .iter()
            .map(|(_, g)| if let Seg::Data(d) = g { d.len() } else { 0 })
            .sum();
        s.net.socks[id].rx.len() + wire
    })
}
pub fn tap(id: SockId) {
    with(|s| s.net.socks[id].tap = Some(Vec::new()))
}
/// times readiness of any socket was announced
pub fn events() -> u64 {
    with(|s| s.net.socks.iter().map(|k| k.events).sum())
}
/// record what every socket opened from now on sends
pub fn tap_all() {
    with(|s| s.net.tap_all = true)
}
pub fn tapped(id: SockId) -> Vec<u8> {
    with(|s| s.net.socks[id].tap.clone().unwrap_or_default())
}
pub fn set_capacity(id: SockId, cap: usize) {
    with(|s| s.net.socks[id].capacity = cap.max(1))
}
