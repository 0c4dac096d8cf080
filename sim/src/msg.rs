//! Messages, codecs under test, and an independent statement of the framings.

use std::cell::Cell;

use protosocket::{DeserializeError, Deserializer, Serializer};
use protosocket_messagepack::{ProtosocketMessagePackDeserializer, ProtosocketMessagePackSerializer};
use protosocket_prost::ProstSerializer;
use serde::{Deserialize, Serialize};

/// label of a message that is over a limit and must never arrive
pub const OVERSIZE: u32 = u32::MAX - 2;
pub const NOISE_SKIP: u32 = u32::MAX - 1;
pub const NOISE_EMPTY: u32 = u32::MAX;

#[derive(Clone, PartialEq, prost::Message, Serialize, Deserialize)]
pub struct Msg {
    #[prost(uint32, tag = "1")]
    pub sender: u32,
    #[prost(uint64, tag = "2")]
    pub seq: u64,
    #[prost(bytes = "vec", tag = "3")]
    #[serde(with = "blob")]
    pub body: Vec<u8>,
}

#[derive(Clone, PartialEq, prost::Message, Serialize, Deserialize)]
pub struct Rpc {
    #[prost(uint64, tag = "1")]
    pub id: u64,
    #[prost(uint32, tag = "2")]
    pub code: u32,
    #[prost(uint32, tag = "3")]
    pub op: u32,
    #[prost(uint32, tag = "4")]
    pub a: u32,
    #[prost(uint32, tag = "5")]
    pub b: u32,
    /// identifies the call; echoed in every response
    #[prost(uint64, tag = "6")]
    pub nonce: u64,
    /// position of an item in its stream
    #[prost(uint32, tag = "7")]
    pub index: u32,
    #[prost(bytes = "vec", tag = "8")]
    #[serde(with = "blob")]
    pub body: Vec<u8>,
}

/// A body as one piece of binary data: as a sequence of numbers it takes most of the time of a run.
mod blob {
    pub fn serialize<S: serde::Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(v)
    }
    pub fn deserialize<'a, D: serde::Deserializer<'a>>(d: D) -> Result<Vec<u8>, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Vec<u8>, E> {
                Ok(v.to_vec())
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
                Ok(v)
            }
        }
        d.deserialize_byte_buf(V)
    }
}

impl protosocket_rpc::Message for Rpc {
    fn message_id(&self) -> u64 {
        self.id
    }
    fn control_code(&self) -> protosocket_rpc::ProtosocketControlCode {
        protosocket_rpc::ProtosocketControlCode::from_u8(self.code as u8)
    }
    fn set_message_id(&mut self, id: u64) {
        self.id = id
    }
    fn cancelled(id: u64) -> Self {
        Rpc {
            id,
            code: protosocket_rpc::ProtosocketControlCode::Cancel.as_u8() as u32,
            ..Default::default()
        }
    }
    fn ended(id: u64) -> Self {
        Rpc {
            id,
            code: protosocket_rpc::ProtosocketControlCode::End.as_u8() as u32,
            ..Default::default()
        }
    }
}

/// Content that is a function of its label, so that any mix-up shows.
pub fn body(label: u64, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 8);
    let mut z = simcore::rng::mix(label ^ 0x5151);
    while v.len() < len {
        z = z.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23) ^ label;
        v.extend_from_slice(&z.to_le_bytes());
    }
    v.truncate(len);
    v
}
pub fn label(a: u64, b: u64) -> u64 {
    simcore::rng::mix(a.wrapping_mul(0x1_0000_0001) ^ simcore::rng::mix(b))
}
pub fn msg(sender: u32, seq: u64, len: usize) -> Msg {
    Msg { sender, seq, body: body(label(sender as u64, seq), len) }
}
pub fn msg_ok(m: &Msg) -> bool {
    m.body == body(label(m.sender as u64, m.seq), m.body.len())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Prost,
    MessagePack,
    Frame,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hint {
    Total,
    Remaining,
    One,
    Payload,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Codec {
    pub kind: Kind,
    pub hint: Hint,
}
thread_local! {
    /// used where the code under test insists on constructing codecs itself
    static CODEC: Cell<Codec> = const { Cell::new(Codec { kind: Kind::Prost, hint: Hint::Total }) };
}
pub fn set_codec(c: Codec) {
    CODEC.with(|x| x.set(c))
}
pub fn codec() -> Codec {
    CODEC.with(|x| x.get())
}

pub trait Wire: prost::Message + Default + Serialize + for<'a> Deserialize<'a> + Clone + PartialEq + Unpin + 'static {
    /// the label of a message that a custom serializer turns into something other than a message
    fn noise(&self) -> u32 {
        0
    }
    fn noise_len(&self) -> usize {
        0
    }
    /// every message given to or produced by a codec passes here
    fn seen(&self, _outbound: bool) {}
}
impl Wire for Msg {
    fn noise(&self) -> u32 {
        self.sender
    }
    fn noise_len(&self) -> usize {
        self.body.len()
    }
}
impl Wire for Rpc {
    fn seen(&self, outbound: bool) {
        crate::rpcs::wire_seen(self, outbound);
    }
}

// ------------------------------------------------------------ framing, stated independently

pub const F_MSG: u8 = 0;
pub const F_SKIP: u8 = 1;

pub fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push((v as u8 & 0x7f) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
pub fn payload<M: Wire>(k: Kind, m: &M) -> Vec<u8> {
    match k {
        Kind::Prost | Kind::Frame => m.encode_to_vec(),
        Kind::MessagePack => rmp_serde::to_vec(m).expect("encodable"),
    }
}
/// prefix a payload with the framing's length
pub fn enframe(k: Kind, p: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(p.len() + 10);
    match k {
        Kind::Prost => varint(p.len() as u64, &mut out),
        Kind::MessagePack => {
            out.push(0xce);
            out.extend_from_slice(&(p.len() as u32).to_be_bytes());
        }
        Kind::Frame => {
            out.push(F_MSG);
            out.extend_from_slice(&(p.len() as u32).to_be_bytes());
        }
    }
    out.extend_from_slice(p);
    out
}
pub fn skip_frame(len: usize) -> Vec<u8> {
    let mut out = vec![F_SKIP];
    out.extend_from_slice(&(len as u32).to_be_bytes());
    out.extend_from_slice(&body(len as u64, len));
    out
}
/// The bytes a message must occupy on the wire.
pub fn wire<M: Wire>(k: Kind, m: &M) -> Vec<u8> {
    if k == Kind::Frame {
        match m.noise() {
            NOISE_EMPTY => return Vec::new(),
            NOISE_SKIP => return skip_frame(m.noise_len()),
            _ => {}
        }
    }
    enframe(k, &payload(k, m))
}

pub enum Next<M> {
    /// frame length and the message in it
    Message(usize, M),
    Skip(usize),
    /// a prefix of something that may still become a legal frame
    Incomplete,
    /// can never become a legal frame
    Bad(&'static str),
    /// legality is not specified (bytes left over inside a frame), or no frame that is ever to be sent
    Unspecified,
}
fn read_varint(b: &[u8]) -> Result<Option<(u64, usize)>, ()> {
    let mut v: u64 = 0;
    for (i, x) in b.iter().enumerate() {
        if i == 9 && *x > 1 {
            return Err(());
        }
        v |= ((*x & 0x7f) as u64) << (7 * i as u32);
        if *x < 0x80 {
            return Ok(Some((v, i + 1)));
        }
        if i == 9 {
            return Err(());
        }
    }
    Ok(None)
}
/// Reference decoder for bytes the code under test wrote: also refuses a length with padding.
pub fn reference<M: Wire>(k: Kind, b: &[u8], limit: usize) -> Next<M> {
    match read_varint(b) {
        Ok(Some((_, n))) if k == Kind::Prost && n > 1 && b[n - 1] == 0 => Next::Unspecified,
        _ => reference_in(k, b, limit),
    }
}
/// A legal, if unusual, form of the same prost frame: the length has `pad` more bytes than it needs.
pub fn pad_length(frame: &[u8], pad: usize) -> Vec<u8> {
    let Ok(Some((_, n))) = read_varint(frame) else { return frame.to_vec() };
    let pad = pad.min(10 - n);
    let mut out = frame[..n].to_vec();
    for _ in 0..pad {
        *out.last_mut().unwrap() |= 0x80;
        out.push(0);
    }
    out.extend_from_slice(&frame[n..]);
    out
}
/// Reference decoder: what the head of `b` is, under `limit` bytes per frame.
pub fn reference_in<M: Wire>(k: Kind, b: &[u8], limit: usize) -> Next<M> {
    let (head, len, skip) = match k {
        Kind::Prost => match read_varint(b) {
            Err(()) => return Next::Bad("length is not a varint"),
            Ok(None) => return Next::Incomplete,
            Ok(Some((v, n))) => (n, v, false),
        },
        Kind::MessagePack | Kind::Frame => {
            if b.is_empty() {
                return Next::Incomplete;
            }
            let skip = k == Kind::Frame && b[0] == F_SKIP;
            if b.len() < 5 {
                return Next::Incomplete;
            }
            if k == Kind::MessagePack && b[0] != 0xce {
                return Next::Bad("length marker");
            }
            if k == Kind::Frame && b[0] > F_SKIP {
                return Next::Bad("frame kind");
            }
            (5, u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as u64, skip)
        }
    };
    if len.saturating_add(head as u64) > limit as u64 {
        return Next::Bad("frame over the limit");
    }
    let total = head + len as usize;
    if b.len() < total {
        return Next::Incomplete;
    }
    if skip {
        return Next::Skip(total);
    }
    let p = &b[head..total];
    let m = match k {
        Kind::Prost | Kind::Frame => M::decode(p).ok(),
        Kind::MessagePack => {
            let mut r = p;
            let m = rmp_serde::from_read::<_, M>(&mut r).ok();
            if m.is_some() && !r.is_empty() {
                return Next::Unspecified;
            }
            m
        }
    };
    match m {
        Some(m) => Next::Message(total, m),
        None => Next::Bad("payload does not decode"),
    }
}

// ------------------------------------------------------------ codecs given to the code under test

pub enum Ser<M: Wire> {
    Prost(ProstSerializer<M, M>),
    Mp(ProtosocketMessagePackSerializer<M>),
    Frame,
}
pub enum De<M: Wire> {
    Prost(ProstSerializer<M, M>),
    Mp(ProtosocketMessagePackDeserializer<M>),
    Frame(Hint),
}
impl<M: Wire> Ser<M> {
    pub fn new(c: Codec) -> Self {
        match c.kind {
            Kind::Prost => Ser::Prost(Default::default()),
            Kind::MessagePack => Ser::Mp(Default::default()),
            Kind::Frame => Ser::Frame,
        }
    }
}
impl<M: Wire> De<M> {
    pub fn new(c: Codec) -> Self {
        match c.kind {
            Kind::Prost => De::Prost(Default::default()),
            Kind::MessagePack => De::Mp(Default::default()),
            Kind::Frame => De::Frame(c.hint),
        }
    }
}
impl<M: Wire> Default for Ser<M> {
    fn default() -> Self {
        Self::new(codec())
    }
}
impl<M: Wire> Default for De<M> {
    fn default() -> Self {
        Self::new(codec())
    }
}
impl<M: Wire> Serializer for Ser<M> {
    type Message = M;
    fn encode(&mut self, m: M, buffer: &mut Vec<u8>) {
        m.seen(true);
        match self {
            Ser::Prost(s) => s.encode(m, buffer),
            Ser::Mp(s) => s.encode(m, buffer),
            Ser::Frame => buffer.extend_from_slice(&wire(Kind::Frame, &m)),
        }
    }
}
impl<M: Wire> Deserializer for De<M> {
    type Message = M;
    fn decode(&mut self, mut buffer: impl bytes::Buf) -> Result<(usize, M), DeserializeError> {
        let r = match self {
            De::Prost(d) => d.decode(buffer),
            De::Mp(d) => d.decode(buffer),
            De::Frame(hint) => {
                let have = buffer.remaining();
                let more = |total: usize, len: usize| DeserializeError::IncompleteBuffer {
                    next_message_size: match hint {
                        Hint::Total => total,
                        Hint::Remaining => total - have,
                        Hint::One => 1,
                        Hint::Payload => len,
                    },
                };
                if have < 5 {
                    return Err(more(5, 5));
                }
                let kind = buffer.get_u8();
                let len = buffer.get_u32() as usize;
                match kind {
                    F_SKIP => return Err(DeserializeError::SkipMessage { distance: len + 5 }),
                    F_MSG => {}
                    _ => return Err(DeserializeError::InvalidBuffer),
                }
                if have < len + 5 {
                    return Err(more(len + 5, len));
                }
                match M::decode(buffer.copy_to_bytes(len)) {
                    Ok(m) => Ok((len + 5, m)),
                    Err(_) => Err(DeserializeError::InvalidBuffer),
                }
            }
        };
        if let Ok((_, m)) = &r {
            m.seen(false);
        }
        r
    }
}
