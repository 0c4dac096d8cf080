PROPERTY = "C04"
NEEDS = "a MessagePack message of 64 KiB or more"
BREAKS = "The length prefix is written with 16 bits behind a 32-bit tag where that seems enough, and wraps for long messages."
F = "protosocket-messagepack/src/lib.rs"
EDITS = [(F, '''        rmp::encode::write_u32(buffer, len as u32 - 5).expect("message length is encodable");
''', '''        let length = (len as u16).wrapping_sub(5);
        rmp::encode::write_u32(buffer, length as u32).expect("message length is encodable");
''')]
DEMO = r'''
mod kit;
use kit::check;
use protosocket::{Deserializer, Serializer};
use protosocket_messagepack::*;
fn main() {
    for n in [10usize, 1000, 60_000, 70_000, 200_000] {
        let mut bytes = Vec::new();
        let body = "x".repeat(n);
        ProtosocketMessagePackSerializer::<(u64, String)>::default().encode((7, body.clone()), &mut bytes);
        let mut d = ProtosocketMessagePackDeserializer::<(u64, String)>::default();
        match d.decode(&bytes[..]) {
            Ok((len, m)) => check(len == bytes.len() && m == (7, body), "another message"),
            Err(e) => check(false, &format!("{n}: {e:?}")),
        }
    }
}
'''
