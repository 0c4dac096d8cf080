PROPERTY = "C04"
NEEDS = "a MessagePack stream that is cut inside a 5-byte length prefix"
BREAKS = "The length is read as soon as its tag has arrived; with the rest of the prefix missing the stream counts as broken."
F = "protosocket-messagepack/src/lib.rs"
EDITS = [(F, '''                if start_remaining < 5 {
''', '''                if start_remaining < 4 {
''')]
DEMO = r'''
mod kit;
use kit::check;
use protosocket::{DeserializeError, Deserializer, Serializer};
use protosocket_messagepack::*;
fn main() {
    let mut bytes = Vec::new();
    ProtosocketMessagePackSerializer::<(u64, String)>::default().encode((7, "hello".into()), &mut bytes);
    for cut in 1..bytes.len() {
        let mut d = ProtosocketMessagePackDeserializer::<(u64, String)>::default();
        check(matches!(d.decode(&bytes[..cut]), Err(DeserializeError::IncompleteBuffer { .. })), &format!("cut at {cut}"));
        match d.decode(&bytes[..]) {
            Ok((n, m)) => check(n == bytes.len() && m == (7, "hello".into()), "another message"),
            Err(e) => check(false, &format!("{e:?}")),
        }
    }
}
'''
