PROPERTY = "C04"
NEEDS = "a prost message whose length varint is padded to more than 5 bytes and cut inside the varint"
BREAKS = "A length delimiter that is cut after its fifth byte ends the connection, although the rest of it would have made it valid."
F = "protosocket-prost/src/prost_serializer.rs"
EDITS = [(F, '''const MAXIMUM_LENGTH_DELIMITER: usize = 10;
''', '''const MAXIMUM_LENGTH_DELIMITER: usize = 5;
''')]
DEMO = r'''
mod kit;
use protosocket::{DeserializeError, Deserializer};
use kit::*;
fn main() {
    let mut d = protosocket_prost::ProstSerializer::<Vec<u8>, Vec<u8>>::default();
    let body = [10u8, 3, 1, 2, 3];
    let mut wire = vec![0x85, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00];
    wire.extend(body);
    for cut in 0..wire.len() {
        let r = d.decode(&wire[..cut]);
        check(matches!(r, Err(DeserializeError::IncompleteBuffer { .. })), &format!("cut at {cut}: {r:?}"));
    }
    let r = d.decode(&wire[..]);
    check(matches!(&r, Ok((n, v)) if *n == wire.len() && v == &[1, 2, 3]), &format!("whole: {r:?}"));
}
'''
