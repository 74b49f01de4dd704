//! Nibble sequences for the checks of sequence operations.
use crate::model::*;
use crate::sym::*;
use crate::world::same_nibbles;
use eth_trie_utils::nibbles::Nibbles;

/// a sequence of `len` free nibbles: as a list, and as the crate's type made from its public fields
pub fn seq(len: usize) -> (Vec<u8>, Nibbles) {
    let mut n = Vec::with_capacity(len);
    for _ in 0..len {
        n.push(nib());
    }
    crate::note!("sequence {}", hex(&n));
    let x = nibbles_of(&n);
    (n, x)
}
/// the result is well formed and holds exactly these nibbles
pub fn is(x: &Nibbles, n: &[u8], id: u32) {
    trace(x.count as u64);
    for l in 0..4 {
        trace(x.packed.0[l]);
    }
    check(same_nibbles(x, &nibbles_of(n)), id);
}
pub fn reversed(n: &[u8]) -> Vec<u8> {
    let mut r = n.to_vec();
    r.reverse();
    r
}
pub fn joined(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut r = a.to_vec();
    r.extend_from_slice(b);
    r
}
