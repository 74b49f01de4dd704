//! Hex-prefix encoding follows the specification and decodes back.
use crate::model::*;
use crate::mpt::hex_prefix;
use crate::seq::*;
use crate::sym::*;
use eth_trie_utils::nibbles::Nibbles;

/// params: longest sequence
fn encode() {
    let len = choice(param(0) + 1);
    let (n, x) = seq(len);
    let leaf = choice(2) == 1;
    let got = x.to_hex_prefix_encoding(leaf);
    check(same_seq(&got, &hex_prefix(&n, leaf)), 1);
    is(&x, &n, 2);
    match Nibbles::from_hex_prefix_encoding(&got) {
        Ok(y) => check(eq(&y, &n, leaf), 3),
        Err(_) => check(false, 4),
    }
    cover(1);
}
/// the nibbles of a path, followed by the terminator for leaves
fn eq(y: &Nibbles, n: &[u8], leaf: bool) -> bool {
    let mut want = n.to_vec();
    if leaf {
        want.push(1);
        want.push(0);
    }
    for l in 0..5 {
        trace(y.packed.0[l]);
    }
    crate::world::same_nibbles(y, &nibbles_of(&want))
}
/// params: longest byte string
fn decode() {
    let len = 1 + choice(param(0));
    let b = value(len);
    crate::note!("bytes {:x?}", b);
    let flag = b[0] >> 4;
    match Nibbles::from_hex_prefix_encoding(&b) {
        Ok(y) => {
            check(flag <= 3 && len <= 33, 1);
            let mut n = vec![];
            if flag & 1 == 1 {
                n.push(b[0] & 15);
            }
            for x in &b[1..] {
                n.push(x >> 4);
                n.push(x & 15);
            }
            if n.len() <= 64 {
                check(eq(&y, &n, flag & 2 == 2), 2);
                cover(1);
            }
        }
        Err(_) => {
            check(flag > 3 || len > 33, 3);
            cover(2);
        }
    }
}

fn decode_many() {
    check(Nibbles::from_hex_prefix_encoding(&far()).is_err(), 1);
    cover(1);
}

harnesses! {
    c18_encode = encode;
    c18_decode = decode;
    c18_decode_many = decode_many;
}
