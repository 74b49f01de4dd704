//! Trie values made from integers are their big-endian bytes.
use crate::model::*;
use crate::sym::*;
use eth_trie_utils::nibbles::Nibbles;
use eth_trie_utils::partial_trie::*;
use eth_trie_utils::trie_ops::ValOrHash;
use ethereum_types::{H256, U128, U256, U512};

fn is_val<V: Into<ValOrHash> + Clone>(v: V, want: &[u8]) {
    match v.clone().into() {
        ValOrHash::Val(x) => {
            trace(x.len() as u64);
            check(same_seq(&x, want), 1)
        }
        ValOrHash::Hash(_) => check(false, 2),
    }
    check(same_seq(&v.clone().into().expect_val(), want), 3);
    // stored in a trie
    let mut t = StandardTrie::default();
    t.insert(Nibbles::from_nibble(3), v.clone());
    if !want.is_empty() {
        check(same_opt(t.get(Nibbles::from_nibble(3)), Some(want)), 4);
    }
    cover(1);
    if choice(2) == 1 {
        cover(2);
        expect_panic(true);
        v.into().expect_hash();
        fail(5);
    }
}
fn ints() {
    let kind = choice(7);
    let b = value([1, 2, 4, 8, 16, 32, 64][kind]);
    crate::note!("integer {:x?}", b);
    // limbs from the big-endian bytes
    let mut w = [0u64; 8];
    for i in 0..b.len() {
        let p = b.len() - 1 - i;
        w[p / 8] |= (b[i] as u64) << (8 * (p % 8));
    }
    match kind {
        0 => is_val(w[0] as u8, &b),
        1 => is_val(w[0] as u16, &b),
        2 => is_val(w[0] as u32, &b),
        3 => is_val(w[0], &b),
        4 => is_val(U128([w[0], w[1]]), &b),
        5 => is_val(U256([w[0], w[1], w[2], w[3]]), &b),
        _ => is_val(U512(w), &b),
    }
}
/// params: longest byte string
fn bytes() {
    let b = value(choice(param(0) + 1));
    if choice(2) == 1 {
        is_val(b.clone(), &b);
    } else {
        is_val(b.as_slice(), &b);
    }
}
fn many_bytes() {
    let b = far();
    if choice(2) == 1 {
        is_val(b.clone(), &b);
    } else {
        is_val(b.as_slice(), &b);
    }
}
fn hash() {
    let mut h = [0u8; 32];
    for x in &mut h {
        *x = byte();
    }
    match H256(h).into() {
        ValOrHash::Hash(x) => check(same_seq(&x.0, &h), 1),
        ValOrHash::Val(_) => check(false, 2),
    }
    let v: ValOrHash = H256(h).into();
    check(same_seq(&v.clone().expect_hash().0, &h), 3);
    check(v == ValOrHash::Hash(H256(h)), 4);
    let mut t = StandardTrie::default();
    t.insert(Nibbles::default(), v.clone());
    match &t.0 {
        Node::Hash(x) => check(same_seq(&x.0, &h), 5),
        _ => check(false, 6),
    }
    cover(1);
    if choice(2) == 1 {
        cover(2);
        expect_panic(true);
        v.expect_val();
        fail(7);
    }
}

harnesses! {
    c20_ints = ints;
    c20_bytes = bytes;
    c20_many_bytes = many_bytes;
    c20_hash = hash;
}
