//! Key conversions keep every nibble.
use crate::model::*;
use crate::seq::*;
use crate::sym::*;
use eth_trie_utils::nibbles::{Nibbles, ToNibbles};
use ethereum_types::{H256, U128, U256, U512};

fn bytes(len: usize) -> Vec<u8> {
    let b = value(len);
    crate::note!("bytes {:x?}", b);
    b
}
/// nibbles of a byte string in big-endian order
fn split(b: &[u8]) -> Vec<u8> {
    let mut n = Vec::with_capacity(2 * b.len());
    for x in b {
        n.push(x >> 4);
        n.push(x & 15);
    }
    n
}
/// all 512 bits, since a sequence may come from a 512-bit integer
fn is_wide(x: &Nibbles, n: &[u8], id: u32) {
    check(x.count == n.len(), id);
    let mut d = 0;
    let mut w = [0u64; 8];
    let k = n.len();
    for i in 0..k {
        let p = k - 1 - i;
        w[p / 16] |= (n[i] as u64) << (4 * (p % 16));
    }
    for i in 0..8 {
        d |= w[i] ^ x.packed.0[i];
        trace(x.packed.0[i]);
    }
    check(d == 0, id + 100);
}

/// params: longest byte string
fn from_bytes() {
    let len = choice(param(0) + 1);
    let b = bytes(len);
    let mut r = b.clone();
    r.reverse();
    for (le, n) in [(false, split(&b)), (true, split(&r))] {
        let got = if le { Nibbles::from_bytes_le(&b) } else { Nibbles::from_bytes_be(&b) };
        match got {
            Ok(x) => {
                // 33 bytes: the documentation contradicts itself, either is fine
                check(len > 0 && len <= 33, 1);
                if len <= 33 {
                    is_wide(&x, &n, 2);
                    check(same_seq(&x.bytes_be(), if le { &r } else { &b }), 3);
                }
                cover(1);
            }
            Err(_) => {
                check(len == 0 || len > 32, 4);
                cover(2);
            }
        }
    }
}

fn from_many_bytes() {
    let b = far();
    check(Nibbles::from_bytes_be(&b).is_err(), 1);
    check(Nibbles::from_bytes_le(&b).is_err(), 2);
    cover(1);
}

fn from_hash() {
    let mut h = [0u8; 32];
    for x in &mut h {
        *x = byte();
    }
    let be = Nibbles::from_h256_be(H256(h));
    is_wide(&be, &split(&h), 1);
    check(same_seq(&be.bytes_be(), &h), 2);
    let mut r = h;
    r.reverse();
    let le = Nibbles::from_h256_le(H256(h));
    is_wide(&le, &split(&r), 3);
    check(same_seq(&le.bytes_be(), &r), 4);
    cover(1);
}

/// nibbles of an integer of up to `width` nibbles, the first of them not zero
fn digits(width: usize) -> Vec<u8> {
    let c = choice(width + 1);
    let mut n = Vec::with_capacity(c);
    for i in 0..c {
        let k = nib();
        if i == 0 {
            assume(k != 0);
        }
        n.push(k);
    }
    crate::note!("integer {}", hex(&n));
    n
}
fn limbs(n: &[u8]) -> [u64; 8] {
    let mut w = [0u64; 8];
    let k = n.len();
    for i in 0..k {
        let p = k - 1 - i;
        w[p / 16] |= (n[i] as u64) << (4 * (p % 16));
    }
    w
}
/// params: type
fn from_int() {
    fn all<T: ToNibbles + Clone>(v: T, n: &[u8]) {
        is_wide(&Nibbles::from(v.clone()), n, 1);
        is_wide(&v.clone().to_nibbles(), n, 2);
        let padded = v.to_nibbles_byte_padded();
        if n.len() % 2 == 1 {
            is_wide(&padded, &joined(&[0], n), 3);
            cover(2);
        } else {
            is_wide(&padded, n, 4);
        }
        cover(1);
    }
    let kind = choice(7);
    let n = digits([2, 4, 8, 16, 32, 64, 128][kind]);
    let w = limbs(&n);
    match kind {
        0 => all(w[0] as u8, &n),
        1 => all(w[0] as u16, &n),
        2 => all(w[0] as u32, &n),
        3 => all(w[0], &n),
        4 => all(U128([w[0], w[1]]), &n),
        5 => all(U256([w[0], w[1], w[2], w[3]]), &n),
        _ => all(U512(w), &n),
    }
    if kind == 6 {
        check(Nibbles::get_num_nibbles_in_key(&U512(w)) == n.len(), 5);
    }
}

/// params: longest sequence
fn back() {
    let len = choice(param(0) + 1);
    let (n, x) = seq(len);
    let b = x.bytes_be();
    let want = if len % 2 == 1 { joined(&[0], &n) } else { n.clone() };
    check(same_seq(&split(&b), &want), 1);
    let w = limbs(&n);
    match x.try_into_u256() {
        Ok(v) => {
            check(len <= 64, 2);
            check(v.0[0] == w[0] && v.0[1] == w[1] && v.0[2] == w[2] && v.0[3] == w[3], 3);
            cover(1);
        }
        Err(_) => {
            check(len > 64, 4);
            cover(2);
        }
    }
}

harnesses! {
    c16_from_bytes = from_bytes;
    c16_from_many_bytes = from_many_bytes;
    c16_from_hash = from_hash;
    c16_from_int = from_int;
    c16_back = back;
}
