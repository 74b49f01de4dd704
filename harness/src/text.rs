//! Expected texts, spelled out independently.
use crate::sym::*;

pub fn digit(d: u8) -> u8 {
    d + if d < 10 { b'0' } else { b'a' - 10 }
}
/// 0x and one digit per nibble
#[inline(never)]
pub fn spell(n: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(n.len() + 2);
    v.extend_from_slice(b"0x");
    for d in n {
        v.push(digit(*d));
    }
    v
}
/// 0x and two digits per byte
#[inline(never)]
pub fn spell_bytes(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(2 * b.len() + 2);
    v.extend_from_slice(b"0x");
    for x in b {
        v.push(digit(x >> 4));
        v.push(digit(x & 15));
    }
    v
}
pub fn decimal(n: usize) -> Vec<u8> {
    let mut d = vec![];
    let mut n = n;
    loop {
        d.insert(0, b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            return d;
        }
    }
}
/// one character at a time: a few small questions to the solver instead of one large
#[inline(never)]
pub fn same_text(got: &[u8], want: &[u8], id: u32) {
    check(got.len() == want.len(), id);
    for (a, b) in got.iter().zip(want) {
        check(a == b, id + 100);
    }
}
