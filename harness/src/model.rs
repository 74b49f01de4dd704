//! Reference model: keys are plain nibble lists, contents a plain association list.
use crate::sym;
use eth_trie_utils::nibbles::Nibbles;
use ethereum_types::U512;

#[derive(Clone)]
pub struct Key {
    pub n: Vec<u8>,
}
impl Key {
    /// key of exactly `len` symbolic nibbles
    pub fn of_len(len: usize) -> Key {
        let mut n = Vec::with_capacity(len);
        for _ in 0..len {
            n.push(sym::nib());
        }
        crate::note!("key {}", hex(&n));
        Key { n }
    }
    /// key of lo..=hi nibbles
    pub fn any(lo: usize, hi: usize) -> Key {
        let len = lo + sym::choice(hi - lo + 1);
        Key::of_len(len)
    }
    /// key of exactly `len` nibbles, all free, in few symbolic words
    pub fn packed(len: usize) -> Key {
        let mut n = Vec::with_capacity(len);
        let mut w = 0;
        for i in 0..len {
            if i % 16 == 0 {
                w = sym::var(64);
            }
            n.push((w >> (4 * (i % 16)) & 15) as u8);
        }
        crate::note!("key {}", hex(&n));
        Key { n }
    }
    pub fn nibbles(&self) -> Nibbles {
        nibbles_of(&self.n)
    }
    #[inline(never)]
    pub fn same(&self, o: &Key) -> bool {
        same_seq(&self.n, &o.n)
    }
    #[inline(never)]
    pub fn starts_with(&self, p: &[u8]) -> bool {
        self.n.len() >= p.len() && same_seq(&self.n[..p.len()], p)
    }
}
#[inline(never)]
pub fn same_seq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// sequence with the given nibbles, made directly from its public fields
#[inline(never)]
pub fn nibbles_of(n: &[u8]) -> Nibbles {
    let mut l = [0u64; 8];
    let k = n.len();
    for i in 0..k {
        let p = k - 1 - i;
        l[p / 16] |= (n[i] as u64) << (4 * (p % 16));
    }
    Nibbles { count: k, packed: U512(l) }
}
/// nibble i (from the front) of a sequence, read from its public fields
pub fn nib_at(x: &Nibbles, i: usize) -> u8 {
    let p = x.count - 1 - i;
    ((x.packed.0[p / 16] >> (4 * (p % 16))) & 15) as u8
}

/// the nibble values keys are made of: all 16, or a spread of 2..4 of them
#[derive(Clone, Copy)]
pub struct Alphabet(pub usize);
impl Alphabet {
    pub fn nib(self) -> u8 {
        match self.0 {
            2 => sym::var(1) as u8 * 15,
            3 => {
                // 0, 7, 15
                let x = sym::var(2) as u8;
                sym::assume(x < 3);
                (x * 15) >> 1
            }
            4 => sym::var(2) as u8 * 5,
            _ => sym::nib(),
        }
    }
    pub fn key(self, lo: usize, hi: usize) -> Key {
        let len = lo + sym::choice(hi - lo + 1);
        self.key_of(len)
    }
    pub fn key_of(self, len: usize) -> Key {
        let mut n = Vec::with_capacity(len);
        for _ in 0..len {
            n.push(self.nib());
        }
        crate::note!("key {}", hex(&n));
        Key { n }
    }
}

#[derive(Clone, Default)]
pub struct Map {
    pub e: Vec<(Key, Vec<u8>)>,
}
impl Map {
    #[inline(never)]
    pub fn find(&self, k: &Key) -> Option<usize> {
        for i in 0..self.e.len() {
            if self.e[i].0.same(k) {
                return Some(i);
            }
        }
        None
    }
    pub fn get(&self, k: &Key) -> Option<&[u8]> {
        self.find(k).map(|i| self.e[i].1.as_slice())
    }
    pub fn insert(&mut self, k: &Key, v: &[u8]) {
        match self.find(k) {
            Some(i) => self.e[i].1 = v.to_vec(),
            None => self.e.push((k.clone(), v.to_vec())),
        }
    }
    pub fn remove(&mut self, k: &Key) -> Option<Vec<u8>> {
        self.find(k).map(|i| self.e.remove(i).1)
    }
}
pub fn same_opt(a: Option<&[u8]>, b: Option<&[u8]>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => same_seq(x, y),
        _ => false,
    }
}
/// non-empty value of `len` symbolic bytes
pub fn value(len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        v.push(sym::byte());
    }
    v
}

/// lengths far beyond what is expected, around what a length kept in a byte or two would wrap at
pub const FAR: [usize; 22] = [41, 63, 64, 65, 66, 127, 128, 129, 160, 200, 255, 256, 257, 288, 289, 300, 320, 511, 513, 1000, 65536, 65569];
/// a byte string of such a length, the first and the last four bytes free
pub fn far() -> Vec<u8> {
    let len = FAR[sym::choice(FAR.len())];
    let mut v = vec![0x37u8; len];
    for i in 0..4 {
        v[i] = sym::byte();
        v[len - 1 - i] = sym::byte();
    }
    crate::note!("{} bytes, {:x?} .. {:x?}", len, &v[..4], &v[len - 4..]);
    v
}

#[cfg(feature = "native")]
pub fn hex(n: &[u8]) -> String {
    let s: String = n.iter().map(|x| format!("{:x}", x)).collect();
    format!("'{}'", s)
}
