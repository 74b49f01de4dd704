//! Families of tries that the properties are checked on, each trie together with its contents as a plain map.
use crate::model::*;
use crate::sym::*;
use eth_trie_utils::partial_trie::*;

/// reads the parameters of a run one after the other
pub struct P(pub u32);
impl P {
    pub fn next(&mut self) -> usize {
        self.0 += 1;
        param(self.0 - 1)
    }
}

/// which values are stored: 1: one free byte; 2: one free byte or 33 bytes; 3: 33 bytes;
/// 6: lengths of all orders; 7: every third long, no free bytes past the fortieth;
/// 5: per trie all short, all long, or in turn (short ones past the second from a fixed half of the byte values, long ones all different); the first byte of a value is free, the rest fixed
#[derive(Clone, Copy)]
pub struct Vals {
    kind: usize,
    mode: usize,
    i: usize,
}
pub const LONG_VALUE: usize = 33;
impl Vals {
    pub fn new(kind: usize) -> Vals {
        Vals { kind, mode: if kind == 5 { choice(3) } else { 0 }, i: 0 }
    }
    pub fn next(&mut self) -> Vec<u8> {
        self.i += 1;
        let long = match self.kind {
            1 => false,
            2 => choice(2) == 1,
            3 => true,
            // every third long, nothing to decide
            7 => self.i % 3 == 0,
            6 => {
                // lengths of all orders, whatever a piece of code may take for long
                let mut v = value_sized([1, 20, 48, 65, 130, 300, 1000][choice(7)]);
                let n = v.len();
                // the first two agree but for their first byte
                v[n - 1] = v[n - 1].wrapping_add((self.i as u8 - 1) / 2);
                return v;
            }
            _ => match self.mode {
                0 => false,
                1 => true,
                _ => self.i % 2 == 1,
            },
        };
        if self.kind == 7 && self.i > 40 {
            return vec![self.i as u8 | 1; if long { LONG_VALUE } else { 1 }];
        }
        if (self.kind == 5 && !long && self.i > 2) || (self.kind == 7 && !long) {
            // RLP encodes single bytes from 0x80 on differently; past the second value the half is fixed, not both tried
            return vec![var(7) as u8 | if self.i % 3 == 0 { 0x80 } else { 0 }];
        }
        let mut v = value_sized(if long { LONG_VALUE } else { 1 });
        if (self.kind == 5 || self.kind == 7) && long {
            v[1] = self.i as u8;
        }
        v
    }
}
/// the nibble by which a key of a comb parts from its spine: the last slot and the first in turn
fn off(spine: &[u8], at: usize) -> u8 {
    if at % 2 == 1 && spine[at] != 0 {
        0
    } else {
        15
    }
}
/// value of `len` bytes whose first byte is free
pub fn value_sized(len: usize) -> Vec<u8> {
    let mut v = vec![7u8; len];
    v[0] = byte();
    crate::note!("value of {} bytes from {:x}", len, v[0]);
    v
}

#[derive(Clone)]
pub enum Fam {
    /// keys of up to n nibbles out of an alphabet
    Short(Alphabet, usize),
    /// long keys parting at two positions
    Long(usize, usize),
    /// one branch below some nibbles
    Wide(usize, Alphabet),
    /// each key extends the one before
    Deep(Vec<u8>),
    /// full-length keys parting from one of them all the way down, tried at so many of the positions
    Comb(Vec<usize>),
    /// all keys of two nibbles
    Full(Alphabet),
}

pub struct World<T> {
    pub t: T,
    pub m: Map,
    pub fam: Fam,
    pub vals: Vals,
}

impl<T: PartialTrie> World<T> {
    pub fn put(&mut self, k: &Key) {
        let v = self.vals.next();
        self.put_value(k, v);
    }
    pub fn put_value(&mut self, k: &Key, v: Vec<u8>) {
        crate::note!("insert {} {:x}", hex(&k.n), v[0]);
        self.t.insert(k.nibbles(), v.clone());
        self.m.insert(k, &v);
    }
    pub fn del(&mut self, k: &Key) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
        crate::note!("delete {}", hex(&k.n));
        let got = self.t.delete(k.nibbles());
        (got, self.m.remove(k))
    }

    /// params: family, its parameters
    ///  0 operations, longest key, alphabet, values, deletes allowed
    ///  1 key length, step between positions, whether all nibbles are free or only one, values
    ///  2 most children, values, alphabet of the slots that probes try
    ///  3 keys in the chain, longest step, values
    ///  4 longest step between parting positions (or 100 + the only one), values, positions that probes try
    ///  5 fewest first nibbles, values, alphabet of probes
    pub fn any(p: &mut P, mut after: impl FnMut(&mut World<T>)) -> World<T> {
        let mut w = World { t: T::default(), m: Map::default(), fam: Fam::Wide(0, Alphabet(2)), vals: Vals { kind: 1, mode: 0, i: 0 } };
        match p.next() {
            0 => {
                let (ops, maxlen, al) = (p.next(), p.next(), Alphabet(p.next()));
                w.fam = Fam::Short(al, maxlen);
                w.vals = Vals::new(p.next());
                let dels = p.next() == 1;
                let n = choice(ops + 1);
                for _ in 0..n {
                    let del = dels && !w.m.e.is_empty() && choice(2) == 1;
                    let k = al.key(0, maxlen);
                    if del {
                        w.del(&k);
                        cover(101);
                    } else {
                        w.put(&k);
                    }
                    after(&mut w);
                }
            }
            1 => {
                let (len, step, free) = (p.next(), p.next(), p.next());
                w.vals = Vals::new(p.next());
                let n = (len - 1) / step + 1;
                let pa = choice(n) * step;
                let pb = choice(n) * step;
                w.fam = Fam::Long(pa, pb);
                let mut a = if free == 1 {
                    Key::packed(len)
                } else if free > 1 {
                    Key { n: vec![[0, 15][free - 2]; len] }
                } else {
                    let mut n: Vec<u8> = (0..len).map(|i| (i * 5 % 13) as u8).collect();
                    n[(pa + 20) % len] = nib();
                    Key { n }
                };
                // fixed where probes part from it, so that the slot in the new branch is known
                if free < 2 {
                    a.n[len - 1] = 6;
                    a.n[(pa + 1).min(len - 1)] = 4;
                    a.n[(pb + 1).min(len - 1)] = 4;
                    a.n[pa.saturating_sub(1)] = 5;
                    a.n[pb.saturating_sub(1)] = 5;
                }
                a.n[pa] = 1;
                a.n[pb] = 1;
                let mut b = a.clone();
                b.n[pa] = 2;
                let mut c = a.clone();
                if choice(2) == 1 {
                    c.n.truncate(pb);
                } else {
                    c.n[pb] = 3;
                }
                for k in [&a, &b, &c] {
                    w.put(k);
                    after(&mut w);
                }
            }
            2 => {
                let most = p.next();
                w.vals = Vals::new(p.next());
                let pre = choice(2);
                w.fam = Fam::Wide(pre, Alphabet(p.next()));
                let have = choice(most + 1);
                let up = choice(2) == 1;
                for i in 0..have {
                    let last = if up { i } else { 15 - i } as u8;
                    let mut n = vec![8; pre];
                    n.push(last);
                    w.put(&Key { n });
                    after(&mut w);
                }
                if choice(2) == 1 {
                    w.put(&Key { n: vec![8; pre] });
                    after(&mut w);
                }
            }
            4 => {
                let most = p.next();
                let step = if most > 100 { most - 100 } else { 1 + choice(most) };
                w.vals = Vals::new(p.next());
                let base: Vec<u8> = (0..64).map(|i| (i * 5 % 13) as u8).collect();
                let mut at: Vec<usize> = (0..64).step_by(step).collect();
                w.put(&Key { n: base.clone() });
                after(&mut w);
                if choice(2) == 1 {
                    at.reverse();
                }
                for p in &at {
                    let mut n = base.clone();
                    n[*p] = off(&base, *p);
                    w.put(&Key { n });
                    after(&mut w);
                }
                at.sort();
                let tried = p.next().min(at.len());
                w.fam = Fam::Comb((0..tried).map(|i| at[(at.len() - 1) * i / (tried - 1).max(1)]).collect());
            }
            5 => {
                let least = p.next();
                w.vals = Vals::new(p.next());
                w.fam = Fam::Full(Alphabet(p.next()));
                let n = least + choice(17 - least);
                let step = [1, 11][choice(2)];
                for i in 0..16 * n {
                    let i = i * step % (16 * n);
                    w.put(&Key { n: vec![i as u8 / 16, i as u8 % 16] });
                    after(&mut w);
                }
            }
            _ => {
                let (keys, maxstep) = (p.next(), p.next());
                w.vals = Vals::new(p.next());
                let step = 1 + choice(maxstep);
                let mut long = vec![];
                for i in 0..keys * step {
                    long.push((i % 7 * 2) as u8);
                }
                for i in 0..keys {
                    w.put(&Key { n: long[..step * i].to_vec() });
                    after(&mut w);
                }
                w.fam = Fam::Deep(long);
            }
        }
        w
    }

    /// any trie of the family
    pub fn new(p: &mut P) -> World<T> {
        World::any(p, |_| {})
    }

    /// a key to try on the trie: stored, absent, prefix, extension, or parting from a stored key
    pub fn probe(&self) -> Key {
        let k = match &self.fam {
            Fam::Short(al, maxlen) => return al.key(0, maxlen + 1),
            Fam::Long(pa, pb) => {
                let mut k = self.m.e[choice(self.m.e.len())].0.clone();
                match choice(4) {
                    0 => {}
                    1 => k.n.truncate([*pa, *pb][choice(2)]),
                    2 => k.n.truncate([*pa, *pb][choice(2)] + 1),
                    _ => {
                        let at = [*pa, *pb, pb.saturating_sub(1), k.n.len().saturating_sub(1)][choice(4)];
                        if at < k.n.len() {
                            k.n[at] = 14;
                        }
                    }
                }
                k
            }
            Fam::Wide(pre, al) => {
                let mut n = vec![8; *pre];
                match choice(6) {
                    0 => n.push(al.nib()),
                    1 => {
                        n.push(al.nib());
                        n.push(8);
                    }
                    2 => {}
                    3 => n = vec![],
                    4 => n = vec![3],
                    _ => n = vec![3, 0, 8],
                }
                Key { n }
            }
            Fam::Comb(at) => {
                let p = at[choice(at.len())];
                let mut n = self.m.e[0].0.n.clone();
                match choice(5) {
                    0 => n[p] = off(&n, p),
                    1 => n[p] = 14,
                    2 => n.truncate(p),
                    3 => {
                        n[p] = off(&n, p);
                        n[63] ^= 1;
                    }
                    _ => {}
                }
                Key { n }
            }
            Fam::Full(al) => {
                let mut n = vec![al.nib(), al.nib()];
                match choice(4) {
                    0 => {}
                    1 => n.truncate(1),
                    2 => n.clear(),
                    _ => n.push(0),
                }
                Key { n }
            }
            Fam::Deep(long) => {
                let mut k = Key { n: long[..choice(long.len() + 1)].to_vec() };
                if !k.n.is_empty() && choice(2) == 1 {
                    *k.n.last_mut().unwrap() = 15;
                }
                k
            }
        };
        crate::note!("key {}", hex(&k.n));
        k
    }
}

/// a fresh trie with the given contents, inserted in order
#[inline(never)]
pub fn fresh<T: PartialTrie>(m: &Map) -> T {
    let mut t = T::default();
    for (k, v) in &m.e {
        t.insert(k.nibbles(), v.clone());
    }
    t
}

/// the same nodes in the other trie type
#[inline(never)]
pub fn convert<A: PartialTrie, B: PartialTrie>(n: &Node<A>) -> Node<B> {
    match n {
        Node::Empty => Node::Empty,
        Node::Hash(h) => Node::Hash(*h),
        Node::Branch { children, value } => {
            let children = std::array::from_fn(|i| std::sync::Arc::new(Box::new(B::new(convert(&children[i])))));
            Node::Branch { children, value: value.clone() }
        }
        Node::Extension { nibbles, child } => {
            Node::Extension { nibbles: *nibbles, child: std::sync::Arc::new(Box::new(B::new(convert(child)))) }
        }
        Node::Leaf { nibbles, value } => Node::Leaf { nibbles: *nibbles, value: value.clone() },
    }
}
#[inline(never)]
pub fn same_nibbles(a: &eth_trie_utils::nibbles::Nibbles, b: &eth_trie_utils::nibbles::Nibbles) -> bool {
    let mut d = 0;
    for i in 0..8 {
        d |= a.packed.0[i] ^ b.packed.0[i];
    }
    a.count == b.count && d == 0
}
/// node-by-node comparison, independent of the crate's
#[inline(never)]
pub fn same_nodes<A: PartialTrie, B: PartialTrie>(a: &Node<A>, b: &Node<B>) -> bool {
    match (a, b) {
        (Node::Empty, Node::Empty) => true,
        (Node::Hash(x), Node::Hash(y)) => same_seq(&x.0, &y.0),
        (Node::Branch { children: c, value: v }, Node::Branch { children: d, value: w }) => {
            if !same_seq(v, w) {
                return false;
            }
            for i in 0..16 {
                if !same_nodes::<A, B>(&c[i], &d[i]) {
                    return false;
                }
            }
            true
        }
        (Node::Extension { nibbles: n, child: c }, Node::Extension { nibbles: m, child: d }) => same_nibbles(n, m) && same_nodes::<A, B>(c, d),
        (Node::Leaf { nibbles: n, value: v }, Node::Leaf { nibbles: m, value: w }) => same_nibbles(n, m) && same_seq(v, w),
        _ => false,
    }
}
/// canonical form: no branch with fewer than two occupants, no empty extension, none that leads to anything but a branch (or hash)
#[inline(never)]
pub fn canonical<T: PartialTrie>(n: &Node<T>) -> bool {
    match n {
        Node::Empty | Node::Hash(_) => true,
        Node::Leaf { value, .. } => !value.is_empty(),
        Node::Extension { nibbles, child } => {
            let c: &Node<T> = child;
            nibbles.count > 0 && matches!(c, Node::Branch { .. } | Node::Hash(_)) && canonical(c)
        }
        Node::Branch { children, value } => {
            let mut k = usize::from(!value.is_empty());
            for c in children {
                let c: &Node<T> = c;
                if !matches!(c, Node::Empty) {
                    k += 1;
                }
                if !canonical(c) {
                    return false;
                }
            }
            k >= 2
        }
    }
}

/// hash of a never-hashed trie with the same nodes
#[inline(never)]
pub fn unhashed<T: PartialTrie>(t: &T) -> ethereum_types::H256 {
    StandardTrie(convert::<T, StandardTrie>(t)).hash()
}
pub fn same_h(a: ethereum_types::H256, b: ethereum_types::H256) -> bool {
    same_seq(&a.0, &b.0)
}

/// replaces any set of nodes (below the root too if `root`) by hash nodes; with `real` by their own hashes where a hash may stand for
/// them, otherwise by numbered ones
#[inline(never)]
pub fn hash_out<T: PartialTrie>(n: &Node<T>, root: bool, real: bool, most: &mut usize) -> Node<T> {
    let mut sub = |c: &WrappedNode<T>| -> WrappedNode<T> {
        let c: &Node<T> = c;
        std::sync::Arc::new(Box::new(T::new(hash_out(c, true, real, most))))
    };
    match n {
        Node::Empty => return Node::Empty,
        Node::Hash(h) => return Node::Hash(*h),
        _ => {}
    }
    let out = match n {
        Node::Branch { children, value } => {
            let children = std::array::from_fn(|i| sub(&children[i]));
            Node::Branch { children, value: value.clone() }
        }
        Node::Extension { nibbles, child } => Node::Extension { nibbles: *nibbles, child: sub(child) },
        o => o.clone(),
    };
    if root && *most > 0 && choice(2) == 1 {
        let h = if real {
            let e = crate::mpt::encode_node(&out).unwrap();
            if e.len() < 32 {
                return out;
            }
            crate::mpt::keccak(&e)
        } else {
            let mut h = [0x55; 32];
            h[0] = *most as u8;
            h
        };
        *most -= 1;
        crate::note!("a node hashed out");
        cover(110);
        return Node::Hash(ethereum_types::H256(h));
    }
    out
}
