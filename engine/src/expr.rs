//! Hash-consed bit-vector expressions with a normalising simplifier.
//! Widths are 1..=128 bits.  Concatenations are kept flat (most significant part first) so that the shifting and
//! masking that the nibble code does on multi-word integers turns into mere rearrangement of parts.
use std::collections::HashMap;

pub type Eid = u32;
pub type Sup = [u64; 4];
pub const MAX_VARS: usize = 256;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum E {
    Const(u128),
    Var(u32),
    Ext(Eid, u8),
    Cat(Box<[Eid]>),
    Not(Eid),
    And(Eid, Eid),
    Or(Eid, Eid),
    Xor(Eid, Eid),
    Add(Eid, Eid),
    Sub(Eid, Eid),
    Mul(Eid, Eid),
    UDiv(Eid, Eid),
    URem(Eid, Eid),
    SDiv(Eid, Eid),
    SRem(Eid, Eid),
    Shl(Eid, Eid),
    LShr(Eid, Eid),
    AShr(Eid, Eid),
    Eq(Eid, Eid),
    Ult(Eid, Eid),
    Slt(Eid, Eid),
    Ite(Eid, Eid, Eid),
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    ((v << (128 - w)) as i128) >> (128 - w)
}

#[derive(Default)]
struct FxHasher(u64);
impl std::hash::Hasher for FxHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
#[derive(Default, Clone)]
pub struct Fx;
impl std::hash::BuildHasher for Fx {
    type Hasher = FxHasherPub;
    fn build_hasher(&self) -> FxHasherPub {
        FxHasherPub(FxHasher(0))
    }
}
pub struct FxHasherPub(FxHasher);
impl std::hash::Hasher for FxHasherPub {
    fn finish(&self) -> u64 {
        // the low bits of a multiplicative hash are weak
        let x = self.0.finish();
        x ^ (x >> 32)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
    fn write_u8(&mut self, i: u8) {
        self.0.write_u8(i)
    }
    fn write_u32(&mut self, i: u32) {
        self.0.write_u32(i)
    }
    fn write_u64(&mut self, i: u64) {
        self.0.write_u64(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.0.write_usize(i)
    }
}
pub type FxMap<K, V> = HashMap<K, V, Fx>;

pub struct Arena {
    pub nodes: Vec<E>,
    pub width: Vec<u8>,
    pub sup: Vec<Sup>,
    /// leaves of a choice between constants (1 for a constant, 0 for anything else)
    leaves: Vec<u8>,
    /// additions and multiplications (which weigh more) on top of each other
    pub deep: Vec<u8>,
    map: FxMap<(E, u8), Eid>,
    pub t: Eid,
    pub f: Eid,
    memo: Vec<(u32, u128)>,
    gen: u32,
}

fn union(a: &Sup, b: &Sup) -> Sup {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn sup_intersects(a: &Sup, b: &Sup) -> bool {
    (a[0] & b[0]) | (a[1] & b[1]) | (a[2] & b[2]) | (a[3] & b[3]) != 0
}
pub fn sup_subset(a: &Sup, b: &Sup) -> bool {
    (a[0] & !b[0]) | (a[1] & !b[1]) | (a[2] & !b[2]) | (a[3] & !b[3]) == 0
}
pub fn sup_union(a: &Sup, b: &Sup) -> Sup {
    union(a, b)
}

const MAX_LEAVES: u32 = 65;

impl Arena {
    /// a choice between constants where a condition is known to hold or not to hold
    fn given(&mut self, e: Eid, c: Eid, v: bool) -> Eid {
        if self.leaves[e as usize] < 2 {
            return e;
        }
        let mut facts = vec![];
        self.facts(c, v, 8, &mut facts);
        self.given_facts(e, &facts)
    }
    fn facts(&self, c: Eid, v: bool, depth: u32, out: &mut Vec<(Eid, bool)>) {
        out.push((c, v));
        match self.nodes[c as usize] {
            E::Not(a) if depth > 0 => self.facts(a, !v, depth - 1, out),
            E::And(a, b) if v && depth > 0 => {
                self.facts(a, v, depth - 1, out);
                self.facts(b, v, depth - 1, out);
            }
            E::Or(a, b) if !v && depth > 0 => {
                self.facts(a, v, depth - 1, out);
                self.facts(b, v, depth - 1, out);
            }
            _ => {}
        }
    }
    fn decide(&self, c: Eid, facts: &[(Eid, bool)], depth: u32) -> Option<bool> {
        if let Some(f) = facts.iter().find(|f| f.0 == c) {
            return Some(f.1);
        }
        if depth == 0 {
            return None;
        }
        match self.nodes[c as usize] {
            E::Not(a) => self.decide(a, facts, depth - 1).map(|v| !v),
            E::And(a, b) => match (self.decide(a, facts, depth - 1), self.decide(b, facts, depth - 1)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            E::Or(a, b) => match (self.decide(a, facts, depth - 1), self.decide(b, facts, depth - 1)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            _ => None,
        }
    }
    fn given_facts(&mut self, e: Eid, facts: &[(Eid, bool)]) -> Eid {
        match self.tree(e) {
            None => e,
            Some((c, a, b)) => match self.decide(c, facts, 4) {
                Some(true) => self.given_facts(a, facts),
                Some(false) => self.given_facts(b, facts),
                None => {
                    let (x, y) = (self.given_facts(a, facts), self.given_facts(b, facts));
                    if x == a && y == b {
                        e
                    } else {
                        self.choose(c, x, y)
                    }
                }
            },
        }
    }
    /// like `ite`, neighbouring equal constants become one and repeated conditions go
    fn choose(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        let (a, b) = (self.given(a, c, true), self.given(b, c, false));
        if a == b {
            return a;
        }
        if self.as_const(a).is_some() {
            if let Some((c2, x, y)) = self.tree(b) {
                if x == a {
                    let q = self.or(c, c2);
                    return self.choose(q, a, y);
                }
                if y == a {
                    let n = self.not(c2);
                    let q = self.or(c, n);
                    return self.choose(q, a, x);
                }
            }
        } else if self.as_const(b).is_some() {
            if let Some((c2, x, y)) = self.tree(a) {
                if x == b {
                    let n = self.not(c2);
                    let q = self.and(c, n);
                    return self.choose(q, y, b);
                }
                if y == b {
                    let q = self.and(c, c2);
                    return self.choose(q, x, b);
                }
            }
        }
        self.ite(c, a, b)
    }
    /// a single bit beside a choice between constants as a choice between 0 and 1
    fn as_trees(&mut self, a: Eid, b: Eid) -> (Eid, Eid) {
        let w = self.w(a);
        let bit = |ar: &mut Arena, x: Eid, other: Eid| {
            if w > 8 && ar.leaves[x as usize] == 0 && ar.leaves[other as usize] > 1 && ar.high_zeros(x) == w - 1 {
                let q = ar.ext(x, 0, 1);
                let (i, o) = (ar.konst(1, w), ar.konst(0, w));
                ar.raw(E::Ite(q, i, o), w)
            } else {
                x
            }
        };
        (bit(self, a, b), bit(self, b, a))
    }
    /// both choices between constants, together with few cases
    fn trees(&self, a: Eid, b: Eid) -> Option<(Eid, Eid, Eid)> {
        let (x, y) = (self.leaves[a as usize] as u32, self.leaves[b as usize] as u32);
        if x > 1 && y > 1 && x * y <= 256 {
            self.tree(a)
        } else {
            None
        }
    }
    /// condition and sides of a choice between constants
    fn tree(&self, e: Eid) -> Option<(Eid, Eid, Eid)> {
        match self.nodes[e as usize] {
            E::Ite(c, a, b) if self.leaves[e as usize] > 0 => Some((c, a, b)),
            _ => None,
        }
    }
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], width: vec![], sup: vec![], leaves: vec![], deep: vec![], map: Default::default(), t: 0, f: 0, memo: vec![], gen: 1 };
        a.f = a.konst(0, 1);
        a.t = a.konst(1, 1);
        a
    }
    pub fn w(&self, e: Eid) -> u32 {
        self.width[e as usize] as u32
    }
    fn raw(&mut self, n: E, w: u32) -> Eid {
        debug_assert!(w >= 1 && w <= 128);
        let key = (n, w as u8);
        if let Some(&id) = self.map.get(&key) {
            return id;
        }
        let id = self.nodes.len() as Eid;
        let mut s: Sup = [0; 4];
        match &key.0 {
            E::Const(_) => {}
            E::Var(v) => s[(*v / 64) as usize] |= 1 << (*v % 64),
            E::Ext(a, _) | E::Not(a) => s = self.sup[*a as usize],
            E::Cat(ps) => {
                for p in ps.iter() {
                    s = union(&s, &self.sup[*p as usize])
                }
            }
            E::And(a, b) | E::Or(a, b) | E::Xor(a, b) | E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) | E::UDiv(a, b) | E::URem(a, b) | E::SDiv(a, b) | E::SRem(a, b) | E::Shl(a, b) | E::LShr(a, b) | E::AShr(a, b) | E::Eq(a, b) | E::Ult(a, b) | E::Slt(a, b) => {
                s = union(&self.sup[*a as usize], &self.sup[*b as usize])
            }
            E::Ite(a, b, c) => s = union(&union(&self.sup[*a as usize], &self.sup[*b as usize]), &self.sup[*c as usize]),
        }
        let leaves = match &key.0 {
            E::Const(_) => 1,
            E::Ite(_, a, b) => match (self.leaves[*a as usize] as u32, self.leaves[*b as usize] as u32) {
                (x, y) if x > 0 && y > 0 && x + y <= MAX_LEAVES => (x + y) as u8,
                _ => 0,
            },
            _ => 0,
        };
        let d = |e: &Eid| self.deep[*e as usize];
        let deep = match &key.0 {
            E::Const(_) | E::Var(_) => 0,
            E::Ext(a, _) | E::Not(a) => d(a),
            E::Cat(ps) => ps.iter().map(d).max().unwrap_or(0),
            E::Add(a, b) | E::Sub(a, b) => d(a).max(d(b)).saturating_add(1),
            E::Mul(a, b) | E::UDiv(a, b) | E::URem(a, b) | E::SDiv(a, b) | E::SRem(a, b) => d(a).max(d(b)).saturating_add(4),
            E::And(a, b) | E::Or(a, b) | E::Xor(a, b) | E::Shl(a, b) | E::LShr(a, b) | E::AShr(a, b) | E::Eq(a, b) | E::Ult(a, b) | E::Slt(a, b) => d(a).max(d(b)),
            E::Ite(a, b, c) => d(a).max(d(b)).max(d(c)),
        };
        self.deep.push(deep);
        self.leaves.push(leaves);
        self.nodes.push(key.0.clone());
        self.width.push(w as u8);
        self.sup.push(s);
        self.memo.push((0, 0));
        self.map.insert(key, id);
        id
    }
    pub fn konst(&mut self, v: u128, w: u32) -> Eid {
        self.raw(E::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, i: u32, w: u32) -> Eid {
        self.raw(E::Var(i), w)
    }
    pub fn as_const(&self, e: Eid) -> Option<u128> {
        if let E::Const(v) = self.nodes[e as usize] {
            Some(v)
        } else {
            None
        }
    }
    pub fn bool(&self, b: bool) -> Eid {
        if b {
            self.t
        } else {
            self.f
        }
    }

    // ---- extract / concat ----
    pub fn ext(&mut self, e: Eid, lo: u32, w: u32) -> Eid {
        let ew = self.w(e);
        debug_assert!(lo + w <= ew);
        if lo == 0 && w == ew {
            return e;
        }
        match self.nodes[e as usize].clone() {
            E::Const(v) => self.konst(v >> lo, w),
            E::Ext(a, l2) => self.ext(a, lo + l2 as u32, w),
            E::Cat(ps) => {
                let mut out: Vec<Eid> = vec![];
                let mut pos = ew;
                for p in ps.iter() {
                    let pw = self.w(*p);
                    let plo = pos - pw;
                    // part covers [plo, pos)
                    let l = lo.max(plo);
                    let h = (lo + w).min(pos);
                    if l < h {
                        let x = self.ext(*p, l - plo, h - l);
                        out.push(x);
                    }
                    pos = plo;
                }
                self.cat(&out)
            }
            E::Not(a) => {
                let x = self.ext(a, lo, w);
                self.not(x)
            }
            E::And(a, b) => {
                let (x, y) = (self.ext(a, lo, w), self.ext(b, lo, w));
                self.and(x, y)
            }
            E::Or(a, b) => {
                let (x, y) = (self.ext(a, lo, w), self.ext(b, lo, w));
                self.or(x, y)
            }
            E::Xor(a, b) => {
                let (x, y) = (self.ext(a, lo, w), self.ext(b, lo, w));
                self.xor(x, y)
            }
            E::Add(a, b) if lo == 0 => {
                let (x, y) = (self.ext(a, 0, w), self.ext(b, 0, w));
                self.add(x, y)
            }
            E::Sub(a, b) if lo == 0 => {
                let (x, y) = (self.ext(a, 0, w), self.ext(b, 0, w));
                self.sub(x, y)
            }
            E::Mul(a, b) if lo == 0 => {
                let (x, y) = (self.ext(a, 0, w), self.ext(b, 0, w));
                self.mul(x, y)
            }
            E::Ite(c, a, b) => {
                let (x, y) = (self.ext(a, lo, w), self.ext(b, lo, w));
                // bytes keep their conditions, so that they can be put together again
                if w > 16 {
                    self.choose(c, x, y)
                } else {
                    self.ite(c, x, y)
                }
            }
            _ => self.raw(E::Ext(e, lo as u8), w),
        }
    }
    /// parts are most significant first
    pub fn cat(&mut self, parts: &[Eid]) -> Eid {
        let mut out: Vec<Eid> = Vec::with_capacity(parts.len());
        for &p in parts {
            if let E::Cat(ps) = &self.nodes[p as usize] {
                let ps = ps.clone();
                for q in ps.iter() {
                    self.cat_push(&mut out, *q);
                }
            } else {
                self.cat_push(&mut out, p);
            }
        }
        if out.len() == 1 {
            return out[0];
        }
        // a choice between constants among constants
        if out.len() <= 3 && out.iter().filter(|p| self.as_const(**p).is_none()).count() == 1 {
            let i = out.iter().position(|p| self.as_const(*p).is_none()).unwrap();
            if let Some((q, x, y)) = self.tree(out[i]) {
                out[i] = x;
                let x = self.cat(&out);
                out[i] = y;
                let y = self.cat(&out);
                return self.choose(q, x, y);
            }
        }
        let w: u32 = out.iter().map(|p| self.w(*p)).sum();
        self.raw(E::Cat(out.into_boxed_slice()), w)
    }
    fn cat_push(&mut self, out: &mut Vec<Eid>, p: Eid) {
        if let Some(&last) = out.last() {
            let (lw, pw) = (self.w(last), self.w(p));
            match (&self.nodes[last as usize], &self.nodes[p as usize]) {
                (E::Const(a), E::Const(b)) => {
                    let v = (a << pw) | b;
                    let x = self.konst(v, lw + pw);
                    *out.last_mut().unwrap() = x;
                    return;
                }
                (E::Ext(a, la), E::Ext(b, lb)) if a == b && *la as u32 == *lb as u32 + pw => {
                    let (a, lb) = (*a, *lb as u32);
                    let x = self.ext(a, lb, lw + pw);
                    *out.last_mut().unwrap() = x;
                    return;
                }
                (E::Ite(c1, a1, b1), E::Ite(c2, a2, b2)) if c1 == c2 => {
                    // re-join bytes of one select
                    let (c, a1, b1, a2, b2) = (*c1, *a1, *b1, *a2, *b2);
                    let x = self.cat(&[a1, a2]);
                    let y = self.cat(&[b1, b2]);
                    let r = self.ite(c, x, y);
                    out.pop();
                    if let E::Cat(ps) = self.nodes[r as usize].clone() {
                        for q in ps.iter() {
                            self.cat_push(out, *q);
                        }
                    } else {
                        self.cat_push(out, r);
                    }
                    return;
                }
                _ => {}
            }
        }
        out.push(p);
    }
    pub fn zext(&mut self, e: Eid, w: u32) -> Eid {
        let ew = self.w(e);
        if w == ew {
            return e;
        }
        let z = self.konst(0, w - ew);
        self.cat(&[z, e])
    }
    pub fn sext(&mut self, e: Eid, w: u32) -> Eid {
        let ew = self.w(e);
        if w == ew {
            return e;
        }
        let s = self.ext(e, ew - 1, 1);
        let ones = self.konst(mask(w - ew), w - ew);
        let z = self.konst(0, w - ew);
        let hi = self.ite(s, ones, z);
        self.cat(&[hi, e])
    }
    /// parts with widths, least significant first
    fn bounds(&self, e: Eid, out: &mut Vec<u32>) {
        if let E::Cat(ps) = &self.nodes[e as usize] {
            let mut pos = 0;
            for p in ps.iter().rev() {
                pos += self.w(*p);
                out.push(pos);
            }
        } else {
            out.push(self.w(e));
        }
    }
    /// common refinement of the part boundaries of a and b (as cut positions, ending with the width)
    fn cuts(&self, a: Eid, b: Eid) -> Vec<u32> {
        let mut v = vec![];
        self.bounds(a, &mut v);
        self.bounds(b, &mut v);
        v.sort_unstable();
        v.dedup();
        v
    }
    fn is_cat(&self, e: Eid) -> bool {
        matches!(self.nodes[e as usize], E::Cat(_))
    }

    // ---- bitwise ----
    pub fn not(&mut self, e: Eid) -> Eid {
        let w = self.w(e);
        match self.nodes[e as usize].clone() {
            E::Const(v) => self.konst(!v, w),
            E::Not(a) => a,
            E::Cat(ps) => {
                let v: Vec<Eid> = ps.iter().map(|p| self.not(*p)).collect();
                self.cat(&v)
            }
            E::Ite(c, a, b) if self.as_const(a).is_some() && self.as_const(b).is_some() => {
                let (x, y) = (self.not(a), self.not(b));
                self.ite(c, x, y)
            }
            _ => self.raw(E::Not(e), w),
        }
    }
    /// split a constant into runs of equal bits: (lo, len, bit)
    fn runs(v: u128, w: u32) -> Vec<(u32, u32, bool)> {
        let mut out = vec![];
        let mut i = 0;
        while i < w {
            let b = (v >> i) & 1 == 1;
            let mut j = i + 1;
            while j < w && ((v >> j) & 1 == 1) == b {
                j += 1;
            }
            out.push((i, j - i, b));
            i = j;
        }
        out
    }
    /// "these parts of two values differ": the values and the place of the part
    fn differ(&self, e: Eid) -> Option<(Eid, Eid, u32, u32)> {
        let (x, y) = match self.nodes[e as usize] {
            E::Xor(x, y) => (x, y),
            E::Not(n) => match self.nodes[n as usize] {
                E::Eq(x, y) => (x, y),
                _ => return None,
            },
            _ => return None,
        };
        let w = self.w(x);
        let (a, la) = match self.nodes[x as usize] {
            E::Ext(a, l) => (a, l as u32),
            _ => (x, 0),
        };
        let (b, lb) = match self.nodes[y as usize] {
            E::Ext(b, l) => (b, l as u32),
            _ => (y, 0),
        };
        if la != lb || self.w(a) != self.w(b) || self.as_const(a).is_some() || self.as_const(b).is_some() {
            return None;
        }
        Some((a.min(b), a.max(b), la, w))
    }
    /// differences in neighbouring parts as one
    fn join(&mut self, p: Eid, q: Eid) -> Option<Eid> {
        let (x, y) = (self.differ(p)?, self.differ(q)?);
        if (x.0, x.1) != (y.0, y.1) {
            return None;
        }
        let (lo, hi) = if x.2 < y.2 { (x, y) } else { (y, x) };
        if lo.2 + lo.3 != hi.2 {
            return None;
        }
        let (a, b) = (self.ext(x.0, lo.2, lo.3 + hi.3), self.ext(x.1, lo.2, lo.3 + hi.3));
        let e = self.eq(a, b);
        Some(self.not(e))
    }
    /// a choice between two constants, as its condition and the constants
    fn two(&self, e: Eid) -> Option<(Eid, u128, u128)> {
        match self.nodes[e as usize] {
            E::Ite(c, a, b) if self.width[e as usize] > 1 => Some((c, self.as_const(a)?, self.as_const(b)?)),
            _ => None,
        }
    }
    /// the bits of two such choices, in runs of bits that depend on the conditions in the same way
    fn columns(p: &(Eid, u128, u128), q: &(Eid, u128, u128), w: u32) -> Vec<(u32, u32, u8)> {
        let at = |i: u32| ((p.1 >> i & 1) | (p.2 >> i & 1) << 1 | (q.1 >> i & 1) << 2 | (q.2 >> i & 1) << 3) as u8;
        let mut out: Vec<(u32, u32, u8)> = vec![];
        for i in 0..w {
            match out.last_mut() {
                Some(l) if l.2 == at(i) => l.1 += 1,
                _ => out.push((i, 1, at(i))),
            }
        }
        out
    }
    fn column(&mut self, c: Eid, kind: u8) -> Eid {
        match kind {
            0 => self.f,
            1 => c,
            2 => self.not(c),
            _ => self.t,
        }
    }
    fn bitop(&mut self, a: Eid, b: Eid, op: u8) -> Eid {
        // op: 0 and, 1 or, 2 xor
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = match op {
                0 => x & y,
                1 => x | y,
                _ => x ^ y,
            };
            return self.konst(r, w);
        }
        let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
        if a == b {
            return match op {
                2 => self.konst(0, w),
                _ => a,
            };
        }
        if let Some(c) = cb {
            let ones = mask(w);
            if c == 0 {
                return if op == 0 { b } else { a };
            }
            if c == ones {
                return match op {
                    0 => a,
                    1 => b,
                    _ => self.not(a),
                };
            }
            let runs = Self::runs(c, w);
            let mut parts = vec![];
            for &(lo, len, bit) in runs.iter().rev() {
                let p = match (op, bit) {
                    (0, false) => self.konst(0, len),
                    (1, true) => self.konst(mask(len), len),
                    (2, true) => {
                        let x = self.ext(a, lo, len);
                        self.not(x)
                    }
                    _ => self.ext(a, lo, len),
                };
                parts.push(p);
            }
            return self.cat(&parts);
        }
        if self.is_cat(a) || self.is_cat(b) {
            let cuts = self.cuts(a, b);
            let mut parts = vec![];
            let mut lo = 0;
            for c in cuts {
                let (x, y) = (self.ext(a, lo, c - lo), self.ext(b, lo, c - lo));
                parts.push(self.bitop(x, y, op));
                lo = c;
            }
            parts.reverse();
            return self.cat(&parts);
        }
        if w == 1 {
            // complementary operands
            let na = self.not(a);
            if na == b {
                return match op {
                    0 => self.f,
                    _ => self.t,
                };
            }
            if op == 1 {
                if let Some(e) = self.join(a, b) {
                    return e;
                }
                for (p, q) in [(a, b), (b, a)] {
                    if let E::Or(x, y) = self.nodes[p as usize] {
                        if let Some(e) = self.join(x, q) {
                            return self.or(e, y);
                        }
                        if let Some(e) = self.join(y, q) {
                            return self.or(e, x);
                        }
                    }
                }
            }
            if op == 0 {
                if let (E::Not(x), E::Not(y)) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone()) {
                    if let Some(e) = self.join(x, y) {
                        return self.not(e);
                    }
                }
            }
            // absorption for one level of nesting
            if op == 0 {
                if let E::And(x, y) = self.nodes[a as usize] {
                    if x == b || y == b {
                        return a;
                    }
                }
                if let E::And(x, y) = self.nodes[b as usize] {
                    if x == a || y == a {
                        return b;
                    }
                }
            }
            if op == 1 {
                if let E::Or(x, y) = self.nodes[a as usize] {
                    if x == b || y == b {
                        return a;
                    }
                }
                if let E::Or(x, y) = self.nodes[b as usize] {
                    if x == a || y == a {
                        return b;
                    }
                }
            }
        }
        if let (Some(p), Some(q)) = (self.two(a), self.two(b)) {
            let mut parts = vec![];
            for (_, len, col) in Self::columns(&p, &q, w) {
                let (x, y) = (self.column(p.0, col & 3), self.column(q.0, col >> 2));
                let r = self.bitop(x, y, op);
                let (i, o) = (self.konst(mask(len), len), self.konst(0, len));
                parts.push(self.ite(r, i, o));
            }
            parts.reverse();
            return self.cat(&parts);
        }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        self.raw(
            match op {
                0 => E::And(x, y),
                1 => E::Or(x, y),
                _ => E::Xor(x, y),
            },
            w,
        )
    }
    pub fn and(&mut self, a: Eid, b: Eid) -> Eid {
        self.bitop(a, b, 0)
    }
    pub fn or(&mut self, a: Eid, b: Eid) -> Eid {
        self.bitop(a, b, 1)
    }
    pub fn xor(&mut self, a: Eid, b: Eid) -> Eid {
        self.bitop(a, b, 2)
    }

    // ---- arithmetic ----
    /// number of low bits known to be zero
    fn low_zeros(&self, e: Eid) -> u32 {
        match &self.nodes[e as usize] {
            E::Const(0) => self.w(e),
            E::Const(v) => v.trailing_zeros(),
            E::Cat(ps) => {
                let l = *ps.last().unwrap();
                if let E::Const(v) = self.nodes[l as usize] {
                    if v == 0 {
                        self.w(l)
                    } else {
                        v.trailing_zeros()
                    }
                } else {
                    0
                }
            }
            _ => 0,
        }
    }
    /// number of high bits known to be zero
    pub fn high_zeros(&self, e: Eid) -> u32 {
        let w = self.w(e);
        let m = self.umax(e, 4);
        if m == 0 {
            w
        } else {
            w - (128 - m.leading_zeros())
        }
    }
    pub fn umax(&self, e: Eid, depth: u32) -> u128 {
        let w = self.w(e);
        let full = mask(w);
        match &self.nodes[e as usize] {
            E::Const(v) => *v,
            E::Cat(ps) => {
                let mut r = 0u128;
                for p in ps.iter() {
                    let pw = self.w(*p);
                    r = if pw >= 128 { 0 } else { r << pw } | self.umax(*p, depth.saturating_sub(1));
                }
                r
            }
            _ if depth == 0 => full,
            E::Ite(_, a, b) => self.umax(*a, depth - 1).max(self.umax(*b, depth - 1)),
            E::And(a, b) => self.umax(*a, depth - 1).min(self.umax(*b, depth - 1)),
            E::Or(a, b) | E::Xor(a, b) => {
                let m = self.umax(*a, depth - 1) | self.umax(*b, depth - 1);
                if m == 0 {
                    0
                } else {
                    mask(128 - m.leading_zeros())
                }
            }
            E::Add(a, b) => match self.umax(*a, depth - 1).checked_add(self.umax(*b, depth - 1)) {
                Some(s) if s <= full => s,
                _ => full,
            },
            E::Mul(a, b) => match self.umax(*a, depth - 1).checked_mul(self.umax(*b, depth - 1)) {
                Some(s) if s <= full => s,
                _ => full,
            },
            E::LShr(a, _) | E::UDiv(a, _) => self.umax(*a, depth - 1),
            E::URem(a, b) => {
                let x = self.umax(*a, depth - 1);
                let y = self.umax(*b, depth - 1);
                if let E::Const(c) = self.nodes[*b as usize] {
                    if c > 0 {
                        return x.min(y - 1);
                    }
                }
                x
            }
            _ => full,
        }
    }
    pub fn umin(&self, e: Eid, depth: u32) -> u128 {
        match &self.nodes[e as usize] {
            E::Const(v) => *v,
            E::Cat(ps) => {
                let mut r = 0u128;
                for p in ps.iter() {
                    let pw = self.w(*p);
                    r = if pw >= 128 { 0 } else { r << pw } | self.umin(*p, depth.saturating_sub(1));
                }
                r
            }
            _ if depth == 0 => 0,
            E::Ite(_, a, b) => self.umin(*a, depth - 1).min(self.umin(*b, depth - 1)),
            E::Or(a, b) => self.umin(*a, depth - 1).max(self.umin(*b, depth - 1)),
            E::Add(a, b) => {
                let full = mask(self.w(e));
                match self.umax(*a, depth - 1).checked_add(self.umax(*b, depth - 1)) {
                    Some(s) if s <= full => self.umin(*a, depth - 1) + self.umin(*b, depth - 1),
                    _ => 0,
                }
            }
            _ => 0,
        }
    }
    pub fn add(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(x.wrapping_add(y), w);
        }
        let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
        if cb == Some(0) {
            return a;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(c) = cb {
            match self.nodes[a as usize].clone() {
                E::Add(x, y) => {
                    if let Some(c2) = self.as_const(y) {
                        let k = self.konst(c.wrapping_add(c2), w);
                        return self.add(x, k);
                    }
                }
                E::Sub(x, y) => {
                    if let Some(c2) = self.as_const(x) {
                        let k = self.konst(c.wrapping_add(c2), w);
                        return self.sub(k, y);
                    }
                }
                E::Ite(q, x, y) if self.leaves[a as usize] > 0 => {
                    let (x2, y2) = (self.add(x, b), self.add(y, b));
                    return self.choose(q, x2, y2);
                }
                _ => {}
            }
        }
        let (a, b) = self.as_trees(a, b);
        if let Some((q, x, y)) = self.trees(a, b) {
            let (b1, b2) = (self.given(b, q, true), self.given(b, q, false));
            let (x2, y2) = (self.add(x, b1), self.add(y, b2));
            return self.choose(q, x2, y2);
        }
        // (x - y) + y
        if let E::Sub(x, y) = self.nodes[a as usize] {
            if y == b {
                return x;
            }
        }
        if let E::Sub(x, y) = self.nodes[b as usize] {
            if y == a {
                return x;
            }
        }
        // disjoint parts
        if self.is_cat(a) || self.is_cat(b) {
            let cuts = self.cuts(a, b);
            let mut ok = true;
            let mut lo = 0;
            for &c in &cuts {
                let (x, y) = (self.ext(a, lo, c - lo), self.ext(b, lo, c - lo));
                if self.as_const(x) != Some(0) && self.as_const(y) != Some(0) {
                    // constants with disjoint bits are caught by the const/const case of or only; treat as overlapping
                    ok = false;
                    break;
                }
                lo = c;
            }
            if ok {
                return self.or(a, b);
            }
        }
        let lz = self.low_zeros(a).max(self.low_zeros(b)).min(w);
        if lz > 0 && lz < w {
            let (ah, bh) = (self.ext(a, lz, w - lz), self.ext(b, lz, w - lz));
            let hi = self.add(ah, bh);
            let lo = if self.low_zeros(a) >= lz { self.ext(b, 0, lz) } else { self.ext(a, 0, lz) };
            return self.cat(&[hi, lo]);
        }
        // high bits known zero on both sides: narrow
        let hz = self.high_zeros(a).min(self.high_zeros(b));
        if hz > 1 {
            let nw = w - hz + 1;
            if nw < w {
                let (x, y) = (self.ext(a, 0, nw), self.ext(b, 0, nw));
                let s = self.add_raw(x, y);
                return self.zext(s, w);
            }
        }
        self.add_raw(a, b)
    }
    fn add_raw(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(x.wrapping_add(y), w);
        }
        let (x, y) = if self.as_const(a).is_some() || (self.as_const(b).is_none() && b < a) { (b, a) } else { (a, b) };
        self.raw(E::Add(x, y), w)
    }
    pub fn sub(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(x.wrapping_sub(y), w);
        }
        if a == b {
            return self.konst(0, w);
        }
        if let Some(c) = cb {
            let k = self.konst(0u128.wrapping_sub(c), w);
            return self.add(a, k);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = self.as_trees(a, b);
        if let Some((q, x, y)) = self.trees(a, b) {
            let (b1, b2) = (self.given(b, q, true), self.given(b, q, false));
            let (x2, y2) = (self.sub(x, b1), self.sub(y, b2));
            return self.choose(q, x2, y2);
        }
        if let (Some(_), Some((q, x, y))) = (ca, self.tree(b)) {
            let (x2, y2) = (self.sub(a, x), self.sub(a, y));
            return self.choose(q, x2, y2);
        }
        match self.nodes[a as usize] {
            E::Add(x, y) if x == b => return y,
            E::Add(x, y) if y == b => return x,
            _ => {}
        }
        self.raw(E::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(x.wrapping_mul(y), w);
        }
        let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
        if let Some(c) = cb {
            if c == 0 {
                return b;
            }
            if c == 1 {
                return a;
            }
            if c.is_power_of_two() {
                return self.shl_c(a, c.trailing_zeros());
            }
            // a single bit times a constant
            if self.high_zeros(a) == w - 1 {
                let q = self.ext(a, 0, 1);
                let z = self.konst(0, w);
                return self.ite(q, b, z);
            }
            if let Some((q, x, y)) = self.tree(a) {
                let (x2, y2) = (self.mul(x, b), self.mul(y, b));
                return self.choose(q, x2, y2);
            }
        }
        let need = (w - self.high_zeros(a)) + (w - self.high_zeros(b));
        if need < w && need > 0 {
            let (x, y) = (self.ext(a, 0, need), self.ext(b, 0, need));
            let (x, y) = if x < y { (x, y) } else { (y, x) };
            let m = self.raw(E::Mul(x, y), need);
            return self.zext(m, w);
        }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        self.raw(E::Mul(x, y), w)
    }
    pub fn udiv(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let Some(c) = self.as_const(b) {
            if c != 0 {
                if let Some(x) = self.as_const(a) {
                    return self.konst(x / c, w);
                }
                if c.is_power_of_two() {
                    return self.lshr_c(a, c.trailing_zeros());
                }
                if let Some((q, x, y)) = self.tree(a) {
                    let (x2, y2) = (self.udiv(x, b), self.udiv(y, b));
                    return self.choose(q, x2, y2);
                }
                let hz = self.high_zeros(a);
                let nw = (w - hz).max(128 - c.leading_zeros()).max(1);
                if nw < w {
                    let (x, y) = (self.ext(a, 0, nw), self.ext(b, 0, nw));
                    let d = self.raw(E::UDiv(x, y), nw);
                    return self.zext(d, w);
                }
            }
        }
        self.raw(E::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let Some(c) = self.as_const(b) {
            if c != 0 {
                if let Some(x) = self.as_const(a) {
                    return self.konst(x % c, w);
                }
                if c.is_power_of_two() {
                    let k = self.konst(c - 1, w);
                    return self.and(a, k);
                }
                if let Some((q, x, y)) = self.tree(a) {
                    let (x2, y2) = (self.urem(x, b), self.urem(y, b));
                    return self.choose(q, x2, y2);
                }
                let hz = self.high_zeros(a);
                let nw = (w - hz).max(128 - c.leading_zeros()).max(1);
                if nw < w {
                    let (x, y) = (self.ext(a, 0, nw), self.ext(b, 0, nw));
                    let d = self.raw(E::URem(x, y), nw);
                    return self.zext(d, w);
                }
            }
        }
        self.raw(E::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        self.raw(E::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        self.raw(E::SRem(a, b), w)
    }
    pub fn shl_c(&mut self, a: Eid, k: u32) -> Eid {
        let w = self.w(a);
        if k >= w {
            return self.konst(0, w);
        }
        if k == 0 {
            return a;
        }
        let x = self.ext(a, 0, w - k);
        let z = self.konst(0, k);
        self.cat(&[x, z])
    }
    pub fn lshr_c(&mut self, a: Eid, k: u32) -> Eid {
        let w = self.w(a);
        if k >= w {
            return self.konst(0, w);
        }
        if k == 0 {
            return a;
        }
        let x = self.ext(a, k, w - k);
        self.zext(x, w)
    }
    pub fn shl(&mut self, a: Eid, b: Eid) -> Eid {
        if let Some(k) = self.as_const(b) {
            return self.shl_c(a, k.min(255) as u32);
        }
        let w = self.w(a);
        self.raw(E::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: Eid, b: Eid) -> Eid {
        if let Some(k) = self.as_const(b) {
            return self.lshr_c(a, k.min(255) as u32);
        }
        let w = self.w(a);
        self.raw(E::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            let k = (k.min(w as u128 - 1)) as u32;
            let x = self.ext(a, k, w - k);
            return self.sext(x, w);
        }
        self.raw(E::AShr(a, b), w)
    }

    // ---- comparisons ----
    pub fn eq(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.t;
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.bool(x == y);
        }
        let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
        if w == 1 {
            if let Some(c) = cb {
                return if c == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        if self.is_cat(a) || self.is_cat(b) {
            let cuts = self.cuts(a, b);
            let mut pairs = vec![];
            let mut lo = 0;
            for c in cuts {
                let (x, y) = (self.ext(a, lo, c - lo), self.ext(b, lo, c - lo));
                if let (Some(p), Some(q)) = (self.as_const(x), self.as_const(y)) {
                    if p != q {
                        return self.f;
                    }
                } else if x != y {
                    pairs.push((x, y));
                }
                lo = c;
            }
            let mut r = self.t;
            for (x, y) in pairs {
                let e = self.eq(x, y);
                r = self.and(r, e);
                if r == self.f {
                    return r;
                }
            }
            return r;
        }
        if let Some(c) = cb {
            match self.nodes[a as usize].clone() {
                E::Add(x, y) => {
                    if let Some(k) = self.as_const(y) {
                        let k2 = self.konst(c.wrapping_sub(k), w);
                        return self.eq(x, k2);
                    }
                }
                E::Not(x) => {
                    let k = self.konst(!c, w);
                    return self.eq(x, k);
                }
                E::Ite(q, x, y) => {
                    let (kx, ky) = (self.as_const(x), self.as_const(y));
                    match (kx, ky) {
                        (Some(p), Some(r)) => {
                            return if p == c && r == c {
                                self.t
                            } else if p == c {
                                q
                            } else if r == c {
                                self.not(q)
                            } else {
                                self.f
                            };
                        }
                        (Some(p), None) => {
                            let e = self.eq(y, b);
                            return if p == c {
                                self.or(q, e)
                            } else {
                                let nq = self.not(q);
                                self.and(nq, e)
                            };
                        }
                        (None, Some(r)) => {
                            let e = self.eq(x, b);
                            return if r == c {
                                let nq = self.not(q);
                                self.or(nq, e)
                            } else {
                                self.and(q, e)
                            };
                        }
                        (None, None) if self.leaves[a as usize] > 0 => {
                            let (e, g) = (self.eq(x, b), self.eq(y, b));
                            return self.ite(q, e, g);
                        }
                        _ => {}
                    }
                }
                E::Sub(x, y) if c == 0 => return self.eq(x, y),
                E::Xor(x, y) if c == 0 => return self.eq(x, y),
                _ => {}
            }
            if c > self.umax(a, 4) || c < self.umin(a, 4) {
                return self.f;
            }
        }
        if let (Some(p), Some(q)) = (self.two(a), self.two(b)) {
            let mut seen = 0u16;
            let mut r = self.t;
            for (_, _, col) in Self::columns(&p, &q, w) {
                if seen >> col & 1 == 0 {
                    seen |= 1 << col;
                    let (x, y) = (self.column(p.0, col & 3), self.column(q.0, col >> 2));
                    let e = self.eq(x, y);
                    r = self.and(r, e);
                }
            }
            return r;
        }
        let (a, b) = self.as_trees(a, b);
        if let Some((q, x, y)) = self.trees(a, b) {
            let (b1, b2) = (self.given(b, q, true), self.given(b, q, false));
            let (p, r) = (self.eq(x, b1), self.eq(y, b2));
            return self.ite(q, p, r);
        }
        let (x, y) = if cb.is_some() || a < b { (a, b) } else { (b, a) };
        self.raw(E::Eq(x, y), 1)
    }
    pub fn ult(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if a == b {
            return self.f;
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.bool(x < y);
        }
        if cb == Some(0) || ca == Some(mask(w)) {
            return self.f;
        }
        if cb == Some(1) {
            let z = self.konst(0, w);
            return self.eq(a, z);
        }
        if ca == Some(0) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        if self.umax(a, 4) < self.umin(b, 4) {
            return self.t;
        }
        if self.umin(a, 4) >= self.umax(b, 4) {
            return self.f;
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        let (a, b) = self.as_trees(a, b);
        if let Some((q, x, y)) = self.trees(a, b) {
            let (b1, b2) = (self.given(b, q, true), self.given(b, q, false));
            let (p, r) = (self.ult(x, b1), self.ult(y, b2));
            return self.ite(q, p, r);
        }
        let hz = self.high_zeros(a).min(self.high_zeros(b));
        if hz > 0 {
            let nw = w - hz;
            let (x, y) = (self.ext(a, 0, nw), self.ext(b, 0, nw));
            return self.ult(x, y);
        }
        // equal leading / trailing parts
        if self.is_cat(a) && (self.is_cat(b) || cb.is_some()) || self.is_cat(b) && ca.is_some() {
            let cuts = self.cuts(a, b);
            if cuts.len() >= 2 {
                let c = cuts[cuts.len() - 2];
                let (x, y) = (self.ext(a, c, w - c), self.ext(b, c, w - c));
                if x == y {
                    let (x, y) = (self.ext(a, 0, c), self.ext(b, 0, c));
                    return self.ult(x, y);
                }
                let c0 = cuts[0];
                let (x, y) = (self.ext(a, 0, c0), self.ext(b, 0, c0));
                if x == y {
                    let (x, y) = (self.ext(a, c0, w - c0), self.ext(b, c0, w - c0));
                    return self.ult(x, y);
                }
            }
        }
        if let (E::Ite(q, x, y), Some(_)) = (self.nodes[a as usize].clone(), cb) {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let (p, r) = (self.ult(x, b), self.ult(y, b));
                return self.ite(q, p, r);
            }
        }
        if let (E::Ite(q, x, y), Some(_)) = (self.nodes[b as usize].clone(), ca) {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let (p, r) = (self.ult(a, x), self.ult(a, y));
                return self.ite(q, p, r);
            }
        }
        self.raw(E::Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if w == 1 {
            let n = self.not(b);
            return self.and(a, n);
        }
        if a == b {
            return self.f;
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.bool(sext128(x, w) < sext128(y, w));
        }
        let (sa, sb) = (self.ext(a, w - 1, 1), self.ext(b, w - 1, 1));
        match (self.as_const(sa), self.as_const(sb)) {
            (Some(x), Some(y)) if x == y => return self.ult(a, b),
            (Some(1), Some(0)) => return self.t,
            (Some(0), Some(1)) => return self.f,
            _ => {}
        }
        if self.as_const(b) == Some(0) {
            return sa;
        }
        if let (E::Ite(q, x, y), Some(_)) = (self.nodes[a as usize].clone(), self.as_const(b)) {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let (p, r) = (self.slt(x, b), self.slt(y, b));
                return self.ite(q, p, r);
            }
        }
        self.raw(E::Slt(a, b), 1)
    }
    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        if let E::Not(d) = self.nodes[c as usize] {
            return self.ite(d, b, a);
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let a = if let E::Ite(c2, x, _) = self.nodes[a as usize] { if c2 == c { x } else { a } } else { a };
        let b = if let E::Ite(c2, _, y) = self.nodes[b as usize] { if c2 == c { y } else { b } } else { b };
        if a == b {
            return a;
        }
        // shared parts of two concatenations stay outside
        if (self.is_cat(a) || self.is_cat(b)) && w > 1 {
            let cuts = self.cuts(a, b);
            let mut parts = vec![];
            let mut any_same = false;
            let mut lo = 0;
            for &c2 in &cuts {
                let (x, y) = (self.ext(a, lo, c2 - lo), self.ext(b, lo, c2 - lo));
                if x == y {
                    any_same = true;
                }
                parts.push((x, y));
                lo = c2;
            }
            if any_same {
                // group maximal runs of differing segments
                let mut out: Vec<Eid> = vec![];
                let mut i = 0;
                while i < parts.len() {
                    if parts[i].0 == parts[i].1 {
                        out.push(parts[i].0);
                        i += 1;
                    } else {
                        let mut j = i;
                        let (mut xs, mut ys) = (vec![], vec![]);
                        while j < parts.len() && parts[j].0 != parts[j].1 {
                            xs.push(parts[j].0);
                            ys.push(parts[j].1);
                            j += 1;
                        }
                        xs.reverse();
                        ys.reverse();
                        let (x, y) = (self.cat(&xs), self.cat(&ys));
                        let r = self.ite(c, x, y);
                        out.push(r);
                        i = j;
                    }
                }
                out.reverse();
                return self.cat(&out);
            }
        }
        self.raw(E::Ite(c, a, b), w)
    }

    // ---- evaluation under a model ----
    pub fn new_model(&mut self) {
        self.gen += 1;
        if self.gen == u32::MAX {
            self.gen = 1;
            for m in self.memo.iter_mut() {
                m.0 = 0;
            }
        }
    }
    /// Evaluates under `model` (missing variables are 0).  `new_model` must be called when the model changes.
    pub fn eval(&mut self, e: Eid, model: &[u64]) -> u128 {
        let m = self.memo[e as usize];
        if m.0 == self.gen {
            return m.1;
        }
        let w = self.w(e);
        let n = self.nodes[e as usize].clone();
        let r = match n {
            E::Const(v) => v,
            E::Var(i) => model.get(i as usize).copied().unwrap_or(0) as u128 & mask(w),
            E::Ext(a, lo) => self.eval(a, model) >> lo,
            E::Cat(ps) => {
                let mut r = 0u128;
                for p in ps.iter() {
                    let pw = self.w(*p);
                    let v = self.eval(*p, model);
                    r = if pw >= 128 { v } else { (r << pw) | v };
                }
                r
            }
            E::Not(a) => !self.eval(a, model),
            E::And(a, b) => self.eval(a, model) & self.eval(b, model),
            E::Or(a, b) => self.eval(a, model) | self.eval(b, model),
            E::Xor(a, b) => self.eval(a, model) ^ self.eval(b, model),
            E::Add(a, b) => self.eval(a, model).wrapping_add(self.eval(b, model)),
            E::Sub(a, b) => self.eval(a, model).wrapping_sub(self.eval(b, model)),
            E::Mul(a, b) => self.eval(a, model).wrapping_mul(self.eval(b, model)),
            E::UDiv(a, b) => {
                let (x, y) = (self.eval(a, model), self.eval(b, model));
                if y == 0 {
                    mask(w)
                } else {
                    x / y
                }
            }
            E::URem(a, b) => {
                let (x, y) = (self.eval(a, model), self.eval(b, model));
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            E::SDiv(a, b) => {
                let (x, y) = (sext128(self.eval(a, model), w), sext128(self.eval(b, model), w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        u128::MAX
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            E::SRem(a, b) => {
                let (x, y) = (sext128(self.eval(a, model), w), sext128(self.eval(b, model), w));
                if y == 0 {
                    x as u128
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            E::Shl(a, b) => {
                let (x, y) = (self.eval(a, model), self.eval(b, model));
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            E::LShr(a, b) => {
                let (x, y) = (self.eval(a, model), self.eval(b, model));
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            E::AShr(a, b) => {
                let (x, y) = (sext128(self.eval(a, model), w), self.eval(b, model));
                (x >> y.min(127)) as u128
            }
            E::Eq(a, b) => (self.eval(a, model) == self.eval(b, model)) as u128,
            E::Ult(a, b) => (self.eval(a, model) < self.eval(b, model)) as u128,
            E::Slt(a, b) => {
                let aw = self.w(a);
                (sext128(self.eval(a, model), aw) < sext128(self.eval(b, model), aw)) as u128
            }
            E::Ite(c, a, b) => {
                if self.eval(c, model) == 1 {
                    self.eval(a, model)
                } else {
                    self.eval(b, model)
                }
            }
        } & mask(w);
        self.memo[e as usize] = (self.gen, r);
        r
    }
}
