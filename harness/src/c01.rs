//! Lookup returns exactly what the history of updates stored.
use crate::model::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;

fn ask<T: PartialTrie>(t: &T, m: &Map, q: &Key) {
    let got = t.get(q.nibbles());
    let want = m.get(q);
    check(same_opt(got, want), 1);
    match want {
        Some(w) => {
            cover(3);
            trace(w.len() as u64);
            trace(got.unwrap()[0] as u64);
        }
        None => {
            cover(4);
            trace(1000);
        }
    }
}

/// any history of up to `ops` single operations, then any lookup
/// params: operations, longest key, nibble alphabet
fn history<T: PartialTrie>() {
    let (ops, maxlen) = (param(0), param(1));
    let al = Alphabet(param(2));
    let mut t = T::default();
    let mut m = Map::default();
    let n = 1 + choice(ops);
    for _ in 0..n {
        let del = !m.e.is_empty() && choice(2) == 1;
        let k = al.key(0, maxlen);
        if del {
            crate::note!("deleted");
            t.delete(k.nibbles());
            m.remove(&k);
            cover(1);
        } else {
            let v = value(1);
            crate::note!("inserted with {:?}", v);
            t.insert(k.nibbles(), v.clone());
            m.insert(&k, &v);
            cover(2);
        }
    }
    ask(&t, &m, &al.key(0, maxlen + 1));
}

/// bulk operations: from_iter of a, extend of b entries, then any lookup
/// params: entries in from_iter, entries in extend, longest key, nibble alphabet
fn bulk<T: PartialTrie + FromIterator<(eth_trie_utils::nibbles::Nibbles, Vec<u8>)>>() {
    let (a, b, maxlen) = (param(0), param(1), param(2));
    let al = Alphabet(param(3));
    let mut m = Map::default();
    let mut batch = |n: usize| {
        let mut v = vec![];
        for _ in 0..n {
            let k = al.key(0, maxlen);
            let x = value(1 + choice(2));
            m.insert(&k, &x);
            v.push((k.nibbles(), x));
        }
        v
    };
    let first = batch(choice(a + 1));
    let second = batch(choice(b + 1));
    let mut t: T = first.into_iter().collect();
    t.extend(second);
    cover(5);
    ask(&t, &m, &al.key(0, maxlen + 1));
}

/// long keys: two keys of up to `len` free nibbles that part at any position (or one ends there), possibly one
/// deleted, then lookup of either key, of a prefix of it, or of it with one nibble changed to any other
/// params: longest key, step between the positions tried, whether the lookup differs at any position or only near the ends and the parting
fn long<T: PartialTrie>() {
    let (len, step) = (param(0), param(1));
    let mut t = T::default();
    let mut m = Map::default();
    let mut a = Key::packed(len);
    let p = choice((len - 1) / step + 1) * step;
    // where the keys part, one continues with the lowest and one with the highest nibble
    a.n[p] = Alphabet(2).nib();
    let mut b = a.clone();
    if choice(2) == 1 {
        b.n.truncate(p);
        cover(6);
    } else {
        b.n[p] = 15 - a.n[p];
        let tail = Key::packed(len - p - 1);
        b.n[p + 1..].copy_from_slice(&tail.n);
        cover(7);
    }
    let (va, vb) = (value_sized(40), value_sized(300));
    t.insert(a.nibbles(), va.clone());
    t.insert(b.nibbles(), vb.clone());
    m.insert(&a, &va);
    m.insert(&b, &vb);
    let base = if choice(2) == 0 { &a } else { &b };
    if choice(2) == 1 {
        t.delete(base.nibbles());
        m.remove(base);
        cover(1);
    }
    let mut q = base.clone();
    let ends = [0, p.saturating_sub(1), p, p + 1, len - 1, len];
    let at = if param(2) == 1 { choice(q.n.len() + 1) } else { ends[choice(6)].min(q.n.len()) };
    if choice(2) == 0 || at == q.n.len() {
        q.n.truncate(at);
    } else {
        let x = nib();
        assume(x != q.n[at]);
        q.n[at] = x;
    }
    ask(&t, &m, &q);
}

/// three long keys: b parts from a at any position, c parts from (or ends on) a at any position, inserted in either
/// order, possibly one deleted, then all three looked up
/// params: longest key, step between the positions tried, what may be deleted: 1 nothing, 2 the last, 4 any
fn three<T: PartialTrie>() {
    let (len, step) = (param(0), param(1));
    let n = (len - 1) / step + 1;
    let p = choice(n) * step;
    let q = choice(n) * step;
    let mut a = Key::packed(len);
    let turned = choice(2);
    let ends = choice(2);
    // the nibbles where the keys part: extreme ones on either side, in turn
    let [x, y, z] = if p == q {
        [[1, 2, 3], [0, 15, 7], [15, 0, 8], [7, 15, 0]][(p + turned) % 4]
    } else {
        [[1, 2, 3], [0, 15, 0], [15, 0, 15], [0, 7, 0]][(p + q + turned + 2 * ends) % 4]
    };
    a.n[q] = if x == z { 15 - x } else { x };
    a.n[p] = x;
    let mut b = a.clone();
    b.n[p] = y;
    let mut c = a.clone();
    if ends == 1 {
        c.n.truncate(q);
    } else {
        c.n[q] = z;
    }
    let keys = if turned == 1 { [&a, &b, &c] } else { [&a, &c, &b] };
    let mut t = T::default();
    let mut m = Map::default();
    for (i, k) in keys.into_iter().enumerate() {
        let v = value_sized([1, 40, 300][(i + p + q) % 3]);
        t.insert(k.nibbles(), v.clone());
        m.insert(k, &v);
    }
    let d = 3 - choice(param(2));
    crate::note!("keys {} {} {} delete {}", hex(&keys[0].n), hex(&keys[1].n), hex(&keys[2].n), d);
    if d < 3 {
        t.delete(keys[d].nibbles());
        m.remove(keys[d]);
        cover(1);
    }
    for k in keys {
        ask(&t, &m, k);
    }
}

/// a branch below `0` or `1` nibbles with any number of children and optional value, one more operation anywhere, then any lookup
/// params: most children, longest key of the operation
fn wide<T: PartialTrie>() {
    let (most, maxlen) = (param(0), param(1));
    let mut t = T::default();
    let mut m = Map::default();
    let pre = choice(2);
    let have = choice(most + 1);
    let up = choice(2) == 1;
    let mut put = |k: Key, t: &mut T| {
        let v = value(1);
        t.insert(k.nibbles(), v.clone());
        m.insert(&k, &v);
    };
    for i in 0..have {
        let last = if up { i } else { 15 - i } as u8;
        put(Key { n: vec![8; pre].into_iter().chain([last]).collect() }, &mut t);
    }
    if choice(2) == 1 {
        put(Key { n: vec![8; pre] }, &mut t);
    }
    let k = Key::any(0, maxlen);
    if choice(2) == 1 {
        crate::note!("deleted");
        t.delete(k.nibbles());
        m.remove(&k);
        cover(1);
    } else {
        let v = value(1);
        t.insert(k.nibbles(), v.clone());
        m.insert(&k, &v);
        cover(2);
    }
    ask(&t, &m, &Key::any(0, maxlen));
}

/// a chain of keys, each `step` nibbles longer than the one before, then one insert or delete of any prefix of
/// the longest (possibly with its last nibble changed), then lookup of any such key
/// params: keys in the chain, longest step
fn deep<T: PartialTrie>() {
    let (keys, maxstep) = (param(0), param(1));
    let step = 1 + choice(maxstep);
    let len = keys * step;
    let mut long = vec![];
    for i in 0..len {
        long.push((i % 7 * 2) as u8);
    }
    let mut t = T::default();
    let mut m = Map::default();
    let down = choice(2) == 1;
    for i in 0..keys {
        let at = step * if down { keys - 1 - i } else { i };
        let k = Key { n: long[..at].to_vec() };
        let v = value(1);
        t.insert(k.nibbles(), v.clone());
        m.insert(&k, &v);
    }
    let any = || {
        let mut k = Key { n: long[..choice(len + 1)].to_vec() };
        if !k.n.is_empty() && choice(2) == 1 {
            *k.n.last_mut().unwrap() = 15;
        }
        crate::note!("key {}", hex(&k.n));
        k
    };
    let k = any();
    if choice(2) == 1 {
        crate::note!("deleted");
        t.delete(k.nibbles());
        m.remove(&k);
        cover(1);
    } else {
        let v = value(1);
        t.insert(k.nibbles(), v.clone());
        m.insert(&k, &v);
        cover(2);
    }
    ask(&t, &m, &any());
}

/// values of many lengths: overwritten, moved by a split into a branch, and moved back by a delete
/// params: longest value
fn values<T: PartialTrie>() {
    const LENS: [usize; 10] = [1, 2, 31, 32, 33, 55, 56, 64, 256, 1000];
    let pick = || {
        let l = LENS[choice(param(0))];
        let mut v = vec![7u8; l];
        v[0] = byte();
        v[l - 1] = byte();
        crate::note!("value of {} bytes", l);
        v
    };
    let al = Alphabet(2);
    let mut t = T::default();
    let mut m = Map::default();
    let (a, b) = (al.key(0, 2), al.key(0, 2));
    let v = pick();
    t.insert(a.nibbles(), v.clone());
    m.insert(&a, &v);
    let v = pick();
    t.insert(b.nibbles(), v.clone());
    m.insert(&b, &v);
    if choice(2) == 1 {
        t.delete(b.nibbles());
        m.remove(&b);
        cover(1);
    }
    ask(&t, &m, &a);
    ask(&t, &m, &b);
}

/// params: family...
/// one more operation on any trie of a family, then all its keys and any other looked up
fn family<T: PartialTrie>() {
    let mut w = World::<T>::new(&mut P(0));
    let k = w.probe();
    match choice(3) {
        0 => {}
        1 => {
            w.put(&k);
            cover(2);
        }
        _ => {
            w.del(&k);
            cover(1);
        }
    }
    for (k, _) in &w.m.e {
        ask(&w.t, &w.m, k);
    }
    ask(&w.t, &w.m, &k);
    cover(4);
}

harnesses! {
    c01_family_std = family::<StandardTrie>;
    c01_family_hashed = family::<HashedPartialTrie>;
    c01_three_std = three::<StandardTrie>;
    c01_wide_std = wide::<StandardTrie>;
    c01_deep_std = deep::<StandardTrie>;
    c01_deep_hashed = deep::<HashedPartialTrie>;
    c01_values_std = values::<StandardTrie>;
    c01_long_hashed = long::<HashedPartialTrie>;
    c01_history_std = history::<StandardTrie>;
    c01_history_hashed = history::<HashedPartialTrie>;
    c01_bulk_std = bulk::<StandardTrie>;
    c01_bulk_hashed = bulk::<HashedPartialTrie>;
    c01_long_std = long::<StandardTrie>;
}
