//! Hashed-out nodes are opaque and faithful stand-ins.
use crate::model::*;
use crate::mpt::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;
use ethereum_types::H256;

/// the nodes of a trie of at least 32 bytes with their paths
#[inline(never)]
fn large<T: PartialTrie>(n: &Node<T>, path: &[u8], out: &mut Vec<(Vec<u8>, [u8; 32])>) {
    if let Some(e) = encode_node(n) {
        if e.len() >= 32 {
            out.push((path.to_vec(), keccak(&e)));
        }
    }
    match n {
        Node::Extension { nibbles, child } => {
            let mut p = path.to_vec();
            p.extend_from_slice(&list(nibbles));
            large::<T>(child, &p, out);
        }
        Node::Branch { children, .. } => {
            for i in 0..16 {
                let mut p = path.to_vec();
                p.push(i as u8);
                large::<T>(&children[i], &p, out);
            }
        }
        _ => {}
    }
}

/// params: family...
/// one subtrie stored as its hash, the other entries inserted before or after it; then a lookup, insertion or deletion
fn stand_in<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let mut subs = vec![];
    large::<T>(&w.t, &[], &mut subs);
    if subs.is_empty() {
        return;
    }
    let (path, h) = subs[choice(subs.len())].clone();
    crate::note!("hash stored under {}", hex(&path));
    let rest: Vec<&(Key, Vec<u8>)> = w.m.e.iter().filter(|(k, _)| !k.starts_with(&path)).collect();
    let at = choice(rest.len() + 1);
    let mut t = T::default();
    for i in 0..=rest.len() {
        if i == at {
            t.insert(nibbles_of(&path), H256(h));
        }
        if i < rest.len() {
            t.insert(rest[i].0.nibbles(), rest[i].1.clone());
        }
    }
    check(same_h(t.hash(), w.t.hash()), 1);
    cover(1);
    for (k, v) in &w.m.e {
        let want = if k.starts_with(&path) { None } else { Some(v.as_slice()) };
        check(same_opt(t.get(k.nibbles()), want), 2);
    }
    let q = w.probe();
    let inside = q.starts_with(&path);
    let mut m = Map::default();
    for (k, v) in rest {
        m.insert(k, v);
    }
    match choice(3) {
        0 => {
            let want = if inside { None } else { m.get(&q) };
            check(same_opt(t.get(q.nibbles()), want), 3);
            return;
        }
        1 => {
            crate::note!("insert");
            if inside {
                expect_panic(true);
                cover(2);
            }
            let v = value_sized(33);
            t.insert(q.nibbles(), v.clone());
            check(!inside, 4);
            m.insert(&q, &v);
        }
        _ => {
            crate::note!("delete");
            if inside {
                expect_panic(true);
                cover(3);
            }
            let got = t.delete(q.nibbles());
            check(!inside, 5);
            check(same_opt(got.as_deref(), m.remove(&q).as_deref()), 6);
        }
    }
    // the hash is still there, under its path, next to the entries
    let mut hashes = 0;
    let mut values = 0;
    for (k, v) in t.items() {
        match v {
            eth_trie_utils::trie_ops::ValOrHash::Hash(x) => {
                check(same_seq(&x.0, &h) && same_nibbles(&k, &nibbles_of(&path)), 7);
                hashes += 1;
            }
            eth_trie_utils::trie_ops::ValOrHash::Val(_) => values += 1,
        }
    }
    check(hashes == 1, 8);
    check(values == m.e.len(), 9);
    for (k, v) in &m.e {
        check(same_opt(t.get(k.nibbles()), Some(v)), 10);
    }
    cover(4);
}

/// two subtries stored as hashes, in any order among the entries
fn two<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let mut subs = vec![];
    large::<T>(&w.t, &[], &mut subs);
    if subs.len() < 2 {
        return;
    }
    let a = choice(subs.len());
    let b = choice(subs.len());
    let (pa, pb) = (subs[a].0.clone(), subs[b].0.clone());
    let under = |x: &[u8], y: &[u8]| x.len() >= y.len() && same_seq(&x[..y.len()], y);
    if under(&pa, &pb) || under(&pb, &pa) {
        return;
    }
    let mut t = T::default();
    let swap = choice(2) == 1;
    let put = |t: &mut T| {
        t.insert(nibbles_of(&pa), H256(subs[a].1));
        t.insert(nibbles_of(&pb), H256(subs[b].1));
    };
    if swap {
        put(&mut t);
    }
    for (k, v) in &w.m.e {
        if !k.starts_with(&pa) && !k.starts_with(&pb) {
            t.insert(k.nibbles(), v.clone());
        }
    }
    if !swap {
        put(&mut t);
    }
    check(same_h(t.hash(), w.t.hash()), 1);
    cover(5);
}

harnesses! {
    c13_stand_in_std = stand_in::<StandardTrie>;
    c13_stand_in_hashed = stand_in::<HashedPartialTrie>;
    c13_two_std = two::<StandardTrie>;
}
