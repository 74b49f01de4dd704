//! Iteration yields every entry exactly once under its full key.
use crate::model::*;
use crate::mpt::list;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;
use eth_trie_utils::trie_ops::ValOrHash;

/// entries of a node by walking its public fields
#[inline(never)]
fn walk<T: PartialTrie>(n: &Node<T>, path: &[u8], out: &mut Vec<(Vec<u8>, ValOrHash)>) {
    match n {
        Node::Empty => {}
        Node::Hash(h) => out.push((path.to_vec(), ValOrHash::Hash(*h))),
        Node::Leaf { nibbles, value } => {
            let mut p = path.to_vec();
            p.extend_from_slice(&list(nibbles));
            out.push((p, ValOrHash::Val(value.clone())));
        }
        Node::Extension { nibbles, child } => {
            let mut p = path.to_vec();
            p.extend_from_slice(&list(nibbles));
            walk::<T>(child, &p, out);
        }
        Node::Branch { children, value } => {
            if !value.is_empty() {
                out.push((path.to_vec(), ValOrHash::Val(value.clone())));
            }
            for i in 0..16 {
                let mut p = path.to_vec();
                p.push(i as u8);
                walk::<T>(&children[i], &p, out);
            }
        }
    }
}
fn same_item(a: &ValOrHash, b: &ValOrHash) -> bool {
    match (a, b) {
        (ValOrHash::Val(x), ValOrHash::Val(y)) => same_seq(x, y),
        (ValOrHash::Hash(x), ValOrHash::Hash(y)) => same_seq(&x.0, &y.0),
        _ => false,
    }
}
fn observe<T: PartialTrie>(t: &T, want: Vec<(Vec<u8>, ValOrHash)>) {
    let mut items = vec![];
    let mut it = t.items();
    while let Some(x) = it.next() {
        // never more than there are
        check(items.len() < want.len(), 1);
        items.push(x);
    }
    check(it.next().is_none(), 6);
    check(items.len() == want.len(), 2);
    let mut seen = vec![false; want.len()];
    for (k, v) in &items {
        let mut found = false;
        for j in 0..want.len() {
            if !seen[j] && same_nibbles(k, &nibbles_of(&want[j].0)) {
                check(same_item(v, &want[j].1), 3);
                seen[j] = true;
                found = true;
                break;
            }
        }
        check(found, 4);
    }
    let mut n = 0;
    for k in t.keys() {
        check(n < items.len() && same_nibbles(&k, &items[n].0), 5);
        n += 1;
    }
    check(n == items.len(), 7);
    n = 0;
    for v in t.values() {
        check(n < items.len() && same_item(&v, &items[n].1), 8);
        n += 1;
    }
    check(n == items.len(), 9);
    trace(n as u64);
    cover(1);
}

/// tries holding values only: the stored contents
fn contents<T: PartialTrie>() {
    let w = World::<T>::new(&mut P(0));
    observe(&w.t, w.m.e.iter().map(|(k, v)| (k.n.clone(), ValOrHash::Val(v.clone()))).collect());
}
/// tries with hashed-out nodes anywhere
fn partial<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let mut most = p.next();
    let t = T::new(hash_out(&w.t, true, false, &mut most));
    let mut want = vec![];
    walk::<T>(&t, &[], &mut want);
    observe(&t, want);
}

harnesses! {
    c06_contents_std = contents::<StandardTrie>;
    c06_contents_hashed = contents::<HashedPartialTrie>;
    c06_partial_std = partial::<StandardTrie>;
}
