//! Deletion reports what it removed and touches nothing else.
use crate::model::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;

/// any trie of a family, hashed first if the next parameter is 1, any key deleted
fn delete<T: PartialTrie>() {
    let mut p = P(0);
    let mut w = World::<T>::new(&mut p);
    let hashed = p.next() == 1;
    let k = w.probe();
    let before = w.t.clone();
    let h = if hashed { Some(w.t.hash()) } else { None };
    let all = w.m.clone();
    let (got, want) = w.del(&k);
    check(same_opt(got.as_deref(), want.as_deref()), 1);
    check(w.t.get(k.nibbles()).is_none(), 2);
    for (o, v) in &all.e {
        if !o.same(&k) {
            check(same_opt(w.t.get(o.nibbles()), Some(v)), 3);
        }
    }
    match got {
        Some(v) => {
            cover(1);
            trace(v[0] as u64);
            trace(v.len() as u64);
            let o: T = fresh(&w.m);
            check(same_nodes::<T, T>(&w.t, &o), 6);
            // nothing is left to delete
            check(w.t.delete(k.nibbles()).is_none(), 7);
            if hashed {
                check(same_h(w.t.hash(), o.hash()), 8);
            }
        }
        None => {
            cover(2);
            check(w.t == before && same_nodes::<T, T>(&w.t, &before), 4);
            if let Some(h) = h {
                check(same_h(h, w.t.hash()), 5);
            }
        }
    }
}

/// tries with hashed-out nodes: panics exactly when the path runs into one
fn beside_hash<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let mut most = p.next();
    let mut t = T::new(hash_out(&w.t, true, false, &mut most));
    let k = w.probe();
    let into = runs_into_hash::<T>(&t, &k.n);
    let want: Option<Vec<u8>> = t.get(k.nibbles()).map(|v| v.to_vec());
    let before = t.clone();
    if into {
        expect_panic(true);
        cover(3);
    }
    let got = t.delete(k.nibbles());
    check(!into, 9);
    check(same_opt(got.as_deref(), want.as_deref()), 10);
    if got.is_none() {
        check(same_nodes::<T, T>(&t, &before), 11);
    }
    for (o, _) in &w.m.e {
        if !o.same(&k) {
            check(same_opt(t.get(o.nibbles()), before.get(o.nibbles())), 12);
        }
    }
    cover(4);
}

/// whether following the key ends at or inside a hash node
#[inline(never)]
fn runs_into_hash<T: PartialTrie>(n: &Node<T>, k: &[u8]) -> bool {
    match n {
        Node::Hash(_) => true,
        Node::Branch { children, .. } => {
            if k.is_empty() {
                return false;
            }
            runs_into_hash::<T>(&children[pick(k[0] as u64) as usize], &k[1..])
        }
        Node::Extension { nibbles, child } => {
            let l = crate::mpt::list(nibbles);
            k.len() >= l.len() && same_seq(&l, &k[..l.len()]) && runs_into_hash::<T>(child, &k[l.len()..])
        }
        _ => false,
    }
}

harnesses! {
    c05_delete_std = delete::<StandardTrie>;
    c05_delete_hashed = delete::<HashedPartialTrie>;
    c05_beside_hash_std = beside_hash::<StandardTrie>;
}
