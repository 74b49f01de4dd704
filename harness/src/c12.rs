//! Updating a partial trie gives the root hash of updating the full trie.
use crate::model::*;
use crate::mpt::*;
use crate::subset::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;

/// whether deleting the key leaves a hash node as the only occupant of a branch
#[inline(never)]
fn loses<T: PartialTrie>(n: &Node<T>, k: &[u8]) -> bool {
    match n {
        Node::Branch { children, value } => {
            let mut left = 0;
            let mut hash = false;
            let at = if k.is_empty() { 16 } else { pick(k[0] as u64) as usize };
            for i in 0..16 {
                let c: &Node<T> = &children[i];
                if i != at && !matches!(c, Node::Empty) {
                    left += 1;
                    hash |= matches!(c, Node::Hash(_));
                }
            }
            if at == 16 {
                return !value.is_empty() && left == 1 && hash;
            }
            if !value.is_empty() {
                left += 1;
            }
            let c: &Node<T> = &children[at];
            match c {
                Node::Leaf { nibbles, .. } => same_seq(&list(nibbles), &k[1..]) && left == 1 && hash,
                _ => loses::<T>(c, &k[1..]),
            }
        }
        Node::Extension { nibbles, child } => {
            let l = list(nibbles);
            k.len() >= l.len() && same_seq(&l, &k[..l.len()]) && loses::<T>(child, &k[l.len()..])
        }
        _ => false,
    }
}

/// params: family..., most keys, operations
fn update<T: PartialTrie>() {
    let mut p = P(0);
    let mut w = World::<T>::new(&mut p);
    let (most, ops) = (p.next(), p.next());
    let ks = keys(&w, most);
    if ks.is_empty() {
        return;
    }
    let Ok(mut s) = subset(&w.t, &ks) else { fail(1) };
    for _ in 0..1 + choice(ops) {
        let k = &ks[choice(ks.len())];
        if choice(2) == 1 {
            if loses::<T>(&s, &k.n) {
                cover(3);
                return;
            }
            let (got, _) = w.del(k);
            let part = s.delete(k.nibbles());
            check(same_opt(got.as_deref(), part.as_deref()), 2);
            cover(1);
        } else {
            w.put(k);
            s.insert(k.nibbles(), w.m.get(k).unwrap().to_vec());
            cover(2);
        }
        check(same_h(w.t.hash(), s.hash()), 3);
    }
    for k in &ks {
        check(same_opt(w.t.get(k.nibbles()), s.get(k.nibbles())), 4);
    }
    check(same_hash(s.hash(), &crate::mpt::root(&w.m)), 5);
    trace(w.m.e.len() as u64);
    cover(4);
}
harnesses! {
    c12_update_std = update::<StandardTrie>;
    c12_update_hashed = update::<HashedPartialTrie>;
}
