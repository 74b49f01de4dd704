//! A trie subset has the root hash of the original.
use crate::mpt::*;
use crate::subset::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;

/// params: family..., most nodes hashed out before, most keys
fn root<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let t = partly_hashed(&w, p.next());
    let ks = keys(&w, p.next());
    let hashed_before = choice(2) == 1;
    let before = convert::<T, StandardTrie>(&t);
    let h = hash_of::<T>(&t);
    if hashed_before {
        check(same_hash(t.hash(), &h), 1);
    }
    let r = subset(&t, &ks);
    check(same_nodes::<T, StandardTrie>(&t, &before), 2);
    check(same_hash(t.hash(), &h), 3);
    if let Ok(s) = r {
        check(same_hash(s.hash(), &h), 4);
        check(same_h(unhashed(&s), s.hash()), 5);
        check(stands_for::<T>(&s, &t), 6);
        let n: &Node<T> = &s;
        if matches!(n, Node::Hash(_)) {
            cover(2);
        }
        cover(1);
        trace(ks.len() as u64);
    } else {
        cover(3);
    }
}
harnesses! {
    c08_root_std = root::<StandardTrie>;
    c08_root_hashed = root::<HashedPartialTrie>;
}
