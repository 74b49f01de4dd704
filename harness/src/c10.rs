//! A trie subset hashes out everything not requested, as high as possible.
use crate::subset::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;

/// params: family..., most nodes hashed out before, most keys
fn exact<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let t = partly_hashed(&w, p.next());
    let ks = keys(&w, p.next());
    if choice(2) == 1 {
        t.hash();
    }
    if let Ok(s) = subset(&t, &ks) {
        let rests: Vec<&[u8]> = ks.iter().map(|k| k.n.as_slice()).collect();
        let want = expected::<T>(&t, &rests, !rests.is_empty());
        check(same_nodes::<T, StandardTrie>(&s, &want), 1);
        trace(ks.len() as u64);
        cover(1);
    }
}
harnesses! {
    c10_exact_std = exact::<StandardTrie>;
    c10_exact_hashed = exact::<HashedPartialTrie>;
}
