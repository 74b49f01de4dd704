//! Subsets created in one batch equal subsets created one by one.
use crate::subset::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;
use eth_trie_utils::trie_subsets::*;

/// params: family..., most nodes hashed out before, most key sets, most keys in a set
fn batch<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let t = partly_hashed(&w, p.next());
    let (sets, most) = (p.next(), p.next());
    let n = choice(sets + 1);
    let kss: Vec<Vec<_>> = (0..n).map(|_| keys(&w, most)).collect();
    let mut one = vec![];
    let mut failed = false;
    for ks in &kss {
        match subset(&t, ks) {
            Ok(s) => one.push(s),
            Err(_) => failed = true,
        }
    }
    let all = create_trie_subsets(&t, kss.iter().map(|ks| ks.iter().map(|k| k.nibbles()).collect::<Vec<_>>()));
    match all {
        Ok(all) => {
            check(!failed, 1);
            check(all.len() == one.len(), 2);
            for i in 0..all.len() {
                check(same_nodes::<T, T>(&all[i], &one[i]), 3);
                check(all[i] == one[i], 4);
            }
            trace(n as u64);
            cover(1);
        }
        Err(_) => {
            check(failed, 5);
            cover(2);
        }
    }
}
harnesses! {
    c11_batch_std = batch::<StandardTrie>;
    c11_batch_hashed = batch::<HashedPartialTrie>;
}
