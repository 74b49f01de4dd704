//! A trie subset answers every requested key like the original.
use crate::model::*;
use crate::subset::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;

/// params: family..., most nodes hashed out before, most keys
fn answers<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let t = partly_hashed(&w, p.next());
    let ks = keys(&w, p.next());
    let mut lost = false;
    for k in &ks {
        lost |= into_hash::<T>(&t, &k.n);
    }
    match subset(&t, &ks) {
        Ok(s) => {
            check(!lost, 1);
            for k in &ks {
                let want = t.get(k.nibbles());
                let got = s.get(k.nibbles());
                check(same_opt(got, want), 2);
                check(retained::<T>(&s, &t, &k.n), 3);
                cover(if want.is_some() { 1 } else { 2 });
            }
            trace(ks.len() as u64);
        }
        Err(_) => {
            check(lost, 4);
            cover(3);
        }
    }
    cover(4);
}
harnesses! {
    c09_answers_std = answers::<StandardTrie>;
    c09_answers_hashed = answers::<HashedPartialTrie>;
}
