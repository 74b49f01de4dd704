//! Trie equality is node-by-node equality.
use crate::pairs::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;

fn compare<T: PartialTrie>(a: &T, b: &T) {
    let same = same_nodes::<T, T>(a, b);
    check((*a == *b) == same, 1);
    check((*b == *a) == same, 2);
    check((*a != *b) == !same, 3);
    check((**a == **b) == same, 4);
    if same {
        check(same_h(a.hash(), b.hash()), 5);
        check(*a == *b, 6);
        cover(1);
    } else {
        cover(2);
    }
}
/// params: family..., nodes hashed out, whether hashes are computed beforehand
/// a trie against itself with one node changed
fn altered_pair<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let (mut out, hashing) = (p.next(), p.next());
    let a = if out > 0 { T::new(hash_out(&w.t, true, false, &mut out)) } else { w.t.clone() };
    let mut left = true;
    let b = T::new(altered(&a, 0, &mut left));
    if hashing == 1 {
        hash_some(&a);
        hash_some(&b);
    }
    compare(&a, &b);
}
/// params: family..., nodes hashed out; a trie against itself with nodes replaced by their own hashes
fn partial<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let mut out = p.next();
    let b = T::new(hash_out(&w.t, true, true, &mut out));
    if choice(2) == 1 {
        hash_some(&w.t);
        hash_some(&b);
    }
    compare(&w.t, &b);
}
/// params: family...; two histories
fn two<T: PartialTrie>() {
    let mut p = P(0);
    let a = World::<T>::new(&mut p);
    let mut p = P(0);
    let b = World::<T>::new(&mut p);
    compare(&a.t, &b.t);
}

harnesses! {
    c21_altered_std = altered_pair::<StandardTrie>;
    c21_altered_hashed = altered_pair::<HashedPartialTrie>;
    c21_partial_std = partial::<StandardTrie>;
    c21_partial_hashed = partial::<HashedPartialTrie>;
    c21_two_std = two::<StandardTrie>;
    c21_two_hashed = two::<HashedPartialTrie>;
}
