//! A trie rebuilt from its entries is the same trie.
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::nibbles::Nibbles;
use eth_trie_utils::partial_trie::*;
use eth_trie_utils::trie_ops::ValOrHash;

/// params: family..., most nodes hashed out
fn rebuilt<T: PartialTrie + FromIterator<(Nibbles, ValOrHash)>>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let mut out = p.next();
    let t = if out > 0 { T::new(hash_out(&w.t, true, false, &mut out)) } else { w.t.clone() };
    let mut n = 0;
    let r = match choice(4) {
        0 => t.items().collect::<T>(),
        1 => {
            let mut r = T::default();
            r.extend(t.items());
            r
        }
        2 => {
            let mut items: Vec<_> = t.items().collect();
            items.reverse();
            items.into_iter().collect::<T>()
        }
        _ => {
            // one by one, from both ends
            let mut items: Vec<_> = t.items().collect();
            let mut r = T::default();
            while !items.is_empty() {
                n += 1;
                let (k, v) = if n % 2 == 0 { items.remove(0) } else { items.pop().unwrap() };
                r.insert(k, v);
            }
            r
        }
    };
    check(same_nodes::<T, T>(&r, &t), 1);
    check(r == t, 2);
    check(same_h(r.hash(), t.hash()), 3);
    trace(n as u64);
    cover(1);
}
/// params: family..., most nodes hashed out; the entries in two parts
fn parts<T: PartialTrie + FromIterator<(Nibbles, ValOrHash)>>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let mut out = p.next();
    let t = if out > 0 { T::new(hash_out(&w.t, true, false, &mut out)) } else { w.t.clone() };
    let items: Vec<_> = t.items().collect();
    let at = choice(items.len() + 1);
    let (a, b) = items.split_at(at);
    let mut r: T = a.iter().cloned().collect();
    let mut other: T = b.iter().cloned().collect();
    if choice(2) == 1 {
        r.hash();
        other.hash();
    }
    // the entries of one put into the other
    if choice(2) == 1 {
        r.extend(other.items().collect::<Vec<_>>());
    } else {
        other.extend(r.items().collect::<Vec<_>>());
        r = other;
    }
    check(same_nodes::<T, T>(&r, &t), 4);
    check(same_h(r.hash(), t.hash()), 5);
    trace(at as u64);
    cover(2);
}

harnesses! {
    c28_rebuilt_std = rebuilt::<StandardTrie>;
    c28_rebuilt_hashed = rebuilt::<HashedPartialTrie>;
    c28_parts_std = parts::<StandardTrie>;
    c28_parts_hashed = parts::<HashedPartialTrie>;
}
