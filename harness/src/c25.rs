//! Serialised tries and keys come back unchanged.
use crate::model::*;
use crate::pairs::*;
use crate::sym::*;
use crate::wire::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;
use serde::{Deserialize, Serialize};

/// params: longest sequence, free nibbles at the front, at the back
fn nibbles() {
    let (len, front, back) = (choice(param(0) + 1), param(1), param(2));
    let mut l: Vec<u8> = (0..len).map(|i| (i * 5 % 13) as u8).collect();
    for i in 0..len {
        if i < front || i + back >= len {
            l[i] = nib();
        }
    }
    crate::note!("nibbles {}", hex(&l));
    let n = nibbles_of(&l);
    let Some(m) = round(&n, choice(2) == 1) else {
        check(false, 1);
        return;
    };
    check(same_nibbles(&n, &m), 2);
    cover(1);
    // leading zeros and length survive
    if len > 0 && l[0] == 0 {
        cover(2);
    }
}
/// params: family..., nodes hashed out, whether hashes are cached beforehand, whether the copy is updated afterwards
fn trie<T: PartialTrie + Serialize + for<'a> Deserialize<'a>>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let (mut out, hashing, update) = (p.next(), p.next(), p.next());
    let t = if out > 0 { T::new(hash_out(&w.t, true, false, &mut out)) } else { w.t.clone() };
    if hashing == 1 {
        hash_some(&t);
    }
    let Some(mut u) = round(&t, choice(2) == 1) else {
        check(false, 1);
        return;
    };
    check(same_nodes::<T, T>(&t, &u), 2);
    check(t == u, 3);
    let k = w.probe();
    check(same_opt(t.get(k.nibbles()), u.get(k.nibbles())), 4);
    if update == 0 {
        check(same_h(t.hash(), u.hash()), 5);
        check(same_h(u.hash(), unhashed(&t)), 6);
        let mut a = t.items();
        for x in u.items() {
            check(a.next().map_or(false, |y| y == x), 7);
        }
        check(a.next().is_none(), 8);
        cover(1);
    } else {
        // what comes back can be updated like the original, and does not share anything with it
        let before = unhashed(&t);
        let v = w.vals.clone().next();
        let mut d = StandardTrie(convert::<T, StandardTrie>(&t));
        if choice(2) == 1 {
            u.insert(k.nibbles(), v.clone());
            d.insert(k.nibbles(), v);
        } else {
            u.delete(k.nibbles());
            d.delete(k.nibbles());
        }
        check(same_nodes::<T, StandardTrie>(&u, &d), 9);
        check(same_h(u.hash(), d.hash()), 10);
        check(same_h(t.hash(), before), 11);
        cover(2);
    }
}

harnesses! {
    c25_nibbles = nibbles;
    c25_trie_std = trie::<StandardTrie>;
    c25_trie_hashed = trie::<HashedPartialTrie>;
}
