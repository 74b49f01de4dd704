//! The shape of a trie depends only on its contents.
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;

/// any history leaves the trie that inserting its contents in any one order leaves, in canonical form
fn shape<T: PartialTrie>() {
    let w = World::<T>::new(&mut P(0));
    check(canonical::<T>(&w.t), 1);
    let mut m = w.m.clone();
    // contents in reverse order, or with any one entry moved to the end
    if m.e.len() > 1 {
        match choice(3) {
            0 => {}
            1 => m.e.reverse(),
            _ => {
                let x = m.e.remove(choice(m.e.len()));
                m.e.push(x);
            }
        }
    }
    let o: T = fresh(&m);
    check(w.t == o, 2);
    check(same_nodes::<T, T>(&w.t, &o), 3);
    trace(w.m.e.len() as u64);
    cover(1);
}

/// inserting a new key and deleting it again restores the trie
fn undo<T: PartialTrie>() {
    let mut w = World::<T>::new(&mut P(0));
    let k = w.probe();
    if w.m.get(&k).is_some() {
        return;
    }
    let before = w.t.clone();
    w.put(&k);
    check(canonical::<T>(&w.t), 1);
    check(w.t != before, 4);
    w.del(&k);
    check(canonical::<T>(&w.t), 1);
    check(w.t == before, 5);
    check(same_nodes::<T, T>(&w.t, &before), 6);
    trace(w.m.e.len() as u64);
    cover(1);
}

/// deleting every key, from either end, leaves the tries without them and finally the empty trie
fn clear<T: PartialTrie>() {
    let mut w = World::<T>::new(&mut P(0));
    let front = choice(2) == 1;
    while !w.m.e.is_empty() {
        let at = if front { 0 } else { w.m.e.len() - 1 };
        let k = w.m.e[at].0.clone();
        w.del(&k);
        check(canonical::<T>(&w.t), 1);
        let o: T = fresh(&w.m);
        check(same_nodes::<T, T>(&w.t, &o), 3);
        cover(2);
    }
    let n: &Node<T> = &w.t;
    check(matches!(n, Node::Empty), 7);
    check(w.t == T::default(), 8);
    cover(1);
}

harnesses! {
    c02_shape_std = shape::<StandardTrie>;
    c02_shape_hashed = shape::<HashedPartialTrie>;
    c02_undo_std = undo::<StandardTrie>;
    c02_clear_std = clear::<StandardTrie>;
}
