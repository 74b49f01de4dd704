//! Cloned tries are independent snapshots.
use crate::model::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;
use eth_trie_utils::trie_subsets::*;
use std::sync::Arc;

#[inline(never)]
fn poke<T: PartialTrie>(t: &mut T, b: u8) {
    match &mut **t {
        Node::Leaf { value, .. } => value[0] = b,
        Node::Extension { child, .. } => poke(Arc::make_mut(child).as_mut(), b),
        Node::Branch { children, value } => {
            for i in 0..16 {
                let c: &Node<T> = &children[i];
                if !matches!(c, Node::Empty) {
                    if choice(2) == 1 {
                        return poke(Arc::make_mut(&mut children[i]).as_mut(), b);
                    }
                    break;
                }
            }
            value.push(b);
        }
        n => *n = Node::Leaf { nibbles: nibbles_of(&[5]), value: vec![b; 40] },
    }
}

/// params: family..., operations after cloning, whether the copies may be hashed in between
fn snapshot<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let (ops, hashing) = (p.next(), p.next() == 1);
    // copy as it is before anything happens, sharing nothing
    let image = StandardTrie(convert::<T, StandardTrie>(&w.t));
    let before = if hashing && choice(2) == 1 { Some(w.t.hash()) } else { None };
    let c = w.t.clone();
    // either copy is changed
    let first = choice(2) == 1;
    let (kept, changed) = if first { (w.t.clone(), c) } else { (c, w.t.clone()) };
    let mut x = World { t: changed, m: w.m.clone(), fam: w.fam.clone(), vals: w.vals };
    drop(w.t);
    for _ in 0..ops {
        match choice(6) {
            0 => {
                let k = x.probe();
                x.put(&k);
                cover(1);
            }
            1 => {
                let k = x.probe();
                x.del(&k);
                cover(2);
            }
            2 => {
                crate::note!("changed in place");
                poke(&mut x.t, byte());
                cover(3);
            }
            3 => {
                let k = x.probe();
                crate::note!("extend");
                x.t.extend([(k.nibbles(), value_sized(33))]);
                cover(4);
            }
            4 => {
                let k = x.probe();
                crate::note!("subset");
                let s = create_trie_subset(&x.t, [k.nibbles()]);
                if let Ok(s) = s {
                    x.t = s;
                }
                // the contents are no longer fully known to the model
                x.m = Map::default();
                cover(5);
                break;
            }
            _ => {
                crate::note!("hashed");
                if hashing {
                    x.t.hash();
                }
            }
        }
        if hashing && choice(2) == 1 {
            x.t.hash();
        }
    }
    check(same_nodes::<T, StandardTrie>(&kept, &image), 1);
    for (k, v) in &w.m.e {
        check(same_opt(kept.get(k.nibbles()), Some(v)), 2);
    }
    let mut n = 0;
    for _ in kept.items() {
        n += 1;
    }
    check(n == w.m.e.len(), 3);
    if hashing {
        let h = kept.hash();
        check(same_h(h, image.hash()), 4);
        if let Some(b) = before {
            check(same_h(h, b), 5);
        }
        check(same_h(x.t.hash(), unhashed(&x.t)), 6);
    }
    cover(6);
}

harnesses! {
    c07_snapshot_std = snapshot::<StandardTrie>;
    c07_snapshot_hashed = snapshot::<HashedPartialTrie>;
}
