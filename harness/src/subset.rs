//! What a subset must look like, from the nodes of the original.
use crate::model::*;
use crate::mpt::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;
use eth_trie_utils::trie_subsets::*;

/// instead of a number of keys: all, or all but one
pub const MANY: usize = 100;
/// the requested keys: any number up to `most` of probes
pub fn keys<T: PartialTrie>(w: &World<T>, most: usize) -> Vec<Key> {
    if most == MANY {
        // all keys, or all but one out of eight spread evenly, from either end
        let n = w.m.e.len();
        let out = choice(9) * n / 8;
        let up = choice(2) == 1;
        return (0..n).map(|i| if up { i } else { n - 1 - i }).filter(|i| *i != out).map(|i| w.m.e[i].0.clone()).collect();
    }
    let n = choice(most + 1);
    (0..n).map(|_| w.probe()).collect()
}
pub fn subset<T: PartialTrie>(t: &T, ks: &[Key]) -> SubsetTrieResult<T> {
    create_trie_subset(t, ks.iter().map(|k| k.nibbles()))
}
/// whether the key leads into a hash node with part of it still to go
#[inline(never)]
pub fn into_hash<T: PartialTrie>(n: &Node<T>, k: &[u8]) -> bool {
    match n {
        Node::Hash(_) => !k.is_empty(),
        Node::Branch { children, .. } => !k.is_empty() && into_hash::<T>(&children[pick(k[0] as u64) as usize], &k[1..]),
        Node::Extension { nibbles, child } => {
            let l = list(nibbles);
            k.len() >= l.len() && same_seq(&l, &k[..l.len()]) && into_hash::<T>(child, &k[l.len()..])
        }
        _ => false,
    }
}
/// the subset by definition: `ks` are the rests of the requested keys that visit this node, `None` if none does
#[inline(never)]
pub fn expected<T: PartialTrie>(n: &Node<T>, ks: &[&[u8]], visited: bool) -> Node<StandardTrie> {
    if !visited {
        return match n {
            Node::Hash(h) => Node::Hash(*h),
            _ => {
                let e = encode_node(n).unwrap();
                if e.len() >= 32 {
                    cover(201);
                    return Node::Hash(ethereum_types::H256(keccak(&e)));
                }
                cover(202);
                // too small to be hashed: kept, as is everything in it
                convert::<T, StandardTrie>(n)
            }
        };
    }
    match n {
        Node::Branch { children, value } => {
            let children = std::array::from_fn(|i| {
                let mut sub: Vec<&[u8]> = vec![];
                for k in ks {
                    if !k.is_empty() && k[0] == i as u8 {
                        sub.push(&k[1..]);
                    }
                }
                let v = !sub.is_empty();
                std::sync::Arc::new(Box::new(StandardTrie(expected::<T>(&children[i], &sub, v))))
            });
            Node::Branch { children, value: value.clone() }
        }
        Node::Extension { nibbles, child } => {
            let l = list(nibbles);
            let mut sub: Vec<&[u8]> = vec![];
            for k in ks {
                if k.len() >= l.len() && same_seq(&k[..l.len()], &l) {
                    sub.push(&k[l.len()..]);
                }
            }
            let v = !sub.is_empty();
            Node::Extension { nibbles: *nibbles, child: std::sync::Arc::new(Box::new(StandardTrie(expected::<T>(child, &sub, v)))) }
        }
        _ => convert::<T, StandardTrie>(n),
    }
}
/// every hash node of the subset stands for a hash node or for a node of at least 32 bytes, and carries its hash;
/// everything else is as in the original
#[inline(never)]
pub fn stands_for<T: PartialTrie>(s: &Node<T>, o: &Node<T>) -> bool {
    match (s, o) {
        (Node::Hash(a), Node::Hash(b)) => same_seq(&a.0, &b.0),
        (Node::Hash(a), _) => {
            let e = encode_node(o).unwrap();
            e.len() >= 32 && same_seq(&a.0, &keccak(&e))
        }
        (Node::Branch { children: c, value: v }, Node::Branch { children: d, value: w }) => {
            if !same_seq(v, w) {
                return false;
            }
            for i in 0..16 {
                if !stands_for::<T>(&c[i], &d[i]) {
                    return false;
                }
            }
            true
        }
        (Node::Extension { nibbles: a, child: c }, Node::Extension { nibbles: b, child: d }) => same_nibbles(a, b) && stands_for::<T>(c, d),
        _ => same_nodes::<T, T>(s, o),
    }
}
/// following the key meets a hash node in the subset only where the original has one
#[inline(never)]
pub fn retained<T: PartialTrie>(s: &Node<T>, o: &Node<T>, k: &[u8]) -> bool {
    match (s, o) {
        (Node::Hash(_), Node::Hash(_)) => true,
        (Node::Hash(_), _) => false,
        (Node::Branch { children: c, .. }, Node::Branch { children: d, .. }) => {
            if k.is_empty() {
                return true;
            }
            let i = pick(k[0] as u64) as usize;
            retained::<T>(&c[i], &d[i], &k[1..])
        }
        (Node::Extension { nibbles, child: c }, Node::Extension { child: d, .. }) => {
            let l = list(nibbles);
            if k.len() >= l.len() && same_seq(&k[..l.len()], &l) {
                retained::<T>(c, d, &k[l.len()..])
            } else {
                true
            }
        }
        (Node::Leaf { .. }, Node::Leaf { .. }) | (Node::Empty, Node::Empty) => true,
        _ => false,
    }
}
/// a trie of a family with up to `most` of its nodes replaced by their hashes
pub fn partly_hashed<T: PartialTrie>(w: &World<T>, most: usize) -> T {
    let mut most = most;
    if most == 0 {
        return w.t.clone();
    }
    T::new(hash_out(&w.t, true, true, &mut most))
}
