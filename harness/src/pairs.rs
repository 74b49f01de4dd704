//! Pairs of tries that differ a little, a lot, or not at all.
use crate::model::*;
use crate::sym::*;
use eth_trie_utils::nibbles::Nibbles;
use eth_trie_utils::partial_trie::*;
use ethereum_types::H256;

fn wrap<T: PartialTrie>(n: Node<T>) -> WrappedNode<T> {
    std::sync::Arc::new(Box::new(T::new(n)))
}
fn other_nibbles(n: &Nibbles, least: usize, above: usize) -> Nibbles {
    let mut l = crate::mpt::list(n);
    let room = above + l.len() < 64;
    match choice(4) {
        0 if room => l.insert(0, 0),
        1 if l.len() > least => {
            l.remove(0);
        }
        2 if !l.is_empty() => l[0] = nib(),
        _ if !l.is_empty() => *l.last_mut().unwrap() = nib(),
        _ if room => l.push(0),
        _ => {}
    }
    crate::note!("changed path to {}", hex(&l));
    nibbles_of(&l)
}
fn other_value(v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    match choice(4) {
        0 => v.push(0),
        1 if !v.is_empty() => {
            v.pop();
        }
        2 if !v.is_empty() => v[0] = byte(),
        _ if !v.is_empty() => *v.last_mut().unwrap() = byte(),
        _ => v.push(byte()),
    }
    crate::note!("changed value to {:x?}", v);
    v
}
/// the same nodes with one of them (if `left` has not been used up) changed in any one respect; `above` nibbles lead here
#[inline(never)]
pub fn altered<T: PartialTrie>(n: &Node<T>, above: usize, left: &mut bool) -> Node<T> {
    if *left && choice(2) == 1 {
        *left = false;
        cover(120);
        return match n {
            Node::Empty => match choice(2) {
                0 => Node::Leaf { nibbles: Nibbles::default(), value: vec![byte()] },
                _ => Node::Hash(H256([9; 32])),
            },
            Node::Hash(h) => {
                let mut h = *h;
                match choice(3) {
                    0 => h.0[0] = byte(),
                    1 => h.0[31] = byte(),
                    _ => return Node::Empty,
                }
                Node::Hash(h)
            }
            Node::Leaf { nibbles, value } => match choice(4) {
                0 => Node::Leaf { nibbles: other_nibbles(nibbles, 0, above), value: value.clone() },
                1 => Node::Leaf { nibbles: *nibbles, value: other_value(value) },
                2 => Node::Empty,
                _ => Node::Hash(H256([9; 32])),
            },
            Node::Extension { nibbles, child } => match choice(3) {
                0 => Node::Extension { nibbles: other_nibbles(nibbles, 1, above), child: child.clone() },
                1 => {
                    let c: &Node<T> = child;
                    c.clone()
                }
                _ => Node::Leaf { nibbles: *nibbles, value: vec![byte()] },
            },
            Node::Branch { children, value } => match choice(3) {
                0 => Node::Branch { children: children.clone(), value: other_value(value) },
                1 => {
                    let mut c = children.clone();
                    let i = [0, 7, 14][choice(3)];
                    c.swap(i, 15);
                    Node::Branch { children: c, value: value.clone() }
                }
                _ => Node::Empty,
            },
        };
    }
    match n {
        Node::Branch { children, value } => {
            let children = std::array::from_fn(|i| {
                let c: &Node<T> = &children[i];
                // empty slots are altered at the ends and in the middle only
                if matches!(c, Node::Empty) && ![0, 7, 15].contains(&i) {
                    return children[i].clone();
                }
                wrap(altered(c, above + 1, left))
            });
            Node::Branch { children, value: value.clone() }
        }
        Node::Extension { nibbles, child } => Node::Extension { nibbles: *nibbles, child: wrap(altered::<T>(child, above + nibbles.count, left)) },
        o => o.clone(),
    }
}
/// hashes any of: nothing, the whole trie, all nodes below the root
pub fn hash_some<T: PartialTrie>(t: &T) {
    match choice(3) {
        0 => {}
        1 => {
            t.hash();
        }
        _ => {
            if let Node::Branch { children, .. } = &**t {
                for c in children {
                    c.hash();
                }
            }
            if let Node::Extension { child, .. } = &**t {
                child.hash();
            }
        }
    }
}
