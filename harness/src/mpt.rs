//! The Merkle-Patricia trie of the Ethereum yellow paper, written from its definition (appendices B, C and D).
use crate::model::*;
use eth_trie_utils::partial_trie::*;
use ethereum_types::H256;

extern "C-unwind" {
    fn __sym_keccak(p: *const u8, n: usize, out: *mut u8);
}
pub fn keccak(b: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    unsafe { __sym_keccak(b.as_ptr(), b.len(), o.as_mut_ptr()) };
    o
}
fn rlp_len(out: &mut Vec<u8>, len: usize, base: u8) {
    if len < 56 {
        out.push(base + len as u8);
    } else {
        let be = len.to_be_bytes();
        let mut skip = 0;
        while be[skip] == 0 {
            skip += 1;
        }
        out.push(base + 55 + (8 - skip) as u8);
        out.extend_from_slice(&be[skip..]);
    }
}
#[inline(never)]
pub fn rlp_str(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut o = Vec::with_capacity(b.len() + 4);
    rlp_len(&mut o, b.len(), 0x80);
    o.extend_from_slice(b);
    o
}
#[inline(never)]
pub fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let mut n = 0;
    for i in items {
        n += i.len();
    }
    let mut o = Vec::with_capacity(n + 4);
    rlp_len(&mut o, n, 0xc0);
    for i in items {
        o.extend_from_slice(i);
    }
    o
}
/// hex-prefix encoding of a nibble list
#[inline(never)]
pub fn hex_prefix(n: &[u8], leaf: bool) -> Vec<u8> {
    let f = if leaf { 2 } else { 0 };
    let mut o = Vec::with_capacity(n.len() / 2 + 1);
    let rest = if n.len() % 2 == 1 {
        o.push((f + 1) << 4 | n[0]);
        &n[1..]
    } else {
        o.push(f << 4);
        n
    };
    let mut i = 0;
    while i < rest.len() {
        o.push(rest[i] << 4 | rest[i + 1]);
        i += 2;
    }
    o
}
/// how a node is referred to by its parent
#[inline(never)]
pub fn refer(enc: Vec<u8>) -> Vec<u8> {
    if enc.len() < 32 {
        enc
    } else {
        rlp_str(&keccak(&enc))
    }
}
/// encoding of the node that holds the given entries (keys from this node on)
#[inline(never)]
fn encode(es: &[(&[u8], &[u8])]) -> Vec<u8> {
    match es.len() {
        0 => vec![0x80],
        1 => rlp_list(&[rlp_str(&hex_prefix(es[0].0, true)), rlp_str(es[0].1)]),
        _ => {
            let mut c = 0;
            'p: loop {
                for e in es {
                    if e.0.len() == c || e.0[c] != es[0].0[c] {
                        break 'p;
                    }
                }
                c += 1;
            }
            if c > 0 {
                let sub: Vec<_> = es.iter().map(|e| (&e.0[c..], e.1)).collect();
                return rlp_list(&[rlp_str(&hex_prefix(&es[0].0[..c], false)), refer(encode(&sub))]);
            }
            let mut items = Vec::with_capacity(17);
            for i in 0..16u8 {
                let mut sub: Vec<(&[u8], &[u8])> = vec![];
                for e in es {
                    if !e.0.is_empty() && e.0[0] == i {
                        sub.push((&e.0[1..], e.1));
                    }
                }
                items.push(refer(encode(&sub)));
            }
            let mut v = vec![0x80];
            for e in es {
                if e.0.is_empty() {
                    v = rlp_str(e.1);
                }
            }
            items.push(v);
            rlp_list(&items)
        }
    }
}
/// root hash of the trie with the given contents
#[inline(never)]
pub fn root(m: &Map) -> [u8; 32] {
    let es: Vec<(&[u8], &[u8])> = m.e.iter().map(|(k, v)| (k.n.as_slice(), v.as_slice())).collect();
    keccak(&encode(&es))
}
pub fn same_hash(a: H256, b: &[u8; 32]) -> bool {
    same_seq(&a.0, b)
}

/// nibbles of a sequence as a list
pub fn list(n: &eth_trie_utils::nibbles::Nibbles) -> Vec<u8> {
    (0..n.count).map(|i| nib_at(n, i)).collect()
}
/// a node's own encoding, from its public fields; `None` for a hash node, which has no encoding of its own
#[inline(never)]
pub fn encode_node<T: PartialTrie>(n: &Node<T>) -> Option<Vec<u8>> {
    Some(match n {
        Node::Empty => vec![0x80],
        Node::Hash(_) => return None,
        Node::Leaf { nibbles, value } => rlp_list(&[rlp_str(&hex_prefix(&list(nibbles), true)), rlp_str(value)]),
        Node::Extension { nibbles, child } => rlp_list(&[rlp_str(&hex_prefix(&list(nibbles), false)), reference_of::<T>(child)]),
        Node::Branch { children, value } => {
            let mut items = Vec::with_capacity(17);
            for c in children {
                items.push(reference_of::<T>(c));
            }
            items.push(rlp_str(value));
            rlp_list(&items)
        }
    })
}
/// how a parent refers to the node
#[inline(never)]
pub fn reference_of<T: PartialTrie>(n: &Node<T>) -> Vec<u8> {
    match n {
        Node::Hash(h) => rlp_str(&h.0),
        _ => refer(encode_node(n).unwrap()),
    }
}
/// hash of the node, as reported for a trie with this root
#[inline(never)]
pub fn hash_of<T: PartialTrie>(n: &Node<T>) -> [u8; 32] {
    match n {
        Node::Hash(h) => h.0,
        _ => keccak(&encode_node(n).unwrap()),
    }
}
