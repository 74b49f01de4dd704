//! A path query reports the path a lookup takes.
use crate::model::*;
use crate::mpt::*;
use crate::sym::*;
use crate::text::*;
use crate::world::*;
use eth_trie_utils::debug_tools::query::*;
use eth_trie_utils::partial_trie::*;

/// what the report shows of each node
#[derive(Clone, Copy)]
struct Show {
    types: bool,
    pieces: bool,
    values: bool,
}
/// the hash, the occupied slots, or the value
#[inline(never)]
fn extra<T: PartialTrie>(n: &Node<T>) -> Vec<u8> {
    let mut out = vec![];
    match n {
        Node::Empty | Node::Extension { .. } => {}
        Node::Hash(h) => {
            out.extend_from_slice(b"Hash: ");
            out.extend_from_slice(&spell_bytes(&h.0)[2..]);
        }
        Node::Branch { children, .. } => {
            let mut k = 0;
            out.extend_from_slice(b"mask: 0b");
            for i in (0..16).rev() {
                let c: &Node<T> = &children[i];
                let there = !matches!(c, Node::Empty);
                k += usize::from(there);
                out.push(if there { b'1' } else { b'0' });
            }
            out.extend_from_slice(b" (Num Children: ");
            out.extend_from_slice(&decimal(k));
            out.push(b')');
        }
        Node::Leaf { value, .. } => {
            out.extend_from_slice(b"Leaf Value: ");
            out.extend_from_slice(&spell_bytes(value)[2..]);
        }
    }
    out
}
/// the nodes a lookup visits, as the report lists them; whether it finds a value or a hashed-out node
#[inline(never)]
fn visit<T: PartialTrie>(n: &Node<T>, k: &[u8], s: Show, out: &mut Vec<u8>) -> bool {
    let (kind, piece): (&str, Option<Vec<u8>>) = match n {
        Node::Empty => ("Empty", None),
        Node::Hash(_) => ("Hash", None),
        Node::Branch { .. } => ("Branch", if k.is_empty() { None } else { Some(vec![k[0]]) }),
        Node::Extension { nibbles, .. } => ("Extension", Some(list(nibbles))),
        Node::Leaf { nibbles, .. } => ("Leaf", Some(list(nibbles))),
    };
    if s.types {
        out.extend_from_slice(kind.as_bytes());
    }
    out.push(b'(');
    if s.pieces {
        if let Some(p) = piece {
            out.extend_from_slice(b"key: ");
            out.extend_from_slice(&spell(&p));
        }
    }
    if s.values {
        let extra = extra(n);
        if !extra.is_empty() {
            if s.pieces {
                out.extend_from_slice(b", ");
            }
            out.extend_from_slice(b"Extra Seg Info: ");
            out.extend_from_slice(&extra);
        }
    }
    out.push(b')');
    match n {
        Node::Empty => false,
        Node::Hash(_) => k.is_empty(),
        Node::Branch { children, value } => {
            if k.is_empty() {
                return !value.is_empty();
            }
            out.extend_from_slice(b"\nV\n");
            visit::<T>(&children[pick(k[0] as u64) as usize], &k[1..], s, out)
        }
        Node::Extension { nibbles, child } => {
            let l = list(nibbles);
            if k.len() < l.len() || !same_seq(&l, &k[..l.len()]) {
                return false;
            }
            out.extend_from_slice(b"\nV\n");
            visit::<T>(child, &k[l.len()..], s, out)
        }
        Node::Leaf { nibbles, .. } => same_seq(&list(nibbles), k),
    }
}
/// params: family..., nodes hashed out
fn query<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let mut out = p.next();
    let t = if out > 0 { T::new(hash_out(&w.t, true, false, &mut out)) } else { w.t.clone() };
    let k = w.probe();
    let c = choice(5);
    let s = Show { types: c != 3, pieces: c != 2, values: c == 4 };
    let q = if c == 0 {
        k.nibbles().into()
    } else {
        DebugQueryParamsBuilder::default().print_node_type(s.types).print_key_pieces(s.pieces).print_node_specific_values(s.values).build(k.nibbles())
    };
    let got = format!("{}", get_path_from_query(&*t, q));
    let mut path = vec![];
    let found = visit::<T>(&t, &k.n, s, &mut path);
    let mut want = b"Query Result {\nQueried Key: ".to_vec();
    want.extend_from_slice(&spell(&k.n));
    want.extend_from_slice(if found { b"\nNode found: true\n}\nQuery path:\n" } else { b"\nNode found: false\n}\nQuery path:\n" });
    want.extend_from_slice(&path);
    same_text(got.as_bytes(), &want, 1);
    if t.get(k.nibbles()).is_some() {
        check(found, 2);
        cover(1);
    }
    if found {
        cover(2);
    } else {
        cover(3);
    }
}

harnesses! {
    c24_query_std = query::<StandardTrie>;
    c24_query_hashed = query::<HashedPartialTrie>;
}
