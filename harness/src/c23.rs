//! A trie diff reports a real difference exactly when there is one.
use crate::model::*;
use crate::mpt::*;
use crate::pairs::*;
use crate::sym::*;
use crate::text::*;
use crate::world::*;
use eth_trie_utils::debug_tools::diff::*;
use eth_trie_utils::partial_trie::*;

type T = HashedPartialTrie;

/// follows the key through both tries as long as they match; gives the two nodes and the path taken
#[inline(never)]
fn follow<'a>(a: &'a Node<T>, b: &'a Node<T>, k: &[u8], depth: usize, path: &mut Vec<u8>) -> Option<(&'a Node<T>, &'a Node<T>, usize)> {
    if k.is_empty() {
        return Some((a, b, depth));
    }
    if depth > 0 {
        path.extend_from_slice(b" --> ");
    }
    match (a, b) {
        (Node::Branch { children: c, .. }, Node::Branch { children: d, .. }) => {
            let i = pick(k[0] as u64) as usize;
            path.extend_from_slice(b"Branch(");
            path.extend_from_slice(&decimal(i));
            path.push(b')');
            follow(&c[i], &d[i], &k[1..], depth + 1, path)
        }
        (Node::Extension { nibbles: n, child: c }, Node::Extension { nibbles: m, child: d }) => {
            let l = list(n);
            if !same_nibbles(n, m) || k.len() < l.len() || !same_seq(&l, &k[..l.len()]) {
                return None;
            }
            path.extend_from_slice(b"Extension(");
            path.extend_from_slice(&spell(&l));
            path.push(b')');
            follow(c, d, &k[l.len()..], depth + 1, path)
        }
        _ => None,
    }
}
fn unlike(a: &Node<T>, b: &Node<T>) -> bool {
    match (a, b) {
        (Node::Empty, Node::Empty) | (Node::Hash(_), Node::Hash(_)) | (Node::Branch { .. }, Node::Branch { .. }) => false,
        (Node::Extension { nibbles: n, .. }, Node::Extension { nibbles: m, .. }) => !same_nibbles(n, m),
        (Node::Leaf { nibbles: n, .. }, Node::Leaf { nibbles: m, .. }) => !same_nibbles(n, m),
        _ => true,
    }
}
/// length of the longest key, plus one, at which both tries have nodes of different kind or path; and of the longest
/// at which they have matching nodes with different content and nothing below that differs
#[inline(never)]
fn furthest(a: &Node<T>, b: &Node<T>, at: usize) -> (usize, usize) {
    if same_seq(&hash_of(a), &hash_of(b)) {
        return (0, 0);
    }
    if unlike(a, b) {
        return (at + 1, 0);
    }
    match (a, b) {
        (Node::Branch { children: c, .. }, Node::Branch { children: d, .. }) => {
            let mut r = (0, 0);
            for i in 0..16 {
                if matches!((&***c[i], &***d[i]), (Node::Empty, Node::Empty)) {
                    continue;
                }
                let (x, y) = furthest(&c[i], &d[i], at + 1);
                r = (r.0.max(x), r.1.max(y));
            }
            if r == (0, 0) {
                r = (0, at + 1);
            }
            r
        }
        (Node::Extension { nibbles: n, child: c }, Node::Extension { child: d, .. }) => furthest(c, d, at + n.count),
        _ => (0, at + 1),
    }
}
/// how the node at the key is described
#[inline(never)]
fn describe(n: &Node<T>, k: &[u8]) -> Vec<u8> {
    let (piece, value, kind): (Vec<u8>, Option<&[u8]>, &str) = match n {
        Node::Empty => (vec![], None, "Empty"),
        Node::Hash(_) => (vec![], None, "Hash"),
        Node::Branch { value, .. } => (vec![], Some(value), "Branch"),
        Node::Extension { nibbles, .. } => (list(nibbles), None, "Extension"),
        Node::Leaf { nibbles, value } => (list(nibbles), Some(value), "Leaf"),
    };
    let mut key = k.to_vec();
    key.extend_from_slice(&piece);
    let mut s = b"(key: ".to_vec();
    s.extend_from_slice(&spell(&key));
    s.extend_from_slice(b" Value: ");
    match value {
        Some(v) => s.extend_from_slice(&spell_bytes(v)),
        None => s.extend_from_slice(b"N/A"),
    }
    s.extend_from_slice(b", Node type: ");
    s.extend_from_slice(kind.as_bytes());
    s.extend_from_slice(b" Trie hash: ");
    s.extend_from_slice(&spell_bytes(&hash_of(n))[2..]);
    s.push(b')');
    s
}

fn judge(a: &T, b: &T) {
    let (ha, hb) = (hash_of::<T>(a), hash_of::<T>(b));
    let d = create_diff_between_tries(a, b);
    match &d.latest_diff_res {
        None => {
            check(same_seq(&ha, &hb), 1);
            check(format!("{}", d).is_empty(), 2);
            cover(1);
        }
        Some(p) => {
            check(!same_seq(&ha, &hb), 3);
            let k = list(&p.key);
            for x in &k {
                trace(*x as u64);
            }
            crate::note!("reported at {}", hex(&k));
            let mut path = vec![];
            let Some((x, y, depth)) = follow(a, b, &k, 0, &mut path) else {
                check(false, 4);
                return;
            };
            check(!same_seq(&hash_of(x), &hash_of(y)), 5);
            check(p.depth == depth, 6);
            same_text(format!("{}", p.path).as_bytes(), &path, 7);
            same_text(format!("{}", p.a_info).as_bytes(), &describe(x, &k), 8);
            same_text(format!("{}", p.b_info).as_bytes(), &describe(y, &k), 9);
            let (shape, content) = furthest(a, b, 0);
            if shape > 0 {
                check(unlike(x, y), 10);
                check(k.len() + 1 == shape, 11);
                if content > shape {
                    cover(4);
                }
            } else {
                check(k.len() + 1 == content, 12);
            }
            cover(2);
            if depth > 1 {
                cover(3);
            }
        }
    }
}

/// params: family..., nodes hashed out, 1: a trie against itself with one node altered; 2: against it with one key inserted, 3: deleted; 4: against the same with nodes hashed out; 5: two nodes altered
fn pair() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let (mut out, kind) = (p.next(), p.next());
    let a = if out > 0 && kind != 4 { T::new(hash_out(&w.t, true, false, &mut out)) } else { w.t.clone() };
    let b = match kind {
        1 | 5 => {
            let mut b = a.clone();
            for _ in 0..1 + kind / 5 {
                let mut left = true;
                b = T::new(altered(&b, 0, &mut left));
            }
            b
        }
        2 => {
            let mut b = a.clone();
            let k = w.probe();
            let v = w.vals.clone().next();
            b.insert(k.nibbles(), v);
            b
        }
        3 => {
            let mut b = a.clone();
            b.delete(w.probe().nibbles());
            b
        }
        _ => T::new(hash_out(&a, true, true, &mut out)),
    };
    if choice(2) == 1 {
        judge(&a, &b);
    } else {
        judge(&b, &a);
    }
}
/// params: family...; two histories
fn two() {
    let mut p = P(0);
    let a = World::<T>::new(&mut p);
    let mut p = P(0);
    let b = World::<T>::new(&mut p);
    judge(&a.t, &b.t);
}

/// params: longest extension, step, value length; keys below a long extension and keys below more but shorter nodes,
/// each kept, changed or deleted in the other trie
fn apart() {
    let (most, step, len) = (param(0), param(1), param(2));
    let l = choice(most / step + 1) * step;
    let mut far = vec![1u8];
    for i in 0..l {
        far.push((i * 5 % 13) as u8);
    }
    let mut keys = vec![far.clone(), far, vec![2, 1], vec![2, 2, 1], vec![2, 2, 2, 1], vec![2, 2, 2, 2]];
    keys[0].push(1);
    keys[1].push(2);
    let (mut a, mut b) = (T::default(), T::default());
    for (i, n) in keys.iter().enumerate() {
        let mut v = vec![i as u8 + 1; len];
        v[0] = var(7) as u8;
        a.insert(nibbles_of(n), v.clone());
        match choice(3) {
            0 => b.insert(nibbles_of(n), v),
            1 => {
                crate::note!("changed {}", hex(n));
                v[len - 1] = v[len - 1] ^ 0x40;
                b.insert(nibbles_of(n), v)
            }
            _ => {
                crate::note!("missing {}", hex(n));
            }
        }
    }
    judge(&a, &b);
}

harnesses! {
    c23_apart = apart;
    c23_pair = pair;
    c23_two = two;
}
