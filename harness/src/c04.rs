//! A cached hash never goes stale.
use crate::model::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::debug_tools::diff::create_diff_between_tries;
use eth_trie_utils::partial_trie::*;
use eth_trie_utils::trie_subsets::*;
use std::sync::Arc;

type H = HashedPartialTrie;

fn right(t: &H, id: u32) {
    check(same_h(t.hash(), unhashed(t)), id);
}

/// changes the trie through direct mutable access to its nodes
#[inline(never)]
fn poke(t: &mut H, b: u8) {
    match &mut **t {
        Node::Leaf { value, .. } => {
            crate::note!("leaf changed in place");
            value[0] = b;
            cover(10);
        }
        Node::Extension { child, .. } => poke(Arc::make_mut(child).as_mut(), b),
        Node::Branch { children, value } => {
            let mut have = vec![];
            for i in 0..16 {
                let c: &Node<H> = &children[i];
                if !matches!(c, Node::Empty) {
                    have.push(i);
                }
            }
            let c = choice(have.len() + 2);
            if c < have.len() {
                poke(Arc::make_mut(&mut children[have[c]]).as_mut(), b)
            } else if c == have.len() {
                crate::note!("branch value changed in place");
                cover(11);
                *value = vec![b];
            } else {
                crate::note!("child {} replaced in place", have[0]);
                cover(12);
                children[have[0]] = Arc::new(Box::new(H::new(Node::Leaf { nibbles: nibbles_of(&[4]), value: vec![b; 40] })));
            }
        }
        n => {
            crate::note!("root replaced in place");
            *n = Node::Leaf { nibbles: nibbles_of(&[5]), value: vec![b; 40] }
        }
    }
}

/// params: steps, longest key, alphabet, values, kinds of step, initial operations
/// any sequence of steps on a trie and on a clone of it, hashed or not after each step
fn steps() {
    let (n, maxlen, al, vals, kinds, init) = (param(0), param(1), Alphabet(param(2)), param(3), param(4), param(5));
    let mut t = H::default();
    let mut vals = Vals::new(vals);
    for _ in 0..init {
        t.insert(al.key(0, maxlen).nibbles(), vals.next());
    }
    if init > 0 {
        t.hash();
    }
    let mut other: Option<H> = None;
    for _ in 0..n {
        match choice(kinds) {
            0 => {
                crate::note!("insert");
                t.insert(al.key(0, maxlen).nibbles(), vals.next());
            }
            1 => {
                crate::note!("delete");
                t.delete(al.key(0, maxlen).nibbles());
                cover(1);
            }
            2 => poke(&mut t, byte()),
            3 => {
                crate::note!("clone kept, going on with the {}", if other.is_some() { "other" } else { "original" });
                let c = t.clone();
                match other.take() {
                    None => other = Some(c),
                    Some(o) => {
                        other = Some(t);
                        t = o;
                    }
                }
                cover(2);
            }
            4 => {
                crate::note!("extend");
                let e = vec![(al.key(0, maxlen).nibbles(), vals.next()), (al.key(0, maxlen).nibbles(), vals.next())];
                t.extend(e);
                cover(3);
            }
            5 => {
                crate::note!("subset taken as the trie");
                let s = create_trie_subset(&t, [al.key(0, maxlen).nibbles()]);
                if let Ok(s) = s {
                    right(&s, 4);
                    check(same_h(s.hash(), t.hash()), 5);
                }
                cover(4);
            }
            _ => {
                crate::note!("diffed against the empty trie");
                create_diff_between_tries(&t, &H::default());
                cover(5);
            }
        }
        if choice(2) == 1 {
            crate::note!("hashed");
            right(&t, 1);
        }
    }
    right(&t, 2);
    right(&t, 2);
    if let Some(o) = other {
        right(&o, 3);
    }
    cover(6);
}

/// every trie of a family, hashed after any of its operations, agrees with the non-caching type given the same history
fn family() {
    let mut s = StandardTrie::default();
    let mut seen = 0;
    let every = choice(3);
    let w = World::<H>::any(&mut P(0), |w| {
        seen += 1;
        if every == 0 || (every == 1 && seen % 2 == 0) {
            right(&w.t, 1);
        }
    });
    for (k, v) in &w.m.e {
        s.insert(k.nibbles(), v.clone());
    }
    check(same_h(w.t.hash(), s.hash()), 7);
    right(&w.t, 2);
    let mut w = w;
    let k = w.probe();
    w.del(&k);
    s.delete(k.nibbles());
    check(same_h(w.t.hash(), s.hash()), 8);
    w.put(&k);
    s.insert(k.nibbles(), w.m.get(&k).unwrap().to_vec());
    check(same_h(w.t.hash(), s.hash()), 9);
    cover(7);
}

/// asks every node for its hash, children before or after their parents
#[inline(never)]
fn ask(t: &H, parents_first: bool) {
    if parents_first {
        right(t, 21);
    }
    match &**t {
        Node::Branch { children, .. } => {
            for c in children {
                ask(c, parents_first);
            }
        }
        Node::Extension { child, .. } => ask(child, parents_first),
        _ => {}
    }
    if !parents_first {
        right(t, 21);
    }
}
/// params: family..., whether subsets are considered
/// the nodes of a trie are tries themselves: they may be hashed on their own, taken out and put under other nodes
fn nested() {
    let mut p = P(0);
    let mut w = World::<H>::new(&mut p);
    if p.next() == 1 && choice(2) == 1 {
        crate::note!("subset");
        let k = w.probe();
        match create_trie_subset(&w.t, [k.nibbles()]) {
            Ok(s) => w.t = s,
            Err(_) => return,
        }
        cover(20);
    }
    match choice(3) {
        0 => {}
        1 => ask(&w.t, true),
        _ => ask(&w.t, false),
    }
    right(&w.t, 22);
    match choice(4) {
        0 => {
            // part of the trie goes on as a trie of its own
            let mut have: Vec<H> = vec![];
            match &*w.t {
                Node::Branch { children, .. } => {
                    for c in children {
                        let n: &Node<H> = c;
                        if !matches!(n, Node::Empty) {
                            have.push((***c).clone());
                        }
                    }
                }
                Node::Extension { child, .. } => have.push((***child).clone()),
                _ => return,
            }
            let n = choice(have.len());
            crate::note!("child {} on its own", n);
            let mut u = have.swap_remove(n);
            right(&u, 23);
            let n: &Node<H> = &u;
            if !matches!(n, Node::Hash(_)) {
                poke(&mut u, byte());
                right(&u, 24);
            }
            right(&w.t, 25);
            cover(21);
        }
        1 => {
            crate::note!("under an extension");
            let u = H::new(Node::Extension { nibbles: nibbles_of(&[7, 8]), child: Arc::new(Box::new(w.t.clone())) });
            right(&u, 26);
            right(&w.t, 27);
            cover(22);
        }
        2 => {
            crate::note!("under a branch, twice");
            let mut children = no_children();
            children[3] = Arc::new(Box::new(w.t.clone()));
            children[15] = Arc::new(Box::new(w.t.clone()));
            let u = H::new(Node::Branch { children, value: if choice(2) == 1 { vec![byte()] } else { vec![] } });
            right(&u, 28);
            right(&w.t, 29);
            cover(23);
        }
        _ => {
            let b = byte();
            if !matches!(&*w.t, Node::Hash(_)) {
                poke(&mut w.t, b);
                right(&w.t, 30);
                ask(&w.t, true);
                right(&w.t, 31);
            }
            cover(24);
        }
    }
}
fn no_children() -> [WrappedNode<H>; 16] {
    std::array::from_fn(|_| Arc::new(Box::new(H::default())))
}

harnesses! {
    c04_steps = steps;
    c04_family = family;
    c04_nested = nested;
}
