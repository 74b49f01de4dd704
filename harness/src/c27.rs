//! A subset depends only on which keys are asked for.
use crate::model::*;
use crate::subset::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;

fn alike<T: PartialTrie>(a: &T, b: &T, id: u32) {
    check(same_nodes::<T, T>(a, b), id);
    check(*a == *b, id + 10);
}
/// params: family..., most nodes hashed out before, most keys
/// the keys in another order, with repetitions, and again from a trie that was hashed or subset before
fn again<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let t = partly_hashed(&w, p.next());
    let ks = keys(&w, p.next());
    let first = subset(&t, &ks);
    let mut other: Vec<Key> = ks.clone();
    match choice(3) {
        0 => other.reverse(),
        1 => {
            // each twice, one after the other
            other = vec![];
            for k in &ks {
                other.push(k.clone());
                other.push(k.clone());
            }
        }
        _ => {
            for k in &ks {
                other.push(k.clone());
            }
            other.rotate_left(ks.len() / 2);
        }
    }
    if choice(2) == 1 {
        t.hash();
    }
    let second = subset(&t, &other);
    match (first, second) {
        (Ok(a), Ok(b)) => {
            alike(&a, &b, 1);
            cover(1);
        }
        (Err(_), Err(_)) => cover(2),
        _ => check(false, 2),
    }
    trace(ks.len() as u64);
}
/// params: family..., most nodes hashed out before, most keys
/// the subset for some of the keys, taken from the subset for all of them or from the trie itself
fn nested<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let t = partly_hashed(&w, p.next());
    let ks = keys(&w, p.next());
    let Ok(s) = subset(&t, &ks) else {
        cover(2);
        return;
    };
    let some: Vec<Key> = match choice(3) {
        0 => vec![],
        1 => ks.clone(),
        _ => ks.iter().step_by(2).cloned().collect(),
    };
    if choice(2) == 1 {
        s.hash();
    }
    let (Ok(a), Ok(b)) = (subset(&s, &some), subset(&t, &some)) else {
        check(false, 1);
        return;
    };
    alike(&a, &b, 2);
    // what it was taken from is as before
    let Ok(c) = subset(&t, &ks) else {
        check(false, 3);
        return;
    };
    alike(&s, &c, 4);
    trace(some.len() as u64);
    cover(1);
}

harnesses! {
    c27_again_std = again::<StandardTrie>;
    c27_again_hashed = again::<HashedPartialTrie>;
    c27_nested_std = nested::<StandardTrie>;
    c27_nested_hashed = nested::<HashedPartialTrie>;
}
