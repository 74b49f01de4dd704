//! Concurrent hashing of shared tries agrees with sequential hashing.
use crate::pairs::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;
use ethereum_types::H256;

type T = HashedPartialTrie;

extern "C-unwind" {
    fn __sym_parallel(f: extern "C-unwind" fn(*mut ()), a: *mut (), g: extern "C-unwind" fn(*mut ()), b: *mut (), preemptions: u64);
}
extern "C-unwind" fn call<F: FnOnce()>(p: *mut ()) {
    let f = unsafe { &mut *(p as *mut Option<F>) };
    (f.take().unwrap())()
}
/// runs both under every schedule with at most so many switches that are not forced
fn parallel<F: FnOnce(), G: FnOnce()>(f: F, g: G, preemptions: usize) {
    let (mut f, mut g) = (Some(f), Some(g));
    unsafe { __sym_parallel(call::<F>, &mut f as *mut _ as *mut (), call::<G>, &mut g as *mut _ as *mut (), preemptions as u64) }
    check(f.is_none() && g.is_none(), 50);
}

/// what a thread does with its trie
#[derive(Clone)]
enum Act {
    Hash,
    Clone,
    Insert(crate::model::Key, Vec<u8>),
    Delete(crate::model::Key),
}
fn act(w: &World<T>, n: usize) -> Act {
    match n {
        0 => Act::Hash,
        1 => Act::Clone,
        2 => Act::Insert(w.probe(), w.vals.clone().next()),
        _ => Act::Delete(w.probe()),
    }
}
/// hashes reported on the way
struct Seen {
    first: Option<H256>,
    last: H256,
    then: T,
}
#[inline(never)]
fn perform(t: &T, a: &Act, hash_first: bool) -> Seen {
    match a {
        Act::Hash => {
            let h = t.hash();
            Seen { first: Some(h), last: t.hash(), then: T::default() }
        }
        Act::Clone => {
            let u = t.clone();
            let h = u.hash();
            Seen { first: Some(h), last: u.hash(), then: u }
        }
        Act::Insert(k, v) => {
            let mut u = t.clone();
            let first = if hash_first { Some(u.hash()) } else { None };
            u.insert(k.nibbles(), v.clone());
            Seen { first, last: u.hash(), then: u }
        }
        Act::Delete(k) => {
            let mut u = t.clone();
            let first = if hash_first { Some(u.hash()) } else { None };
            u.delete(k.nibbles());
            Seen { first, last: u.hash(), then: u }
        }
    }
}
fn judge(t: &T, a: &Act, s: &Seen, before: H256, id: u32) {
    if let Some(h) = s.first {
        check(same_h(h, before), id);
    }
    let after = match a {
        Act::Hash => before,
        Act::Clone => unhashed(&s.then),
        Act::Insert(k, v) => {
            let mut d = StandardTrie(convert::<T, StandardTrie>(t));
            d.insert(k.nibbles(), v.clone());
            check(same_nodes::<T, StandardTrie>(&s.then, &d), id + 1);
            d.hash()
        }
        Act::Delete(k) => {
            let mut d = StandardTrie(convert::<T, StandardTrie>(t));
            d.delete(k.nibbles());
            check(same_nodes::<T, StandardTrie>(&s.then, &d), id + 1);
            d.hash()
        }
    };
    check(same_h(s.last, after), id + 2);
    if !matches!(a, Act::Hash) {
        check(same_h(s.then.hash(), after), id + 3);
    }
}

/// params: family..., what the first and the second thread do (0 hash the shared trie, 1 hash a clone, 2 insert into a clone and hash it,
/// 3 delete from a clone and hash it), most unforced switches, whether hashes are cached beforehand
fn threads() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let (a, b, most, hashing) = (p.next(), p.next(), p.next(), p.next());
    let t = &w.t;
    if hashing == 1 {
        hash_some(t);
    }
    let (a, b) = (act(&w, a), act(&w, b));
    let first = choice(2) == 1;
    let (mut x, mut y) = (None, None);
    parallel(|| x = Some(perform(t, &a, first)), || y = Some(perform(t, &b, first)), most);
    let before = unhashed(t);
    judge(t, &a, &x.unwrap(), before, 1);
    judge(t, &b, &y.unwrap(), before, 11);
    check(same_h(t.hash(), before), 20);
    cover(1);
}

harnesses! {
    c26_threads = threads;
}
