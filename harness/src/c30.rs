//! Logging does not change what operations do.
use crate::model::*;
use crate::subset::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;
use log::{LevelFilter, Log, Metadata, Record};
use std::fmt::Write;
use std::sync::atomic::{AtomicUsize, Ordering};

/// formats every message and forgets it
struct Sink;
struct Count;
static MESSAGES: AtomicUsize = AtomicUsize::new(0);

impl Write for Count {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
impl Log for Sink {
    fn enabled(&self, _: &Metadata) -> bool {
        true
    }
    fn log(&self, r: &Record) {
        MESSAGES.fetch_add(1, Ordering::Relaxed);
        if Count.write_fmt(*r.args()).is_err() {
            fail(99);
        }
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

fn logging(on: bool) {
    let _ = log::set_logger(&SINK);
    log::set_max_level(if on { LevelFilter::Trace } else { LevelFilter::Off });
}
/// params: family..., most nodes hashed out; a key looked up, deleted and inserted
fn updates<T: PartialTrie>() {
    let mut p = P(0);
    // the history of the trie is logged
    logging(true);
    let w = World::<T>::new(&mut p);
    logging(false);
    let quiet: T = fresh(&w.m);
    check(same_nodes::<T, T>(&w.t, &quiet), 1);
    let t = partly_hashed(&w, p.next());
    let k = w.probe();
    let want: Option<Vec<u8>> = t.get(k.nibbles()).map(|v| v.to_vec());
    // one that runs into a hash node panics either way
    if into_hash::<T>(&t, &k.n) || ends_at_hash::<T>(&t, &k.n) {
        cover(3);
        logging(true);
        check(t.get(k.nibbles()).is_none(), 2);
        logging(false);
        return;
    }
    let (mut a, mut b) = (t.clone(), t.clone());
    let v = vec![9u8; 40];
    let delete = choice(2) == 1;
    let quietly = if delete {
        a.delete(k.nibbles())
    } else {
        a.insert(k.nibbles(), v.clone());
        None
    };
    logging(true);
    let got: Option<Vec<u8>> = b.get(k.nibbles()).map(|v| v.to_vec());
    let aloud = if delete {
        b.delete(k.nibbles())
    } else {
        b.insert(k.nibbles(), v);
        None
    };
    logging(false);
    check(same_opt(got.as_deref(), want.as_deref()), 3);
    check(same_opt(quietly.as_deref(), aloud.as_deref()), 4);
    check(same_nodes::<T, T>(&a, &b), 5);
    check(same_h(a.hash(), b.hash()), 6);
    trace(quietly.is_some() as u64);
    cover(if delete { 1 } else { 2 });
}
fn ends_at_hash<T: PartialTrie>(n: &Node<T>, k: &[u8]) -> bool {
    match n {
        Node::Hash(_) => true,
        Node::Branch { children, .. } if !k.is_empty() => ends_at_hash(&children[pick(k[0] as u64) as usize], &k[1..]),
        Node::Extension { nibbles, child } if k.len() >= nibbles.count && (0..nibbles.count).all(|i| nib_at(nibbles, i) == k[i]) => ends_at_hash(child, &k[nibbles.count..]),
        _ => false,
    }
}
/// params: family..., most nodes hashed out; iterated and subset
fn reads<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let t = partly_hashed(&w, p.next());
    let ks = keys(&w, 1);
    let (a, s) = (t.items().collect::<Vec<_>>(), subset(&t, &ks));
    logging(true);
    let (b, u) = (t.items().collect::<Vec<_>>(), subset(&t, &ks));
    let h = t.hash();
    logging(false);
    check(a == b, 7);
    check(same_h(h, t.hash()), 8);
    match (s, u) {
        (Ok(s), Ok(u)) => check(same_nodes::<T, T>(&s, &u), 9),
        (Err(_), Err(_)) => cover(5),
        _ => check(false, 10),
    }
    cover(4);
}

harnesses! {
    c30_updates_std = updates::<StandardTrie>;
    c30_updates_hashed = updates::<HashedPartialTrie>;
    c30_reads_hashed = reads::<HashedPartialTrie>;
}
