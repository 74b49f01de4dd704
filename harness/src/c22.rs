//! Trie statistics count every node.
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::debug_tools::stats::*;
use eth_trie_utils::partial_trie::*;

#[derive(Default)]
struct Counts {
    // empty, hash, branch, extension, leaf
    n: [usize; 5],
    deepest: usize,
    leaf_depths: usize,
    hash_depths: usize,
}
#[inline(never)]
fn count<T: PartialTrie>(n: &Node<T>, depth: usize, c: &mut Counts) {
    match n {
        Node::Empty => c.n[0] += 1,
        Node::Hash(_) => {
            c.n[1] += 1;
            c.hash_depths += depth;
            c.deepest = c.deepest.max(depth);
        }
        Node::Branch { children, .. } => {
            c.n[2] += 1;
            for x in children {
                count::<T>(x, depth + 1, c);
            }
        }
        Node::Extension { child, .. } => {
            c.n[3] += 1;
            count::<T>(child, depth + 1, c);
        }
        Node::Leaf { .. } => {
            c.n[4] += 1;
            c.leaf_depths += depth;
            c.deepest = c.deepest.max(depth);
        }
    }
}
const NAMES: [&str; 5] = ["Empty: ", "Hash: ", "Branch: ", "Extension: ", "Leaf: "];

/// what follows the label, up to a blank or the end of the line
#[inline(never)]
fn after<'a>(text: &'a [u8], label: &str) -> Option<&'a [u8]> {
    let l = label.as_bytes();
    let mut i = 0;
    while i + l.len() <= text.len() {
        if &text[i..i + l.len()] == l && (i == 0 || text[i - 1] == b'\n' || text[i - 1] == b' ') {
            let rest = &text[i + l.len()..];
            let mut j = 0;
            while j < rest.len() && rest[j] != b' ' && rest[j] != b'\n' {
                j += 1;
            }
            return Some(&rest[..j]);
        }
        i += 1;
    }
    None
}
#[inline(never)]
fn says(text: &str, label: &str, want: &str, id: u32) {
    check(after(text.as_bytes(), label) == Some(want.as_bytes()), id);
}
/// the text gives the two figures after the label as `a / b`
#[inline(never)]
fn relates(text: &str, label: &str, a: &str, b: &str, id: u32) {
    let mut l = String::from(label);
    l.push_str(a);
    l.push_str(" / ");
    says(text, &l, b, id);
}
fn num(n: usize) -> String {
    let mut d = vec![];
    let mut n = n;
    loop {
        d.insert(0, b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    String::from_utf8(d).unwrap()
}
fn mean(sum: usize, n: usize) -> String {
    format!("{:.3}", sum as f32 / n as f32)
}

/// params: family..., nodes hashed out
fn stats<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let mut out = p.next();
    let t = T::new(hash_out(&w.t, true, false, &mut out));
    let mut c = Counts::default();
    count::<T>(&t, 0, &mut c);
    let s = if choice(2) == 1 { get_trie_stats(&t) } else { get_trie_stats_with_name(&t, String::from("name")) };
    let text = format!("{}", s);
    for b in text.as_bytes().chunks(8) {
        trace(b.iter().fold(0, |a, x| a << 8 | *x as u64));
    }
    for i in 0..5 {
        says(&text, NAMES[i], &num(c.n[i]), 10 + i as u32);
    }
    says(&text, "Lowest depth: ", &num(c.deepest), 1);
    if c.n[4] > 0 {
        says(&text, "Average leaf depth: ", &mean(c.leaf_depths, c.n[4]), 2);
        cover(1);
    }
    if c.n[1] > 0 {
        says(&text, "Average hash depth: ", &mean(c.hash_depths, c.n[1]), 3);
        cover(2);
    }
}
/// params: family..., nodes hashed out; a trie against a partly hashed-out copy, either way round
fn compare<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let mut out = p.next();
    let t = T::new(hash_out(&w.t, true, false, &mut out));
    let (a, b) = if choice(2) == 1 { (&w.t, &t) } else { (&t, &w.t) };
    let (mut ca, mut cb) = (Counts::default(), Counts::default());
    count::<T>(a, 0, &mut ca);
    count::<T>(b, 0, &mut cb);
    let text = format!("{}", get_trie_stats(a).compare(&get_trie_stats(b)));
    let tot = |c: &Counts| c.n[0] + c.n[1] + c.n[2] + c.n[3] + c.n[4];
    relates(&text, "Total nodes: ", &num(tot(&ca)), &num(tot(&cb)), 1);
    relates(&text, "Non-empty: ", &num(tot(&ca) - ca.n[0]), &num(tot(&cb) - cb.n[0]), 2);
    let labels = ["Total empty: ", "Total hash: ", "Total branch: ", "Total extension: ", "Total leaf: "];
    for i in 0..5 {
        relates(&text, labels[i], &num(ca.n[i]), &num(cb.n[i]), 10 + i as u32);
    }
    relates(&text, "Lowest depth: ", &num(ca.deepest), &num(cb.deepest), 3);
    if ca.n[4] > 0 && cb.n[4] > 0 {
        relates(&text, "Avg leaf depth: ", &mean(ca.leaf_depths, ca.n[4]), &mean(cb.leaf_depths, cb.n[4]), 4);
        cover(1);
    }
    if ca.n[1] > 0 && cb.n[1] > 0 {
        relates(&text, "Avg hash depth: ", &mean(ca.hash_depths, ca.n[1]), &mean(cb.hash_depths, cb.n[1]), 5);
        cover(2);
    }
}

harnesses! {
    c22_stats_std = stats::<StandardTrie>;
    c22_stats_hashed = stats::<HashedPartialTrie>;
    c22_compare_std = compare::<StandardTrie>;
}
