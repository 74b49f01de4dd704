//! Errors describe the input that was refused.
use crate::model::*;
use crate::subset::*;
use crate::sym::*;
use crate::text::*;
use crate::world::*;
use eth_trie_utils::nibbles::{BytesToNibblesError, FromHexPrefixError, Nibbles};
use eth_trie_utils::partial_trie::*;
use eth_trie_utils::trie_subsets::SubsetTrieError;

/// the text after the first occurrence of `mark`
fn after<'a>(text: &'a [u8], mark: &[u8]) -> &'a [u8] {
    for i in 0..text.len() {
        if text[i..].starts_with(mark) {
            return &text[i + mark.len()..];
        }
    }
    &[]
}
fn begins(text: &[u8], want: &[u8], id: u32) {
    check(text.len() >= want.len(), id);
    same_text(&text[..want.len().min(text.len())], want, id);
    // and the number or digits end there
    if text.len() > want.len() {
        check(!(text[want.len()] as char).is_ascii_hexdigit(), id + 200);
    }
}
/// params: longest free byte string; far beyond that as well
fn bytes() {
    let b = match choice(3) {
        0 => vec![],
        1 => value(34 + choice(param(0) - 33)),
        _ => far(),
    };
    let e = if choice(2) == 1 { Nibbles::from_bytes_be(&b) } else { Nibbles::from_bytes_le(&b) };
    match e {
        Ok(_) => check(false, 1),
        Err(e) => {
            let text = format!("{}", e);
            match e {
                BytesToNibblesError::ZeroSizedKey => {
                    check(b.is_empty(), 2);
                    cover(1);
                }
                BytesToNibblesError::TooManyBytes(n) => {
                    check(!b.is_empty() && n == b.len(), 3);
                    begins(after(text.as_bytes(), b"len: "), &decimal(b.len()), 4);
                    cover(2);
                }
            }
        }
    }
}
/// params: longest free byte string; far beyond that as well
fn prefix() {
    let b = if choice(2) == 1 { value(1 + choice(param(0))) } else { far() };
    let flag = b[0] >> 4;
    match Nibbles::from_hex_prefix_encoding(&b) {
        Ok(_) => check(flag <= 3 && b.len() <= 33, 1),
        Err(e) => {
            let long = matches!(e, FromHexPrefixError::TooLong(..));
            check(long == (b.len() > 33), 2);
            let text = format!("{}", e);
            match e {
                FromHexPrefixError::InvalidFlags(f) => {
                    check(f == flag, 3);
                    // four to fifteen, in binary
                    let t = after(text.as_bytes(), b"0b");
                    let n = if f < 8 { 3 } else { 4 };
                    check(t.len() == n, 4);
                    for i in 0..n.min(t.len()) {
                        check(t[i] == b'0' + (f >> (n - 1 - i) & 1), 5);
                    }
                    cover(1);
                }
                FromHexPrefixError::TooLong(hex, n) => {
                    check(n == b.len(), 6);
                    let want = spell_bytes(&b);
                    same_text(hex.as_bytes(), &want[2..], 7);
                    begins(after(text.as_bytes(), b"length: "), &decimal(b.len()), 8);
                    begins(after(text.as_bytes(), b", bytes: "), &want[2..], 9);
                    cover(2);
                }
            }
        }
    }
}
/// what is left of a key below the first hash node
fn below<'a, T: PartialTrie>(n: &Node<T>, k: &'a [u8]) -> Option<&'a [u8]> {
    match n {
        Node::Hash(_) => (!k.is_empty()).then_some(k),
        Node::Branch { children, .. } => {
            if k.is_empty() {
                return None;
            }
            below(&children[pick(k[0] as u64) as usize], &k[1..])
        }
        Node::Extension { nibbles, child } => {
            if k.len() < nibbles.count || !(0..nibbles.count).all(|i| nib_at(nibbles, i) == k[i]) {
                return None;
            }
            below(child, &k[nibbles.count..])
        }
        _ => None,
    }
}
/// params: family..., most nodes hashed out before, most keys
fn unexpected<T: PartialTrie>() {
    let mut p = P(0);
    let w = World::<T>::new(&mut p);
    let t = partly_hashed(&w, p.next());
    let ks = keys(&w, p.next());
    match subset(&t, &ks) {
        Ok(_) => {
            for k in &ks {
                check(below::<T>(&t, &k.n).is_none(), 1);
            }
            cover(1);
        }
        Err(e) => {
            let text = format!("{}", e);
            let SubsetTrieError::UnexpectedKey(got, _) = e;
            let Some(rest) = ks.iter().find_map(|k| below::<T>(&t, &k.n)) else {
                check(false, 2);
                return;
            };
            check(same_nibbles(&got, &nibbles_of(rest)), 3);
            begins(after(text.as_bytes(), b"Key: "), &spell(rest), 4);
            trace(rest.len() as u64);
            cover(2);
        }
    }
}

harnesses! {
    c29_bytes = bytes;
    c29_prefix = prefix;
    c29_unexpected_std = unexpected::<StandardTrie>;
    c29_unexpected_hashed = unexpected::<HashedPartialTrie>;
}
