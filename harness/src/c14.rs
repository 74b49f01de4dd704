//! Nibble sequences behave as sequences.
use crate::seq::*;
use crate::sym::*;
use eth_trie_utils::nibbles::Nibbles;

/// operations without argument
fn plain() {
    let len = choice(param(0) + 1);
    let (n, x) = seq(len);
    match choice(6) {
        0 => {
            is(&x.reverse(), &reversed(&n), 1);
            cover(1);
        }
        1 => {
            check(x.is_empty() == n.is_empty(), 2);
            check(x.min_bytes() == (len + 1) / 2, 3);
        }
        2 if len > 0 => {
            let mut y = x;
            let got = y.pop_next_nibble_front();
            check(got == n[0], 4);
            is(&y, &n[1..], 5);
            cover(2);
        }
        3 if len > 0 => {
            let mut y = x;
            let got = y.pop_next_nibble_back();
            check(got == n[len - 1], 6);
            is(&y, &n[..len - 1], 7);
            cover(3);
        }
        4 => {
            let k = nib();
            is(&Nibbles::from_nibble(k), &[k], 8);
            check(x == x.clone(), 9);
        }
        5 if len < 64 => {
            let k = nib();
            match choice(3) {
                0 => {
                    let mut y = x;
                    y.push_nibble_front(k);
                    is(&y, &joined(&[k], &n), 10);
                    cover(4);
                }
                1 => {
                    let mut y = x;
                    y.push_nibble_back(k);
                    is(&y, &joined(&n, &[k]), 11);
                    cover(5);
                }
                _ => {
                    is(&x.merge_nibble(k), &joined(&n, &[k]), 12);
                    cover(6);
                }
            }
        }
        _ => return,
    }
    is(&x, &n, 13);
}

/// operations with one position or amount
fn at() {
    let len = choice(param(0) + 1);
    let (n, x) = seq(len);
    let i = choice(len + 1);
    crate::note!("at {}", i);
    match choice(8) {
        0 if i < len => {
            check(x.get_nibble(i) == n[i], 1);
            cover(1);
        }
        1 => {
            is(&x.get_next_nibbles(i), &n[..i], 2);
            cover(2);
        }
        2 => {
            let mut y = x;
            is(&y.pop_nibbles_front(i), &n[..i], 3);
            is(&y, &n[i..], 4);
            cover(3);
        }
        3 => {
            // the last nibble comes off first
            let mut y = x;
            is(&y.pop_nibbles_back(i), &reversed(&n[len - i..]), 5);
            is(&y, &n[..len - i], 6);
            cover(4);
        }
        4 => {
            let (a, b) = x.split_at_idx(i);
            is(&a, &n[..i], 7);
            is(&b, &n[i..], 8);
            cover(5);
        }
        5 => {
            is(&x.split_at_idx_prefix(i), &n[..i], 9);
            is(&x.split_at_idx_postfix(i), &n[i..], 10);
            cover(6);
        }
        6 => {
            is(&x.truncate_n_nibbles_front(i), &n[i..], 11);
            is(&x.truncate_n_nibbles_back(i), &n[..len - i], 12);
            cover(7);
        }
        7 => {
            let mut y = x;
            y.truncate_n_nibbles_front_mut(i);
            is(&y, &n[i..], 13);
            let mut y = x;
            y.truncate_n_nibbles_back_mut(i);
            is(&y, &n[..len - i], 14);
            cover(8);
        }
        _ => return,
    }
    is(&x, &n, 15);
}

/// ranges
fn range() {
    let step = param(1);
    let len = (param(0) - choice(param(0) / step + 1) * step).min(64);
    let (n, x) = seq(len);
    let b = choice(len + 1);
    let a = choice(b + 1);
    crate::note!("range {}..{}", a, b);
    is(&x.get_nibble_range(a..b), &n[a..b], 1);
    is(&x, &n, 2);
    cover(1);
}

/// two sequences
fn two() {
    let max = param(0);
    let la = choice(max + 1);
    let lb = choice(max - la + 1);
    let (n, x) = seq(la);
    let (m, y) = seq(lb);
    is(&x.merge_nibbles(&y), &joined(&n, &m), 1);
    let mut z = y;
    z.push_nibbles_front(&x);
    is(&z, &joined(&n, &m), 2);
    is(&x, &n, 3);
    is(&y, &m, 4);
    cover(1);
}

/// two operations on one sequence one after the other
fn chain() {
    let len = choice(param(0) + 1);
    let (mut n, mut x) = seq(len);
    for _ in 0..param(1) {
        let i = choice(n.len() + 1);
        match choice(8) {
            0 => {
                is(&x.pop_nibbles_front(i), &n[..i], 1);
                n = n[i..].to_vec();
            }
            1 => {
                let at = n.len() - i;
                is(&x.pop_nibbles_back(i), &reversed(&n[at..]), 2);
                n.truncate(at);
            }
            2 => {
                x = x.reverse();
                n = reversed(&n);
            }
            3 => {
                let k = nib();
                x.push_nibble_front(k);
                n.insert(0, k);
            }
            4 => {
                let k = nib();
                x.push_nibble_back(k);
                n.push(k);
            }
            5 => {
                x = x.split_at_idx_postfix(i).merge_nibbles(&x.split_at_idx_prefix(i));
                n = joined(&n[i..], &n[..i]);
            }
            6 => {
                x.truncate_n_nibbles_front_mut(i);
                n = n[i..].to_vec();
            }
            _ => {
                let y = x.get_nibble_range(i..n.len());
                x.truncate_n_nibbles_back_mut(n.len() - i);
                x.push_nibbles_front(&y);
                n = joined(&n[i..], &n[..i]);
            }
        }
    }
    is(&x, &n, 3);
    cover(1);
}

harnesses! {
    c14_plain = plain;
    c14_at = at;
    c14_range = range;
    c14_two = two;
    c14_chain = chain;
}
