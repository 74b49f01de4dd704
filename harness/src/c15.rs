//! Out-of-range nibble operations are refused.
use crate::seq::*;
use crate::sym::*;
use eth_trie_utils::nibbles::Nibbles;

/// amounts beyond `len`: all up to `near` too many, and amounts whose multiples and differences wrap around
fn beyond(len: usize, near: usize) -> usize {
    let far = [usize::MAX, usize::MAX - 1, usize::MAX - len, usize::MAX / 2 + 1, usize::MAX / 4 + 1 + len, usize::MAX / 4 + 1, (usize::MAX / 4 + 1).wrapping_sub(len), usize::MAX / 8 + 1, 3 * (usize::MAX / 4 + 1), 1 << 32];
    let i = choice(near + far.len() + 1);
    if i < near {
        len + 1 + i
    } else if i == near + far.len() {
        // any amount beyond at once
        let i = var(64) as usize;
        assume(i > len);
        i
    } else {
        far[i - near].max(len + 1)
    }
}

/// params: longest sequence, how far beyond
fn refused() {
    let len = choice(param(0) + 1);
    let (_, mut x) = seq(len);
    let i = beyond(len, param(1));
    crate::note!("asked for {}", i);
    cover(1);
    expect_panic(true);
    match choice(9) {
        0 => {
            let k = i - 1;
            x.get_nibble(k);
        }
        1 => {
            x.get_next_nibbles(i);
        }
        2 => {
            x.pop_nibbles_front(i);
        }
        3 => {
            x.pop_nibbles_back(i);
        }
        4 => {
            x.split_at_idx(i);
        }
        5 => {
            x.split_at_idx_prefix(i);
        }
        6 => {
            x.split_at_idx_postfix(i);
        }
        7 => {
            // range that starts inside
            let a = [0, len / 2, len][choice(3)];
            x.get_nibble_range(a..i);
        }
        _ => {
            // range that starts outside
            x.get_nibble_range(i - 1..i);
        }
    }
    fail(1);
}

/// params: none; operations on the empty sequence
fn empty() {
    let mut x = Nibbles::default();
    cover(1);
    expect_panic(true);
    match choice(3) {
        0 => {
            x.pop_next_nibble_front();
        }
        1 => {
            x.pop_next_nibble_back();
        }
        _ => {
            x.get_nibble(choice(2));
        }
    }
    fail(1);
}

/// params: by how much at most; pushes beyond 64 nibbles
fn overfull() {
    let (_, full) = seq(64);
    match choice(5) {
        0 => {
            let mut x = full;
            expect_panic(true);
            x.push_nibble_front(nib());
        }
        1 => {
            let mut x = full;
            expect_panic(true);
            x.push_nibble_back(nib());
        }
        2 => {
            expect_panic(true);
            full.merge_nibble(nib());
        }
        k => {
            let la = 1 + choice(64);
            let lb = 65 - la + choice(la.min(param(0)));
            let (_, a) = seq(la);
            let (_, b) = seq(lb);
            cover(2);
            expect_panic(true);
            if k == 3 {
                a.merge_nibbles(&b);
            } else {
                let mut a = a;
                a.push_nibbles_front(&b);
            }
        }
    }
    fail(1);
}

/// params: longest sequence; a nibble above 15 is refused wherever a nibble is taken
fn large_nibble() {
    let (_, mut x) = seq(choice(param(0)));
    let k = byte();
    assume(k > 15);
    cover(1);
    expect_panic(true);
    match choice(4) {
        0 => x.push_nibble_front(k),
        1 => x.push_nibble_back(k),
        2 => {
            x.merge_nibble(k);
        }
        _ => {
            Nibbles::from_nibble(k);
        }
    }
    fail(1);
}

/// params: longest sequence, how far beyond; truncation accepts any amount, and in-range requests never panic
fn accepted() {
    let len = choice(param(0) + 1);
    let (n, x) = seq(len);
    let i = beyond(len, param(1));
    crate::note!("truncated by {}", i);
    match choice(2) {
        0 => {
            is(&x.truncate_n_nibbles_front(i), &[], 1);
            let mut y = x;
            y.truncate_n_nibbles_front_mut(i);
            is(&y, &[], 2);
        }
        _ => {
            is(&x.truncate_n_nibbles_back(i), &[], 3);
            let mut y = x;
            y.truncate_n_nibbles_back_mut(i);
            is(&y, &[], 4);
        }
    }
    is(&x, &n, 5);
    cover(1);
}

/// params: longest sequence; requests that just fit
fn fits() {
    let len = choice(param(0) + 1);
    let (_, x) = seq(len);
    let i = choice(len + 1);
    x.split_at_idx(i);
    x.split_at_idx_prefix(i);
    x.split_at_idx_postfix(i);
    x.get_next_nibbles(i);
    x.get_nibble_range(i..len);
    x.get_nibble_range(i..i);
    let mut y = x;
    y.pop_nibbles_front(i);
    let mut y = x;
    y.pop_nibbles_back(i);
    if i < len {
        x.get_nibble(i);
    }
    let (_, y) = seq(64 - len);
    x.merge_nibbles(&y);
    let mut z = x;
    z.push_nibbles_front(&y);
    if len < 64 {
        x.merge_nibble(nib());
        let mut z = x;
        z.push_nibble_front(nib());
        let mut z = x;
        z.push_nibble_back(nib());
    }
    check(x.count == len, 1);
    cover(1);
}

harnesses! {
    c15_refused = refused;
    c15_empty = empty;
    c15_overfull = overfull;
    c15_large_nibble = large_nibble;
    c15_accepted = accepted;
    c15_fits = fits;
}
