//! Key comparisons agree with the nibbles.
use crate::model::*;
use crate::seq::*;
use crate::sym::*;
use eth_trie_utils::nibbles::Nibbles;

/// params: longest sequence, step between lengths
/// the first difference (or the end of the shorter sequence) is at any place, everything else is free
fn compare() {
    let (max, step) = (param(0), param(1));
    let la = max - choice(max / step + 1) * step;
    let lb = la.saturating_sub(choice(la + 1));
    let (a, x) = seq(la);
    let c = choice(lb + 1);
    let (mut b, _) = seq(lb);
    b[..c].copy_from_slice(&a[..c]);
    if c < lb {
        assume(a[c] != b[c]);
        cover(1);
    } else {
        cover(2);
    }
    let y = nibbles_of(&b);
    crate::note!("and {}, first difference {}", hex(&b), c);
    let prefix = c == lb;
    check(x.nibbles_are_identical_up_to_smallest_count(&y) == prefix, 1);
    check(y.nibbles_are_identical_up_to_smallest_count(&x) == prefix, 2);
    check(Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(&x, &y) == c, 3);
    check(Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(&y, &x) == c, 4);
    let same = la == lb && c == la;
    check((x == y) == same, 5);
    check((x != y) == !same, 6);
    if la == lb {
        check(Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&x, &y) == c, 7);
        check(Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&y, &x) == c, 8);
        cover(3);
    }
}

/// params: longest sequence; the same nibbles, or all but leading zeros, are equal only at equal length
fn zeros() {
    let max = param(0);
    let la = choice(max + 1);
    let (a, x) = seq(la);
    let k = choice(max - la + 1);
    let b = joined(&vec![0; k], &a);
    let y = nibbles_of(&b);
    check((x == y) == (k == 0), 1);
    check((y == x) == (k == 0), 2);
    cover(1);
}

/// params: longest sequence; comparing different lengths as if they were equal is refused
fn unequal() {
    let la = choice(param(0) + 1);
    let lb = choice(param(0) + 1);
    if la == lb {
        return;
    }
    let (_, x) = seq(la);
    let (_, y) = seq(lb);
    cover(1);
    expect_panic(true);
    Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&x, &y);
    fail(1);
}

harnesses! {
    c19_compare = compare;
    c19_zeros = zeros;
    c19_unequal = unequal;
}
