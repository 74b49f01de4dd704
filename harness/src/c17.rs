//! Hexadecimal text round-trips.
#[cfg(feature = "native")]
use crate::model::hex;
use crate::model::FAR;
use crate::seq::*;
use crate::sym::*;
use eth_trie_utils::nibbles::Nibbles;
use std::str::FromStr;

fn digit(d: u8, upper: bool) -> u8 {
    d + if d < 10 {
        b'0'
    } else if upper {
        b'A' - 10
    } else {
        b'a' - 10
    }
}
fn spell(n: &[u8], upper: bool) -> Vec<u8> {
    let mut v = vec![b'0', b'x'];
    for d in n {
        v.push(digit(*d, upper));
    }
    v
}
/// params: longest sequence
fn print() {
    let len = choice(param(0) + 1);
    let (n, x) = seq(len);
    let (got, upper) = match choice(3) {
        0 => (format!("{}", x), false),
        1 => (format!("{:x}", x), false),
        _ => (format!("{:X}", x), true),
    };
    let want = spell(&n, upper);
    check(got.len() == want.len(), 1);
    // one digit at a time: a few small questions to the solver instead of one large
    for (a, b) in got.as_bytes().iter().zip(&want) {
        check(a == b, 2);
    }
    cover(1);
}

/// a sequence whose nibbles are fixed but for a few at chosen places
fn mostly_fixed(len: usize, free: usize) -> Vec<u8> {
    let start = [0, 9][choice(2)];
    let mut n: Vec<u8> = (0..len).map(|i| if start == 0 && i < len / 2 { 0 } else { ((i + start) * 7 % 16) as u8 }).collect();
    if len > 0 {
        let mut p = choice(len);
        for _ in 0..free {
            n[p] = nib();
            p = (p + 1).min(len - 1);
        }
    }
    crate::note!("sequence {}", hex(&n));
    n
}

/// params: longest sequence, free nibbles
fn parse() {
    let len = choice(param(0) + 1);
    let n = mostly_fixed(len, param(1));
    let upper = choice(2) == 1;
    let text = spell(&n, upper);
    let s = unsafe { std::str::from_utf8_unchecked(if choice(2) == 1 { &text[2..] } else { &text }) };
    match Nibbles::from_str(s) {
        Ok(x) => is(&x, &n, 1),
        Err(_) => check(false, 2),
    }
    cover(1);
}

/// params: longest text, free characters
/// text of fixed digits with free characters (any of ASCII) at any place, after 0x or not
fn any_text() {
    let len = choice(param(0) + 1);
    let mut d: Vec<u8> = (0..len).map(|i| digit((i * 11 % 16) as u8, i % 3 == 0)).collect();
    let free = param(1).min(len);
    let p = if len > 0 { choice(len) } else { 0 };
    for i in 0..free {
        d[(p + i).min(len - 1)] = var(7) as u8;
    }
    judge(&d);
}
/// params: longest text; all characters free
fn short_text() {
    let len = choice(param(0) + 1);
    let d: Vec<u8> = (0..len).map(|_| var(7) as u8).collect();
    judge(&d);
}
/// many more digits than any sequence has, one character free
fn long_text() {
    let len = FAR[choice(FAR.len() - 2)].max(132);
    let mut d: Vec<u8> = vec![[b'0', b'7'][choice(2)]; len];
    d[[0, 1, len / 2, len - 1][choice(4)]] = var(7) as u8;
    judge(&d);
}
/// characters beyond ASCII
fn foreign_text() {
    let mut d: Vec<u8> = (0..choice(param(0) + 1)).map(|i| digit((i * 11 % 16) as u8, false)).collect();
    let at = choice(d.len() + 1);
    let c: &[u8] = [&[0xc3u8, 0xa9] as &[u8], &[0xe2, 0x82, 0xac], &[0xf0, 0x9f, 0x98, 0x80], &[0xef, 0xbc, 0x91]][choice(4)];
    for (i, b) in c.iter().enumerate() {
        d.insert(at + i, *b);
    }
    check(Nibbles::from_str(unsafe { std::str::from_utf8_unchecked(&d) }).is_err(), 1);
    cover(1);
}
fn judge(d: &[u8]) {
    crate::note!("text {:?}", String::from_utf8_lossy(d));
    let got = Nibbles::from_str(unsafe { std::str::from_utf8_unchecked(d) });
    let rest = if d.len() >= 2 && d[0] == b'0' && d[1] == b'x' { &d[2..] } else { d };
    let mut n = Vec::with_capacity(rest.len());
    let mut good = true;
    for c in rest {
        match c {
            b'0'..=b'9' => n.push(c - b'0'),
            b'a'..=b'f' => n.push(c - b'a' + 10),
            b'A'..=b'F' => n.push(c - b'A' + 10),
            _ => good = false,
        }
    }
    match got {
        Ok(x) => {
            check(good && n.len() <= 128, 1);
            if n.len() <= 64 {
                is(&x, &n, 2);
            }
            cover(1);
        }
        Err(_) => {
            check(!good || n.len() > 64, 3);
            cover(2);
        }
    }
}

harnesses! {
    c17_print = print;
    c17_parse = parse;
    c17_any_text = any_text;
    c17_short_text = short_text;
    c17_long_text = long_text;
    c17_foreign_text = foreign_text;
}
