//! Checks of the engine itself: the rewriting of expressions against plain arithmetic, their translation for the
//! solver against evaluation, and Keccak against published values.
use crate::expr::{mask, sext128, Arena, Eid};
use crate::keccak::keccak256;
use crate::z3::{Res, Z3};

const MODELS: usize = 6;
const WIDTHS: [u32; 9] = [1, 2, 4, 8, 16, 32, 62, 64, 128];

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb);
        z ^ z >> 31
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

type Vals = [u128; MODELS];

/// expressions so far with what they are worth under each model, by width
struct Pool {
    ar: Arena,
    models: Vec<Vec<u64>>,
    widths: Vec<u32>,
    by: Vec<Vec<(Eid, Vals)>>,
}

impl Pool {
    fn new(r: &mut Rng) -> Pool {
        let mut ar = Arena::new();
        let widths: Vec<u32> = (0..14).map(|i| [1, 1, 1, 1, 1, 4, 4, 4, 8, 8, 8, 16, 32, 64][i]).collect();
        let models: Vec<Vec<u64>> = (0..MODELS)
            .map(|m| {
                widths
                    .iter()
                    .map(|&w| match m {
                        0 => 0,
                        1 => mask(w) as u64,
                        _ => r.next() & mask(w) as u64,
                    })
                    .collect()
            })
            .collect();
        let mut by: Vec<Vec<(Eid, Vals)>> = WIDTHS.iter().map(|_| vec![]).collect();
        for (i, &w) in widths.iter().enumerate() {
            let e = ar.var(i as u32, w);
            let mut v = [0; MODELS];
            for m in 0..MODELS {
                v[m] = models[m][i] as u128;
            }
            by[WIDTHS.iter().position(|&x| x == w).unwrap()].push((e, v));
        }
        Pool { ar, models, widths, by }
    }
    fn konst(&mut self, k: usize, r: &mut Rng) -> (Eid, Vals) {
        let w = WIDTHS[k];
        let c = match r.below(6) {
            0 => 0,
            1 => mask(w),
            2 => r.below(20) as u128,
            3 => 1u128 << r.below(w as usize),
            4 => mask(r.below(w as usize) as u32 + 1),
            _ => (r.next() as u128) << 64 | r.next() as u128,
        } & mask(w);
        (self.ar.konst(c, w), [c; MODELS])
    }
    fn pick(&mut self, k: usize, r: &mut Rng) -> (Eid, Vals) {
        if self.by[k].is_empty() || r.below(6) == 0 {
            return self.konst(k, r);
        }
        let n = self.by[k].len();
        // recent ones more often
        let i = if r.below(2) == 0 { n - 1 - r.below(n.min(6)) } else { r.below(n) };
        self.by[k][i]
    }
    fn step(&mut self, r: &mut Rng) -> Result<(), String> {
        let k = r.below(WIDTHS.len());
        let w = WIDTHS[k];
        let op = r.below(20);
        // choices between constants have rewritings of their own
        let (a, va) = if op == 15 { self.konst(k, r) } else { self.pick(k, r) };
        let (b, vb) = if op == 14 || op == 15 { self.konst(k, r) } else { self.pick(k, r) };
        let (c, vc) = self.pick(0, r);
        let ar = &mut self.ar;
        let all = |f: &dyn Fn(u128, u128, u128) -> u128| {
            let mut o = [0; MODELS];
            for m in 0..MODELS {
                o[m] = f(va[m], vb[m], vc[m]);
            }
            o
        };
        let nonzero = vb.iter().all(|&x| x != 0) && ar.as_const(b).is_some();
        let (e, v, kw) = match op {
            0 => (ar.and(a, b), all(&|x, y, _| x & y), k),
            1 => (ar.or(a, b), all(&|x, y, _| x | y), k),
            2 => (ar.xor(a, b), all(&|x, y, _| x ^ y), k),
            3 => (ar.not(a), all(&|x, _, _| !x), k),
            4 | 5 => (ar.add(a, b), all(&|x, y, _| x.wrapping_add(y)), k),
            6 => (ar.sub(a, b), all(&|x, y, _| x.wrapping_sub(y)), k),
            7 => (ar.mul(a, b), all(&|x, y, _| x.wrapping_mul(y)), k),
            8 if nonzero => (ar.udiv(a, b), all(&|x, y, _| x / y), k),
            9 if nonzero => (ar.urem(a, b), all(&|x, y, _| x % y), k),
            10 => (ar.eq(a, b), all(&|x, y, _| (x == y) as u128), 0),
            11 => (ar.ult(a, b), all(&|x, y, _| (x < y) as u128), 0),
            12 => (ar.slt(a, b), all(&|x, y, _| (sext128(x, w) < sext128(y, w)) as u128), 0),
            13 | 14 | 15 => (ar.ite(c, a, b), all(&|x, y, c| if c == 1 { x } else { y }), k),
            16 => {
                let s = r.below(w as usize) as u32;
                let shift = ar.konst(s as u128, w);
                match r.below(3) {
                    0 => (ar.shl(a, shift), all(&|x, _, _| x << s), k),
                    1 => (ar.lshr(a, shift), all(&|x, _, _| x >> s), k),
                    _ => (ar.ashr(a, shift), all(&|x, _, _| (sext128(x, w) >> s) as u128), k),
                }
            }
            17 if k > 0 => {
                let kw = r.below(k);
                let lo = r.below((w - WIDTHS[kw]) as usize + 1) as u32;
                (ar.ext(a, lo, WIDTHS[kw]), all(&|x, _, _| x >> lo), kw)
            }
            18 if k + 1 < WIDTHS.len() => {
                let kw = k + 1 + r.below(WIDTHS.len() - k - 1);
                if r.below(2) == 0 {
                    (ar.zext(a, WIDTHS[kw]), all(&|x, _, _| x), kw)
                } else {
                    (ar.sext(a, WIDTHS[kw]), all(&|x, _, _| sext128(x, w) as u128), kw)
                }
            }
            19 if [1, 2, 4, 8, 16, 32, 64].contains(&w) => {
                let kw = WIDTHS.iter().position(|&x| x == 2 * w).unwrap();
                (ar.cat(&[a, b]), all(&|x, y, _| x << w | y), kw)
            }
            _ => return Ok(()),
        };
        let ew = WIDTHS[kw];
        if ar.w(e) != ew {
            return Err(format!("operation {op} of width {w} gave width {} instead of {ew}", ar.w(e)));
        }
        let (hi, lo, z) = (ar.umax(e, 4), ar.umin(e, 4), ar.high_zeros(e));
        let mut vals = [0; MODELS];
        for m in 0..MODELS {
            vals[m] = v[m] & mask(ew);
            ar.new_model();
            let got = ar.eval(e, &self.models[m]);
            if got != vals[m] {
                return Err(format!("operation {op} of width {w} on {:#x}, {:#x}, {:#x} gave {got:#x} instead of {:#x}", va[m], vb[m], vc[m], vals[m]));
            }
            if got > hi || got < lo || (z < 128 && got >> (ew - z.min(ew)) != 0 && z > 0) {
                return Err(format!("operation {op} of width {w}: {got:#x} outside its bounds {lo:#x}..{hi:#x}, {z} high zeros"));
            }
        }
        self.by[kw].push((e, vals));
        Ok(())
    }
    /// what the solver says about a few conditions against what they evaluate to
    fn ask(&mut self, z: &mut Z3, r: &mut Rng) -> Result<bool, String> {
        let cs: Vec<(Eid, Vals)> = (0..1 + r.below(3)).map(|_| self.pick(0, r)).collect();
        let cs: Vec<(Eid, Vals)> = cs.into_iter().filter(|c| self.ar.as_const(c.0).is_none()).collect();
        let es: Vec<Eid> = cs.iter().map(|c| c.0).collect();
        match z.check(&self.ar, &es, &self.widths) {
            Res::Unknown => Ok(false),
            Res::Unsat => match (0..MODELS).find(|&m| cs.iter().all(|c| c.1[m] == 1)) {
                Some(m) => Err(format!("the solver refutes what holds under model {m}")),
                None => Ok(true),
            },
            Res::Sat(v) => {
                let mut model = vec![0; self.widths.len()];
                for (i, x) in v {
                    model[i as usize] = x;
                }
                self.ar.new_model();
                if es.iter().all(|&e| self.ar.eval(e, &model) == 1) {
                    Ok(true)
                } else {
                    Err("the solver's model does not satisfy the conditions".into())
                }
            }
        }
    }
}

fn keccak() -> Result<(), String> {
    for (input, hex) in [
        (&b""[..], "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"),
        (&b"abc"[..], "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"),
        (&[0x80u8][..], "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421"),
    ] {
        let got: String = keccak256(input).iter().map(|b| format!("{b:02x}")).collect();
        if got != hex {
            return Err(format!("keccak of {input:?} is {got}"));
        }
    }
    Ok(())
}

pub fn main(n: u64, seed: u64) -> i32 {
    let mut r = Rng(seed);
    let (mut steps, mut asked, mut open) = (0u64, 0u64, 0u64);
    let go = |r: &mut Rng, steps: &mut u64, asked: &mut u64, open: &mut u64| -> Result<(), String> {
        keccak()?;
        while *steps < n {
            let mut p = Pool::new(r);
            let mut z = Z3::new(50);
            for _ in 0..300 {
                p.step(r)?;
                *steps += 1;
            }
            for _ in 0..3 {
                *asked += 1;
                if !p.ask(&mut z, r)? {
                    *open += 1;
                }
            }
        }
        Ok(())
    };
    let res = go(&mut r, &mut steps, &mut asked, &mut open);
    match res {
        Ok(()) => {
            println!("selftest: {steps} expressions, {asked} solver answers ({open} timed out), keccak: all right");
            0
        }
        Err(e) => {
            println!("selftest failed after {steps} expressions: {e}");
            3
        }
    }
}
