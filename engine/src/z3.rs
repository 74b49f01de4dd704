//! Minimal binding to the Z3 C API and translation of expressions.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_get_full_version() -> *const c_char;
}
thread_local!(static FAILED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
extern "C" fn note(_: P, _: c_int) {
    FAILED.with(|f| f.set(true));
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
    Unsat,
    Sat(Vec<(u32, u64)>),
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    memo: Vec<P>,
    uses: u32,
    timeout_ms: u32,
    pub var_width: Vec<u32>,
}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
        }
    }
}
impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(note));
            let mut z = Z3 { c, s: std::ptr::null_mut(), memo: vec![], uses: 0, timeout_ms, var_width: vec![] };
            z.new_solver();
            z
        }
    }
    unsafe fn new_solver(&mut self) {
        let s = Z3_mk_simple_solver(self.c);
        Z3_solver_inc_ref(self.c, s);
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.timeout_ms);
        Z3_solver_set_params(self.c, s, p);
        self.s = s;
    }
    fn sort(&self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w) }
    }
    /// width-1 expressions become Bool, others bit-vectors
    fn tr(&mut self, ar: &Arena, e: Eid) -> P {
        if self.memo.len() <= e as usize {
            self.memo.resize(ar.nodes.len().max(e as usize + 1), std::ptr::null_mut());
        }
        let m = self.memo[e as usize];
        if !m.is_null() {
            return m;
        }
        let w = ar.w(e);
        let c = self.c;
        let n = ar.nodes[e as usize].clone();
        let r = unsafe {
            macro_rules! t {
                ($x:expr) => {
                    self.tr(ar, $x)
                };
            }
            if w == 1 {
                match n {
                    E::Const(v) => {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    }
                    E::Var(i) => Z3_mk_const(c, Z3_mk_int_symbol(c, (i * 129 + 1) as c_int), Z3_mk_bv_sort(c, 1)).then_eq1(c),
                    E::Ext(a, lo) => {
                        let x = t!(a);
                        Z3_mk_extract(c, lo as c_uint, lo as c_uint, x).then_eq1(c)
                    }
                    E::Not(a) => Z3_mk_not(c, t!(a)),
                    E::And(a, b) => {
                        let v = [t!(a), t!(b)];
                        Z3_mk_and(c, 2, v.as_ptr())
                    }
                    E::Or(a, b) => {
                        let v = [t!(a), t!(b)];
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                    E::Xor(a, b) => Z3_mk_xor(c, t!(a), t!(b)),
                    E::Eq(a, b) => Z3_mk_eq(c, t!(a), t!(b)),
                    E::Ult(a, b) => Z3_mk_bvult(c, t!(a), t!(b)),
                    E::Slt(a, b) => Z3_mk_bvslt(c, t!(a), t!(b)),
                    E::Ite(p, a, b) => Z3_mk_ite(c, t!(p), t!(a), t!(b)),
                    other => panic!("width 1 expression {:?}", other),
                }
            } else {
                match n {
                    E::Const(v) => {
                        if w <= 64 {
                            Z3_mk_unsigned_int64(c, v as u64, self.sort(w))
                        } else {
                            let s = CString::new(v.to_string()).unwrap();
                            Z3_mk_numeral(c, s.as_ptr(), self.sort(w))
                        }
                    }
                    E::Var(i) => Z3_mk_const(c, Z3_mk_int_symbol(c, (i * 129 + w) as c_int), self.sort(w)),
                    E::Ext(a, lo) => {
                        let x = t!(a);
                        Z3_mk_extract(c, lo as c_uint + w - 1, lo as c_uint, x)
                    }
                    E::Cat(ps) => {
                        let mut acc: P = std::ptr::null_mut();
                        for p in ps.iter() {
                            let x = self.tr_bv(ar, *p);
                            acc = if acc.is_null() { x } else { Z3_mk_concat(c, acc, x) };
                        }
                        acc
                    }
                    E::Not(a) => Z3_mk_bvnot(c, t!(a)),
                    E::And(a, b) => Z3_mk_bvand(c, t!(a), t!(b)),
                    E::Or(a, b) => Z3_mk_bvor(c, t!(a), t!(b)),
                    E::Xor(a, b) => Z3_mk_bvxor(c, t!(a), t!(b)),
                    E::Add(a, b) => Z3_mk_bvadd(c, t!(a), t!(b)),
                    E::Sub(a, b) => Z3_mk_bvsub(c, t!(a), t!(b)),
                    E::Mul(a, b) => Z3_mk_bvmul(c, t!(a), t!(b)),
                    E::UDiv(a, b) => Z3_mk_bvudiv(c, t!(a), t!(b)),
                    E::URem(a, b) => Z3_mk_bvurem(c, t!(a), t!(b)),
                    E::SDiv(a, b) => Z3_mk_bvsdiv(c, t!(a), t!(b)),
                    E::SRem(a, b) => Z3_mk_bvsrem(c, t!(a), t!(b)),
                    E::Shl(a, b) => Z3_mk_bvshl(c, t!(a), t!(b)),
                    E::LShr(a, b) => Z3_mk_bvlshr(c, t!(a), t!(b)),
                    E::AShr(a, b) => Z3_mk_bvashr(c, t!(a), t!(b)),
                    E::Ite(p, a, b) => Z3_mk_ite(c, t!(p), t!(a), t!(b)),
                    other => panic!("wide expression {:?}", other),
                }
            }
        };
        self.memo[e as usize] = r;
        r
    }
    fn tr_bv(&mut self, ar: &Arena, e: Eid) -> P {
        let x = self.tr(ar, e);
        if ar.w(e) == 1 {
            unsafe {
                let s = self.sort(1);
                let one = Z3_mk_unsigned_int64(self.c, 1, s);
                let zero = Z3_mk_unsigned_int64(self.c, 0, s);
                Z3_mk_ite(self.c, x, one, zero)
            }
        } else {
            x
        }
    }
    /// satisfiability of a conjunction; the model covers the variables of the support
    pub fn check(&mut self, ar: &Arena, cs: &[Eid], widths: &[u32]) -> Res {
        unsafe {
            self.uses += 1;
            if self.uses % 1000 == 0 {
                Z3_solver_dec_ref(self.c, self.s);
                self.new_solver();
            }
            Z3_solver_push(self.c, self.s);
            let mut sup: Sup = [0; 4];
            for &e in cs {
                let x = self.tr(ar, e);
                Z3_solver_assert(self.c, self.s, x);
                sup = sup_union(&sup, &ar.sup[e as usize]);
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = if FAILED.with(|f| f.replace(false)) {
                Res::Unknown
            } else if r == -1 {
                Res::Unsat
            } else if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut v = vec![];
                let mut ok = true;
                for i in 0..MAX_VARS as u32 {
                    if sup[(i / 64) as usize] >> (i % 64) & 1 == 1 {
                        let w = widths[i as usize];
                        let t = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, (i * 129 + w) as c_int), self.sort(w));
                        let mut o: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(self.c, m, t, true, &mut o) && Z3_get_numeral_uint64(self.c, o, &mut val) {
                            v.push((i, val));
                        } else {
                            ok = false;
                        }
                    }
                }
                Z3_model_dec_ref(self.c, m);
                if ok {
                    Res::Sat(v)
                } else {
                    Res::Unknown
                }
            } else {
                Res::Unknown
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        }
    }
}
trait ThenEq1 {
    unsafe fn then_eq1(self, c: P) -> P;
}
impl ThenEq1 for P {
    unsafe fn then_eq1(self, c: P) -> P {
        let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
        Z3_mk_eq(c, self, one)
    }
}
