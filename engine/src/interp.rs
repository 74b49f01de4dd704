//! Memory and instructions.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::keccak::keccak256;
use std::sync::Arc;

impl Exec {
    // ---------------- memory ----------------
    pub(crate) fn alloc(&mut self, n: u64) -> X<u64> {
        if n > 1 << 28 {
            return inc(format!("allocation of {} bytes", n));
        }
        let id = HEAP0 + self.heap.len() as u64;
        self.heap.push(Obj { data: vec![0; n as usize], sym: None, live: true });
        Ok(id << 32)
    }
    fn alloca(&mut self, n: u64) -> u64 {
        let id = STACK0 + self.thread as u64 * THREAD_STACK + self.stack_top as u64;
        if self.stack_top < self.stack.len() {
            let o = &mut self.stack[self.stack_top];
            o.data.clear();
            o.data.resize(n as usize, 0);
            o.sym = None;
        } else {
            self.stack.push(Obj { data: vec![0; n as usize], sym: None, live: true });
        }
        self.stack_top += 1;
        id << 32
    }
    fn obj(&mut self, addr: u64, n: u64, write: bool) -> X<(&mut Obj, usize)> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        let bad = if id >= STACK0 {
            let (t, i) = ((id - STACK0) / THREAD_STACK, ((id - STACK0) % THREAD_STACK) as usize);
            if t as usize == self.thread {
                i >= self.stack_top || off + n as usize > self.stack[i].data.len()
            } else {
                match self.threads.get(t as usize) {
                    Some(t) => i >= t.stack_top || off + n as usize > t.stack[i].data.len(),
                    None => true,
                }
            }
        } else if id >= HEAP0 {
            let i = (id - HEAP0) as usize;
            i >= self.heap.len() || !self.heap[i].live || off + n as usize > self.heap[i].data.len()
        } else if id == RW {
            off < 16 || off + n as usize > self.rw.data.len()
        } else if id == RO {
            off < 16 || write || off + n as usize > self.ro.data.len()
        } else {
            true
        };
        if bad {
            return self.violation(&format!("invalid memory {} of {} bytes at {:#x}", if write { "write" } else { "read" }, n, addr), None);
        }
        Ok((
            if id >= STACK0 {
                let (t, i) = (((id - STACK0) / THREAD_STACK) as usize, ((id - STACK0) % THREAD_STACK) as usize);
                if t == self.thread {
                    &mut self.stack[i]
                } else {
                    &mut self.threads[t].stack[i]
                }
            } else if id >= HEAP0 {
                &mut self.heap[(id - HEAP0) as usize]
            } else if id == RW {
                &mut self.rw
            } else {
                &mut self.ro
            },
            off,
        ))
    }
    /// integer of w bits
    fn load_int(&mut self, addr: u64, w: u32) -> X<Val> {
        let nb = ((w + 7) / 8) as usize;
        let (o, off) = self.obj(addr, nb as u64, false)?;
        let mut b = [0u8; 16];
        b[..nb].copy_from_slice(&o.data[off..off + nb]);
        let symbolic = match &o.sym {
            None => None,
            Some(s) => {
                if s[off..off + nb].iter().all(|x| x.0 == u32::MAX) {
                    None
                } else {
                    let mut v = [NOSYM; 16];
                    v[..nb].copy_from_slice(&s[off..off + nb]);
                    Some(v)
                }
            }
        };
        let c = u128::from_le_bytes(b) & mask(w);
        match symbolic {
            None => Ok(Self::kv(c, w)),
            Some(s) => {
                let e0 = s[0].0;
                if e0 != u32::MAX && self.ar.w(e0) == w && (0..nb).all(|i| s[i] == (e0, i as u8)) {
                    return Ok(self.norm(Val::S(e0)));
                }
                let mut parts = vec![];
                let mut i = nb;
                while i > 0 {
                    // run ending at i-1, going down
                    let (e, k) = s[i - 1];
                    let mut j = i - 1;
                    if e == u32::MAX {
                        while j > 0 && s[j - 1].0 == u32::MAX {
                            j -= 1;
                        }
                        let mut x = 0u128;
                        for t in (j..i).rev() {
                            x = x << 8 | b[t] as u128;
                        }
                        parts.push(self.ar.konst(x, 8 * (i - j) as u32));
                    } else {
                        let mut kk = k;
                        while j > 0 && kk > 0 && s[j - 1] == (e, kk - 1) {
                            j -= 1;
                            kk -= 1;
                        }
                        parts.push(self.ar.ext(e, 8 * kk as u32, 8 * (i - j) as u32));
                    }
                    i = j;
                }
                let e = self.ar.cat(&parts);
                let e = self.ar.ext(e, 0, w);
                Ok(self.mk(e))
            }
        }
    }
    fn store_int(&mut self, addr: u64, v: &Val, w: u32) -> X<()> {
        let nb = ((w + 7) / 8) as usize;
        let v = self.norm(v.clone());
        match &v {
            Val::C(_) | Val::W(_) => {
                let c = self.cu(&v).unwrap() & mask(w);
                let (o, off) = self.obj(addr, nb as u64, true)?;
                o.data[off..off + nb].copy_from_slice(&c.to_le_bytes()[..nb]);
                if let Some(s) = &mut o.sym {
                    for x in &mut s[off..off + nb] {
                        *x = NOSYM;
                    }
                }
            }
            Val::S(e) => {
                let e = self.ar.zext(*e, 8 * nb as u32);
                let (o, off) = self.obj(addr, nb as u64, true)?;
                if o.sym.is_none() {
                    o.sym = Some(vec![NOSYM; o.data.len()]);
                }
                let s = o.sym.as_mut().unwrap();
                for i in 0..nb {
                    s[off + i] = (e, i as u8);
                }
            }
            Val::A(_) => return inc("store of aggregate as scalar"),
        }
        Ok(())
    }
    fn load_ty(&mut self, addr: u64, t: TyId) -> X<Val> {
        match &self.m.types[t as usize] {
            Ty::Int(w) => self.load_int(addr, *w),
            Ty::Ptr | Ty::F64 => self.load_int(addr, 64),
            Ty::F32 => self.load_int(addr, 32),
            Ty::Arr(n, e) => {
                let s = self.m.ty_size[*e as usize];
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(addr + i * s, *e)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            Ty::Vec(n, e) => {
                let s = self.m.ty_size[*e as usize];
                if let Ty::Int(w) = self.m.types[*e as usize] {
                    if w % 8 != 0 {
                        return inc("load of bit vector");
                    }
                }
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(self.load_ty(addr + i * s, *e)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            Ty::St(fs, _) => {
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    let o = struct_offset(&self.m.types, &self.m.ty_size, t, i);
                    v.push(self.load_ty(addr + o, *f)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            _ => inc("load type"),
        }
    }
    fn store_ty(&mut self, addr: u64, v: &Val, t: TyId) -> X<()> {
        match &self.m.types[t as usize] {
            Ty::Int(w) => self.store_int(addr, v, *w),
            Ty::Ptr | Ty::F64 => self.store_int(addr, v, 64),
            Ty::F32 => self.store_int(addr, v, 32),
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let s = self.m.ty_size[*e as usize];
                if let Val::A(xs) = v {
                    for (i, x) in xs.iter().enumerate() {
                        self.store_ty(addr + i as u64 * s, x, *e)?;
                    }
                    Ok(())
                } else {
                    inc("store shape")
                }
            }
            Ty::St(fs, _) => {
                if let Val::A(xs) = v {
                    for (i, f) in fs.iter().enumerate() {
                        let o = struct_offset(&self.m.types, &self.m.ty_size, t, i);
                        self.store_ty(addr + o, &xs[i], *f)?;
                    }
                    Ok(())
                } else {
                    inc("store shape")
                }
            }
            _ => inc("store type"),
        }
    }
    fn copy(&mut self, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj(src, n, false)?;
        let n = n as usize;
        // small copies avoid the heap
        let mut buf = [0u8; 256];
        let big;
        let data: &[u8] = if n <= 256 {
            buf[..n].copy_from_slice(&o.data[off..off + n]);
            &buf[..n]
        } else {
            big = o.data[off..off + n].to_vec();
            &big
        };
        let sym: Option<Vec<(Eid, u8)>> = match &o.sym {
            Some(s) if s[off..off + n].iter().any(|x| x.0 != u32::MAX) => Some(s[off..off + n].to_vec()),
            _ => None,
        };
        let (o, off) = self.obj(dst, n as u64, true)?;
        o.data[off..off + n].copy_from_slice(data);
        match sym {
            None => {
                if let Some(s) = &mut o.sym {
                    for x in &mut s[off..off + n] {
                        *x = NOSYM;
                    }
                }
            }
            Some(v) => {
                if o.sym.is_none() {
                    o.sym = Some(vec![NOSYM; o.data.len()]);
                }
                o.sym.as_mut().unwrap()[off..off + n].copy_from_slice(&v);
            }
        }
        Ok(())
    }
    fn byte(&mut self, addr: u64) -> X<Val> {
        self.load_int(addr, 8)
    }
    /// address operand: concrete, forked over feasible values, or (for reads of constant tables) resolved to an ITE by the caller
    fn addr(&mut self, v: &Val) -> X<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => Ok(self.concretize(*e)? as u64),
            _ => inc("address"),
        }
    }
    /// read through a symbolic pointer into constant data without forking, if its range is small
    fn table_read(&mut self, p: Eid, w: u32) -> X<Option<Val>> {
        if w > 64 || self.is_fixed(p) {
            return Ok(None);
        }
        let (lo, hi) = (self.ar.umin(p, 6) as u64, self.ar.umax(p, 6) as u64);
        let nb = ((w + 7) / 8) as u64;
        if lo >> 32 != RO || hi >> 32 != RO || hi - lo > 16 * 64 || (hi & 0xffff_ffff) + nb > self.ro.data.len() as u64 {
            return Ok(None);
        }
        // stride from known-constant low bits of the pointer
        let mut cands = vec![];
        let mut a = lo;
        let step = {
            // smallest power of two that divides every feasible difference, judged from the concatenation's low part
            let mut s = 1u64;
            let mut k = 0;
            while k < 4 {
                let low = self.ar.ext(p, 0, k + 1);
                match self.ar.as_const(low) {
                    Some(c) if c as u64 == lo & ((1 << (k + 1)) - 1) => {
                        s <<= 1;
                        k += 1
                    }
                    _ => break,
                }
            }
            s
        };
        while a <= hi {
            cands.push(a);
            a += step;
        }
        if cands.len() > 128 {
            return Ok(None);
        }
        let mut r: Option<Eid> = None;
        for &a in cands.iter().rev() {
            let v = self.load_int(a, w)?;
            let e = self.ev(&v, w);
            r = Some(match r {
                None => e,
                Some(rest) => {
                    let k = self.ar.konst(a as u128, 64);
                    let c = self.ar.eq(p, k);
                    self.ar.ite(c, e, rest)
                }
            });
        }
        Ok(r.map(|e| self.mk(e)))
    }

    // ---------------- scalar operations ----------------
    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = mask(w) as u64;
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::AShr => (sext128(x as u128, w) >> y.min(w as u64 - 1)) as u64,
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                        if y == 0 {
                            return self.violation("division by zero", None);
                        }
                        match op {
                            BinOp::UDiv => x / y,
                            BinOp::URem => x % y,
                            BinOp::SDiv => sext128(x as u128, w).wrapping_div(sext128(y as u128, w)) as u64,
                            _ => sext128(x as u128, w).wrapping_rem(sext128(y as u128, w)) as u64,
                        }
                    }
                };
                return Ok(Val::C(r & m));
            }
        }
        let (a, b) = (self.norm(a.clone()), self.norm(b.clone()));
        let (x, mut y) = (self.ev(&a, w), self.ev(&b, w));
        // one case per amount to shift by
        if matches!(op, BinOp::Shl | BinOp::LShr | BinOp::AShr) && w <= 64 && self.ar.as_const(y).is_none() {
            let k = self.concretize(y)?;
            y = self.ar.konst(k, w);
        }
        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
            let z = self.ar.konst(0, w);
            let c = self.ar.eq(y, z);
            if self.branch(c)? {
                return self.violation("division by zero", None);
            }
        }
        let ar = &mut self.ar;
        let r = match op {
            BinOp::Add => ar.add(x, y),
            BinOp::Sub => ar.sub(x, y),
            BinOp::Mul => ar.mul(x, y),
            BinOp::And => ar.and(x, y),
            BinOp::Or => ar.or(x, y),
            BinOp::Xor => ar.xor(x, y),
            BinOp::Shl => ar.shl(x, y),
            BinOp::LShr => ar.lshr(x, y),
            BinOp::AShr => ar.ashr(x, y),
            BinOp::UDiv => ar.udiv(x, y),
            BinOp::URem => ar.urem(x, y),
            BinOp::SDiv => match (ar.as_const(x), ar.as_const(y)) {
                (Some(p), Some(q)) => ar.konst(sext128(p, w).wrapping_div(sext128(q, w)) as u128, w),
                _ => ar.sdiv(x, y),
            },
            BinOp::SRem => match (ar.as_const(x), ar.as_const(y)) {
                (Some(p), Some(q)) => ar.konst(sext128(p, w).wrapping_rem(sext128(q, w)) as u128, w),
                _ => ar.srem(x, y),
            },
        };
        Ok(self.mk(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| sext128(v as u128, w) as i64;
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
            };
            return Ok(Val::C(r as u64));
        }
        let (a, b) = (self.norm(a.clone()), self.norm(b.clone()));
        let (x, y) = (self.ev(&a, w), self.ev(&b, w));
        let e = self.pred(p, x, y);
        Ok(self.mk(e))
    }
    fn pred(&mut self, p: Pred, x: Eid, y: Eid) -> Eid {
        let ar = &mut self.ar;
        match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => {
                let e = ar.eq(x, y);
                ar.not(e)
            }
            Pred::Ult => ar.ult(x, y),
            Pred::Ugt => ar.ult(y, x),
            Pred::Ule => {
                let e = ar.ult(y, x);
                ar.not(e)
            }
            Pred::Uge => {
                let e = ar.ult(x, y);
                ar.not(e)
            }
            Pred::Slt => ar.slt(x, y),
            Pred::Sgt => ar.slt(y, x),
            Pred::Sle => {
                let e = ar.slt(y, x);
                ar.not(e)
            }
            Pred::Sge => {
                let e = ar.slt(x, y);
                ar.not(e)
            }
        }
    }
    fn cast(&mut self, op: CastOp, w1: u32, w2: u32, a: &Val) -> X<Val> {
        match op {
            CastOp::Same => return Ok(a.clone()),
            CastOp::Trunc | CastOp::Zext | CastOp::Sext => {
                if let Some(c) = self.cu(a) {
                    let r = match op {
                        CastOp::Sext => sext128(c, w1) as u128 & mask(w2),
                        _ => c & mask(w2),
                    };
                    return Ok(Self::kv(r, w2));
                }
                let a = self.norm(a.clone());
                let x = self.ev(&a, w1);
                let e = match op {
                    CastOp::Trunc => self.ar.ext(x, 0, w2),
                    CastOp::Zext => self.ar.zext(x, w2),
                    _ => self.ar.sext(x, w2),
                };
                return Ok(self.mk(e));
            }
            _ => {}
        }
        let c = self.conc(a)?;
        let f = |b: u64, w: u32| if w == 64 { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 };
        let r = match op {
            CastOp::UiToFp => {
                if w2 == 64 {
                    (c as f64).to_bits()
                } else {
                    (c as f32).to_bits() as u64
                }
            }
            CastOp::SiToFp => {
                let s = sext128(c as u128, w1) as i64;
                if w2 == 64 {
                    (s as f64).to_bits()
                } else {
                    (s as f32).to_bits() as u64
                }
            }
            CastOp::FpToUi => f(c, w1) as u64 & mask(w2) as u64,
            CastOp::FpToSi => (f(c, w1) as i64 as u64) & mask(w2) as u64,
            CastOp::FpExt => f(c, w1).to_bits(),
            CastOp::FpTrunc => (f(c, w1) as f32).to_bits() as u64,
            _ => unreachable!(),
        };
        Ok(Val::C(r))
    }
    fn elems(v: &Val) -> X<Arc<Vec<Val>>> {
        match v {
            Val::A(x) => Ok(x.clone()),
            _ => inc("vector expected"),
        }
    }
    fn bits_of(&mut self, v: &Val, t: TyId) -> X<Eid> {
        match &self.m.types[t as usize] {
            Ty::Vec(_, e) => {
                let ew = match self.m.types[*e as usize] {
                    Ty::Int(w) => w,
                    Ty::F32 => 32,
                    _ => 64,
                };
                let xs = Self::elems(v)?;
                let parts: Vec<Eid> = xs.iter().rev().map(|x| self.ev(x, ew)).collect();
                Ok(self.ar.cat(&parts))
            }
            Ty::Int(w) => Ok(self.ev(v, *w)),
            Ty::F32 => Ok(self.ev(v, 32)),
            _ => Ok(self.ev(v, 64)),
        }
    }

    // ---------------- main loop ----------------
    fn push_frame(&mut self, f: u32, dst: Option<u32>, after: Option<u32>) -> X<()> {
        if self.frames.len() > self.cfg.max_depth {
            return Err(Stop::Limit(format!("recursion depth {} at {}", self.frames.len(), self.where_())));
        }
        let base = self.regs.len();
        let n = self.m.funcs[f as usize].nregs as usize;
        self.regs.resize(base + n, Val::C(0));
        self.frames.push(Frame { f, ip: 0, base: base as u32, stk: self.stack_top as u32, dst, after });
        self.base = base;
        self.visited[f as usize][0] = true;
        Ok(())
    }
    fn set(&mut self, d: u32, v: Val) {
        let b = self.base;
        self.regs[b + d as usize] = v;
    }
    fn take_edge(&mut self, fi: u32, e: u32) -> u32 {
        let ed = &self.m.funcs[fi as usize].edges[e as usize];
        let n = ed.copies.len();
        if n == 1 {
            let (d, o) = ed.copies[0];
            let v = self.get(o);
            self.set(d, v);
        } else if n > 1 {
            let mut tmp: Vec<Val> = std::mem::take(&mut self.tmp);
            tmp.clear();
            for (_, o) in ed.copies.iter() {
                tmp.push(self.get(*o));
            }
            for ((d, _), v) in ed.copies.iter().zip(tmp.drain(..)) {
                let b = self.base;
                self.regs[b + *d as usize] = v;
            }
            self.tmp = tmp;
        }
        self.visited[fi as usize][ed.block as usize] = true;
        ed.ip
    }
    fn panicked<T>(&mut self, what: &str) -> X<T> {
        if self.expect_panic {
            return Err(Stop::ExpectedPanic);
        }
        self.violation(&format!("panic in {}", what), None)
    }
    // ---------------- threads ----------------
    /// exchanges the running thread for another
    pub(crate) fn switch(&mut self, to: usize) {
        for i in [self.thread, to] {
            let t = &mut self.threads[i];
            std::mem::swap(&mut t.regs, &mut self.regs);
            std::mem::swap(&mut t.base, &mut self.base);
            std::mem::swap(&mut t.frames, &mut self.frames);
            std::mem::swap(&mut t.stack, &mut self.stack);
            std::mem::swap(&mut t.stack_top, &mut self.stack_top);
        }
        self.thread = to;
    }
    /// two threads, run with at most so many switches that are not forced
    fn parallel(&mut self, fs: [(u64, Val); 2], preemptions: u64) -> X<()> {
        if !self.threads.is_empty() {
            return inc("threads within threads");
        }
        self.threads.push(Thread::default());
        for (a, arg) in fs {
            if a >> 32 != FNS {
                return inc("thread function");
            }
            let f = ((a & 0xffff_ffff) / 16 - 1) as u32;
            let tf = &self.m.funcs[f as usize];
            let mut regs = vec![Val::C(0); tf.nregs as usize];
            regs[tf.params[0] as usize] = arg;
            self.visited[f as usize][0] = true;
            self.threads.push(Thread { regs, frames: vec![Frame { f, ip: 0, base: 0, stk: 0, dst: None, after: None }], ..Default::default() });
        }
        self.preemptions = preemptions;
        let v = self.choice(2)?;
        self.inputs.push(Inp::Choice(v));
        self.switch_to = Some(1 + v as usize);
        Ok(())
    }
    /// the running thread may be interrupted here
    fn may_switch(&mut self) -> X<()> {
        if self.thread == 0 || self.preemptions == 0 || self.threads[3 - self.thread].done {
            return Ok(());
        }
        let v = self.choice(2)?;
        self.inputs.push(Inp::Choice(v));
        if v == 1 {
            self.preemptions -= 1;
            self.switch_to = Some(3 - self.thread);
        }
        Ok(())
    }
    /// the running thread can not go on until another has done something
    fn block(&mut self) -> X<()> {
        if self.thread == 0 || self.threads[3 - self.thread].done || self.threads[3 - self.thread].waiting {
            return self.violation("deadlock", None);
        }
        let t = self.thread;
        self.threads[t].waiting = true;
        self.switch_to = Some(3 - t);
        Ok(())
    }
    fn wake(&mut self) {
        for t in &mut self.threads {
            t.waiting = false;
        }
    }
    /// the running thread has come to its end
    fn thread_ended(&mut self) -> X<usize> {
        let (t, o) = (self.thread, 3 - self.thread);
        self.threads[t].done = true;
        self.wake();
        Ok(if self.threads[o].done { 0 } else { o })
    }

    pub(crate) fn go(&mut self) -> X<()> {
        let m = self.m;
        self.push_frame(self.cfg.entry, None, None)?;
        let mut fi = self.cfg.entry;
        let mut func = &m.funcs[fi as usize];
        let mut ip = 0usize;
        let maxi = self.cfg.max_insts;
        loop {
            self.ninst += 1;
            if self.ninst & 0xfffff == 0 && std::time::Instant::now() > self.cfg.deadline {
                return Err(Stop::Deadline);
            }
            if self.ninst > maxi {
                self.frames.last_mut().unwrap().ip = ip as u32;
                return Err(Stop::Limit(format!("{} instructions at {}", maxi, self.where_())));
            }
            let ins = &func.insts[ip];
            ip += 1;
            match ins {
                I::Bin(op, w, d, a, b) => {
                    let (x, y) = (self.get(*a), self.get(*b));
                    self.frames.last_mut().unwrap().ip = ip as u32;
                    let r = self.bin(*op, *w as u32, &x, &y)?;
                    self.set(*d, r);
                }
                I::ICmp(p, w, d, a, b) => {
                    let (x, y) = (self.get(*a), self.get(*b));
                    let r = self.icmp(*p, *w as u32, &x, &y)?;
                    self.set(*d, r);
                }
                I::Cast(op, w1, w2, d, a) => {
                    let x = self.get(*a);
                    let r = self.cast(*op, *w1 as u32, *w2 as u32, &x)?;
                    self.set(*d, r);
                }
                I::Load(d, p, t, w) => {
                    self.frames.last_mut().unwrap().ip = ip as u32;
                    let pv = self.get(*p);
                    if let Val::S(e) = pv {
                        if *w != 0 {
                            if let Some(v) = self.table_read(e, *w as u32)? {
                                self.set(*d, v);
                                continue;
                            }
                        }
                    }
                    let a = self.addr(&pv)?;
                    let v = if *w != 0 { self.load_int(a, *w as u32)? } else { self.load_ty(a, *t)? };
                    self.set(*d, v);
                }
                I::Store(v, p, t, w) => {
                    self.frames.last_mut().unwrap().ip = ip as u32;
                    let pv = self.get(*p);
                    let a = self.addr(&pv)?;
                    let x = self.get(*v);
                    if *w != 0 {
                        self.store_int(a, &x, *w as u32)?
                    } else {
                        self.store_ty(a, &x, *t)?
                    }
                }
                I::Gep(d, b, off, var) => {
                    let bv = self.get(*b);
                    let mut r = match bv {
                        Val::C(c) => Val::C(c.wrapping_add(*off as u64)),
                        _ => self.bin(BinOp::Add, 64, &bv, &Val::C(*off as u64))?,
                    };
                    for (o, scale, w) in var.iter() {
                        let iv = self.get(*o);
                        match (&r, &iv) {
                            (Val::C(x), Val::C(i)) => {
                                let i = sext128(*i as u128, *w as u32) as i64;
                                r = Val::C((*x as i64).wrapping_add(i.wrapping_mul(*scale)) as u64);
                            }
                            _ => {
                                let i64v = if *w == 64 { iv.clone() } else { self.cast(CastOp::Sext, *w as u32, 64, &iv)? };
                                let s = self.bin(BinOp::Mul, 64, &i64v, &Val::C(*scale as u64))?;
                                r = self.bin(BinOp::Add, 64, &r, &s)?;
                            }
                        }
                    }
                    self.set(*d, r);
                }
                I::Alloca(d, n) => {
                    let a = self.alloca(*n);
                    self.set(*d, Val::C(a));
                }
                I::Select(d, c, a, b, w) => {
                    let cv = self.get(*c);
                    let cv = self.norm(cv);
                    let r = match cv {
                        Val::C(c) => self.get(if c & 1 == 1 { *a } else { *b }),
                        Val::S(e) => {
                            let (x, y) = (self.get(*a), self.get(*b));
                            if *w != 0 {
                                let (x, y) = (self.ev(&x, *w as u32), self.ev(&y, *w as u32));
                                let r = self.ar.ite(e, x, y);
                                self.mk(r)
                            } else if self.branch(e)? {
                                x
                            } else {
                                y
                            }
                        }
                        _ => return inc("select condition"),
                    };
                    self.set(*d, r);
                }
                I::Br(e) => ip = self.take_edge(fi, *e) as usize,
                I::CondBr(c, a, b) => {
                    let cv = self.get(*c);
                    let t = match &cv {
                        Val::C(x) => x & 1 == 1,
                        _ => {
                            self.frames.last_mut().unwrap().ip = ip as u32;
                            self.cond(&cv)?
                        }
                    };
                    ip = self.take_edge(fi, if t { *a } else { *b }) as usize;
                }
                I::Switch(w, x, dflt, cases) => {
                    let xv = self.get(*x);
                    let xv = self.norm(xv);
                    let mut tgt = *dflt;
                    match self.cu(&xv) {
                        Some(c) => {
                            for (k, e) in cases.iter() {
                                if *k == c {
                                    tgt = *e;
                                    break;
                                }
                            }
                        }
                        None => {
                            let e = self.ev(&xv, *w as u32);
                            for (k, ed) in cases.iter() {
                                let kk = self.ar.konst(*k, *w as u32);
                                let c = self.ar.eq(e, kk);
                                if self.branch(c)? {
                                    tgt = *ed;
                                    break;
                                }
                            }
                        }
                    }
                    ip = self.take_edge(fi, tgt) as usize;
                }
                I::Call(c) => {
                    self.frames.last_mut().unwrap().ip = ip as u32;
                    let mut target = None;
                    match &c.callee {
                        Callee::Fn(f) => target = Some(*f),
                        Callee::Ext(x) => {
                            let k = self.exts[*x as usize];
                            let r = self.call_ext(k, *x, c)?;
                            if let Some(d) = c.dst {
                                self.set(d, r);
                            }
                        }
                        Callee::Ind(o) => {
                            let v = self.get(*o);
                            let a = self.conc(&v)?;
                            if a >> 32 == FNS && a & 15 == 0 && (a & 0xffff_ffff) >= 16 {
                                target = Some(((a & 0xffff_ffff) / 16 - 1) as u32);
                            } else if a >> 32 == EXTS {
                                let x = ((a & 0xffff_ffff) / 16) as u32;
                                let k = self.exts[x as usize];
                                let r = self.call_ext(k, x, c)?;
                                if let Some(d) = c.dst {
                                    self.set(d, r);
                                }
                            } else {
                                return self.violation("call through a bad function pointer", None);
                            }
                        }
                    }
                    match target {
                        Some(f) => {
                            let tf = &m.funcs[f as usize];
                            if tf.kind == FnKind::Panic {
                                return self.panicked(&tf.name);
                            }
                            if tf.params.len() != c.args.len() {
                                return inc(format!("argument count calling {}", tf.name));
                            }
                            let mut args = std::mem::take(&mut self.tmp);
                            args.clear();
                            for a in &c.args {
                                args.push(self.get(*a));
                            }
                            self.push_frame(f, c.dst, c.normal)?;
                            for (p, v) in tf.params.iter().zip(args.drain(..)) {
                                let b = self.base;
                                self.regs[b + *p as usize] = v;
                            }
                            self.tmp = args;
                            fi = f;
                            func = tf;
                            ip = 0;
                        }
                        None => {
                            if let Some(e) = c.normal {
                                ip = self.take_edge(fi, e) as usize;
                            }
                            if let Some(t) = self.switch_to.take() {
                                self.frames.last_mut().unwrap().ip = ip as u32;
                                self.switch(t);
                                let top = self.frames.last().unwrap();
                                fi = top.f;
                                ip = top.ip as usize;
                                func = &m.funcs[fi as usize];
                            }
                        }
                    }
                }
                I::Ret(v) => {
                    let rv = v.map(|o| self.get(o));
                    let fr = self.frames.pop().unwrap();
                    self.regs.truncate(fr.base as usize);
                    self.stack_top = fr.stk as usize;
                    if self.frames.is_empty() {
                        if self.thread == 0 {
                            return Ok(());
                        }
                        let t = self.thread_ended()?;
                        self.switch(t);
                        if t == 0 {
                            self.threads.clear();
                        }
                        let top = self.frames.last().unwrap();
                        fi = top.f;
                        ip = top.ip as usize;
                        func = &m.funcs[fi as usize];
                        continue;
                    }
                    let top = self.frames.last().unwrap();
                    self.base = top.base as usize;
                    fi = top.f;
                    ip = top.ip as usize;
                    func = &m.funcs[fi as usize];
                    if let (Some(d), Some(v)) = (fr.dst, rv) {
                        self.set(d, v);
                    }
                    if let Some(e) = fr.after {
                        ip = self.take_edge(fi, e) as usize;
                    }
                }
                I::Copy(d, a) => {
                    let v = self.get(*a);
                    self.set(*d, v);
                }
                I::Nop => {}
                I::ExtractVal(d, a, path) => {
                    let mut v = self.get(*a);
                    for i in path.iter() {
                        v = match v {
                            Val::A(xs) => xs[*i as usize].clone(),
                            _ => return inc("extractvalue"),
                        };
                    }
                    self.set(*d, v);
                }
                I::InsertVal(d, a, b, path) => {
                    let v = self.get(*a);
                    let x = self.get(*b);
                    fn ins(v: Val, x: Val, p: &[u32]) -> Val {
                        if p.is_empty() {
                            return x;
                        }
                        match v {
                            Val::A(mut xs) => {
                                let xm = Arc::make_mut(&mut xs);
                                let old = std::mem::replace(&mut xm[p[0] as usize], Val::C(0));
                                xm[p[0] as usize] = ins(old, x, &p[1..]);
                                Val::A(xs)
                            }
                            o => o,
                        }
                    }
                    let r = ins(v, x, path);
                    self.set(*d, r);
                }
                I::Rmw(op, w, d, p, v) => {
                    let pv = self.get(*p);
                    let a = self.addr(&pv)?;
                    let w = *w as u32;
                    let old = self.load_int(a, w)?;
                    let x = self.get(*v);
                    let new = match op {
                        Rmw::Xchg => x,
                        Rmw::Add => self.bin(BinOp::Add, w, &old, &x)?,
                        Rmw::Sub => self.bin(BinOp::Sub, w, &old, &x)?,
                        Rmw::And => self.bin(BinOp::And, w, &old, &x)?,
                        Rmw::Or => self.bin(BinOp::Or, w, &old, &x)?,
                        Rmw::Xor => self.bin(BinOp::Xor, w, &old, &x)?,
                        Rmw::Umax | Rmw::Umin => {
                            let (p, q) = (self.ev(&old, w), self.ev(&x, w));
                            let lt = self.ar.ult(p, q);
                            let r = if matches!(op, Rmw::Umin) { self.ar.ite(lt, p, q) } else { self.ar.ite(lt, q, p) };
                            self.mk(r)
                        }
                    };
                    self.store_int(a, &new, w)?;
                    self.set(*d, old);
                }
                I::CmpXchg(w, d, p, x, y) => {
                    let pv = self.get(*p);
                    let a = self.addr(&pv)?;
                    let w = *w as u32;
                    let old = self.load_int(a, w)?;
                    let xv = self.get(*x);
                    let c = self.icmp(Pred::Eq, w, &old, &xv)?;
                    let hit = self.cond(&c)?;
                    if hit {
                        let yv = self.get(*y);
                        self.store_int(a, &yv, w)?;
                    }
                    self.set(*d, Val::A(Arc::new(vec![old, Val::C(hit as u64)])));
                }
                I::Unreachable => {
                    self.frames.last_mut().unwrap().ip = ip as u32;
                    return self.violation("unreachable code reached", None);
                }
                I::FBin(k, dbl, d, a, b) => {
                    let (x, y) = (self.get(*a), self.get(*b));
                    let (x, y) = (self.conc(&x)?, self.conc(&y)?);
                    let r = if *dbl {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        match k {
                            0 => x + y,
                            1 => x - y,
                            2 => x * y,
                            3 => x / y,
                            _ => x % y,
                        }
                        .to_bits()
                    } else {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        match k {
                            0 => x + y,
                            1 => x - y,
                            2 => x * y,
                            3 => x / y,
                            _ => x % y,
                        }
                        .to_bits() as u64
                    };
                    self.set(*d, Val::C(r));
                }
                I::FNeg(dbl, d, a) => {
                    let x = self.get(*a);
                    let x = self.conc(&x)?;
                    self.set(*d, Val::C(if *dbl { x ^ (1 << 63) } else { x ^ (1 << 31) }));
                }
                I::FCmp(p, dbl, d, a, b) => {
                    let (x, y) = (self.get(*a), self.get(*b));
                    let (x, y) = (self.conc(&x)?, self.conc(&y)?);
                    let (x, y) = if *dbl { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p {
                        0 => x == y,
                        1 => x > y,
                        2 => x >= y,
                        3 => x < y,
                        4 => x <= y,
                        5 => !un && x != y,
                        6 => !un,
                        7 => un || x == y,
                        8 => un || x > y,
                        9 => un || x >= y,
                        10 => un || x < y,
                        11 => un || x <= y,
                        12 => x != y,
                        _ => un,
                    };
                    self.set(*d, Val::C(r as u64));
                }
                I::VBin(op, w, d, a, b) => {
                    let (x, y) = (Self::elems(&self.get(*a))?, Self::elems(&self.get(*b))?);
                    let mut r = vec![];
                    for (p, q) in x.iter().zip(y.iter()) {
                        r.push(self.bin(*op, *w as u32, p, q)?);
                    }
                    self.set(*d, Val::A(Arc::new(r)));
                }
                I::VICmp(pr, w, d, a, b) => {
                    let (x, y) = (Self::elems(&self.get(*a))?, Self::elems(&self.get(*b))?);
                    let mut r = vec![];
                    for (p, q) in x.iter().zip(y.iter()) {
                        r.push(self.icmp(*pr, *w as u32, p, q)?);
                    }
                    self.set(*d, Val::A(Arc::new(r)));
                }
                I::VCast(op, w1, w2, d, a) => {
                    let x = Self::elems(&self.get(*a))?;
                    let mut r = vec![];
                    for p in x.iter() {
                        r.push(self.cast(*op, *w1 as u32, *w2 as u32, p)?);
                    }
                    self.set(*d, Val::A(Arc::new(r)));
                }
                I::VSelect(d, c, a, b, w) => {
                    let cs = Self::elems(&self.get(*c))?;
                    let (x, y) = (Self::elems(&self.get(*a))?, Self::elems(&self.get(*b))?);
                    let mut r = vec![];
                    for i in 0..cs.len() {
                        r.push(match &cs[i] {
                            Val::C(v) => {
                                if v & 1 == 1 {
                                    x[i].clone()
                                } else {
                                    y[i].clone()
                                }
                            }
                            Val::S(e) => {
                                let (p, q) = (self.ev(&x[i], *w as u32), self.ev(&y[i], *w as u32));
                                let t = self.ar.ite(*e, p, q);
                                self.mk(t)
                            }
                            _ => return inc("vselect"),
                        });
                    }
                    self.set(*d, Val::A(Arc::new(r)));
                }
                I::BitcastV(d, a, t1, t2) => {
                    let v = self.get(*a);
                    let e = self.bits_of(&v, *t1)?;
                    let r = match &m.types[*t2 as usize] {
                        Ty::Vec(n, et) => {
                            let ew = match m.types[*et as usize] {
                                Ty::Int(w) => w,
                                Ty::F32 => 32,
                                _ => 64,
                            };
                            let mut r = vec![];
                            for i in 0..*n {
                                let x = self.ar.ext(e, i * ew, ew);
                                r.push(self.mk(x));
                            }
                            Val::A(Arc::new(r))
                        }
                        _ => self.mk(e),
                    };
                    self.set(*d, r);
                }
                I::ExtractElem(d, a, i) => {
                    let x = Self::elems(&self.get(*a))?;
                    let iv = self.get(*i);
                    let i = self.conc(&iv)? as usize;
                    self.set(*d, x[i].clone());
                }
                I::InsertElem(d, a, v, i) => {
                    let mut x = Self::elems(&self.get(*a))?;
                    let iv = self.get(*i);
                    let i = self.conc(&iv)? as usize;
                    let nv = self.get(*v);
                    Arc::make_mut(&mut x)[i] = nv;
                    self.set(*d, Val::A(x));
                }
                I::Shuffle(d, a, b, mk) => {
                    let (x, y) = (Self::elems(&self.get(*a))?, Self::elems(&self.get(*b))?);
                    let r = mk.iter().map(|i| if (*i as usize) < x.len() { x[*i as usize].clone() } else { y[*i as usize - x.len()].clone() }).collect();
                    self.set(*d, Val::A(Arc::new(r)));
                }
                I::Unsup(s) => {
                    self.frames.last_mut().unwrap().ip = ip as u32;
                    return inc(format!("unsupported instruction: {} [{}]", s, self.where_()));
                }
            }
        }
    }

    // ---------------- external functions ----------------
    fn call_ext(&mut self, k: Ext, idx: u32, c: &Call) -> X<Val> {
        let a: Vec<Val> = c.args.iter().map(|o| self.get(*o)).collect();
        let w = match c.argty.first().map(|t| &self.m.types[*t as usize]) {
            Some(Ty::Int(w)) => *w,
            _ => 64,
        };
        // intrinsics on vectors work element by element
        if matches!(
            k,
            Ext::Ctlz | Ext::Cttz | Ext::Ctpop | Ext::Bswap | Ext::Bitreverse | Ext::Abs | Ext::Umin | Ext::Umax | Ext::Smin | Ext::Smax | Ext::UsubSat | Ext::UaddSat | Ext::SsubSat | Ext::SaddSat | Ext::Fshl | Ext::Fshr
        ) {
            if let Some(Ty::Vec(n, t)) = c.argty.first().map(|t| &self.m.types[*t as usize]) {
                let w = match self.m.types[*t as usize] {
                    Ty::Int(w) => w,
                    _ => return inc("intrinsic on a vector"),
                };
                let mut out = vec![];
                for i in 0..*n as usize {
                    let mut b = vec![];
                    for x in &a {
                        b.push(match x {
                            Val::A(xs) => xs[i].clone(),
                            x => x.clone(),
                        });
                    }
                    out.push(self.ext_on(k, idx, c, b, w)?);
                }
                return Ok(Val::A(Arc::new(out)));
            }
        }
        self.ext_on(k, idx, c, a, w)
    }
    fn ext_on(&mut self, k: Ext, idx: u32, c: &Call, a: Vec<Val>, w: u32) -> X<Val> {
        let unit = Val::C(0);
        Ok(match k {
            Ext::Nop => unit,
            // the same "random" bytes on every path; the code may not depend on them
            Ext::Random => {
                let (d, n) = if a.len() == 3 { (self.conc(&a[0])?, self.conc(&a[1])?) } else { (self.conc(&a[1])?, self.conc(&a[2])?) };
                if a.len() != 3 && self.conc(&a[0])? != 318 {
                    return inc(format!("system call [{}]", self.where_()));
                }
                for i in 0..n {
                    self.store_int(d + i, &Val::C((i * 37 + 11) & 255), 8)?;
                }
                Val::C(n)
            }
            Ext::SsubSat | Ext::SaddSat => {
                if w > 64 {
                    return inc("wide saturating arithmetic");
                }
                let (x, y) = (self.ev(&a[0], w), self.ev(&a[1], w));
                let (xx, yy) = (self.ar.sext(x, w + 1), self.ar.sext(y, w + 1));
                let s = if k == Ext::SaddSat { self.ar.add(xx, yy) } else { self.ar.sub(xx, yy) };
                let (top, low) = (self.ar.konst(mask(w - 1), w + 1), self.ar.konst(mask(w + 1) & !mask(w - 1), w + 1));
                let (over, under) = (self.ar.slt(top, s), self.ar.slt(s, low));
                let r = self.ar.ite(over, top, s);
                let r = self.ar.ite(under, low, r);
                let r = self.ar.ext(r, 0, w);
                self.mk(r)
            }
            Ext::First => a[0].clone(),
            Ext::IsConstant => Val::C(0),
            Ext::Memcpy => {
                let n = self.conc(&a[2])?;
                if n > 0 {
                    let (d, s) = (self.conc(&a[0])?, self.conc(&a[1])?);
                    self.copy(d, s, n)?;
                }
                a[0].clone()
            }
            Ext::Memset => {
                let n = self.conc(&a[2])?;
                if n > 0 {
                    let d = self.conc(&a[0])?;
                    let v = self.norm(a[1].clone());
                    match v {
                        Val::C(b) => {
                            let (o, off) = self.obj(d, n, true)?;
                            for x in &mut o.data[off..off + n as usize] {
                                *x = b as u8;
                            }
                            if let Some(s) = &mut o.sym {
                                for x in &mut s[off..off + n as usize] {
                                    *x = NOSYM;
                                }
                            }
                        }
                        _ => {
                            for i in 0..n {
                                self.store_int(d + i, &v, 8)?;
                            }
                        }
                    }
                }
                a[0].clone()
            }
            Ext::Ctlz | Ext::Cttz => {
                let v = self.norm(a[0].clone());
                if let Some(x) = self.cu(&v) {
                    let r = if x == 0 {
                        w
                    } else if k == Ext::Ctlz {
                        x.leading_zeros() - (128 - w)
                    } else {
                        x.trailing_zeros()
                    };
                    return Ok(Self::kv(r as u128, w));
                }
                let e = self.ev(&v, w);
                let mut r = self.ar.konst(w as u128, w);
                for i in 0..w {
                    let bit = if k == Ext::Ctlz { i } else { w - 1 - i };
                    let b = self.ar.ext(e, bit, 1);
                    let kk = self.ar.konst((w - 1 - i) as u128, w);
                    r = self.ar.ite(b, kk, r);
                }
                self.mk(r)
            }
            Ext::Ctpop => {
                let v = self.norm(a[0].clone());
                if let Some(x) = self.cu(&v) {
                    return Ok(Self::kv(x.count_ones() as u128, w));
                }
                let e = self.ev(&v, w);
                let mut r = self.ar.konst(0, w);
                for i in 0..w {
                    let b = self.ar.ext(e, i, 1);
                    let b = self.ar.zext(b, w);
                    r = self.ar.add(r, b);
                }
                self.mk(r)
            }
            Ext::Bswap => {
                let e = self.ev(&a[0], w);
                let parts: Vec<Eid> = (0..w / 8).map(|i| self.ar.ext(e, 8 * i, 8)).collect();
                let r = self.ar.cat(&parts);
                self.mk(r)
            }
            Ext::Bitreverse => {
                let e = self.ev(&a[0], w);
                let parts: Vec<Eid> = (0..w).map(|i| self.ar.ext(e, i, 1)).collect();
                let r = self.ar.cat(&parts);
                self.mk(r)
            }
            Ext::Abs => {
                let e = self.ev(&a[0], w);
                let z = self.ar.konst(0, w);
                let n = self.ar.sub(z, e);
                let s = self.ar.slt(e, z);
                let r = self.ar.ite(s, n, e);
                self.mk(r)
            }
            Ext::Umin | Ext::Umax | Ext::Smin | Ext::Smax => {
                let (x, y) = (self.ev(&a[0], w), self.ev(&a[1], w));
                let lt = if matches!(k, Ext::Umin | Ext::Umax) { self.ar.ult(x, y) } else { self.ar.slt(x, y) };
                let r = if matches!(k, Ext::Umin | Ext::Smin) { self.ar.ite(lt, x, y) } else { self.ar.ite(lt, y, x) };
                self.mk(r)
            }
            Ext::UsubSat => {
                let (x, y) = (self.ev(&a[0], w), self.ev(&a[1], w));
                let lt = self.ar.ult(x, y);
                let s = self.ar.sub(x, y);
                let z = self.ar.konst(0, w);
                let r = self.ar.ite(lt, z, s);
                self.mk(r)
            }
            Ext::UaddSat => {
                let (x, y) = (self.ev(&a[0], w), self.ev(&a[1], w));
                let s = self.ar.add(x, y);
                let lt = self.ar.ult(s, x);
                let z = self.ar.konst(mask(w), w);
                let r = self.ar.ite(lt, z, s);
                self.mk(r)
            }
            Ext::Fshl | Ext::Fshr => {
                let (x, y) = (self.ev(&a[0], w), self.ev(&a[1], w));
                let n = (self.conc(&a[2])? % w as u64) as u32;
                let n = if k == Ext::Fshl { n } else { (w - n) % w };
                let r = if n == 0 {
                    if k == Ext::Fshl {
                        x
                    } else {
                        y
                    }
                } else {
                    let hi = self.ar.ext(x, 0, w - n);
                    let lo = self.ar.ext(y, w - n, n);
                    self.ar.cat(&[hi, lo])
                };
                self.mk(r)
            }
            Ext::AddO(s) | Ext::SubO(s) | Ext::MulO(s) => {
                let (x, y) = (self.norm(a[0].clone()), self.norm(a[1].clone()));
                if let (Val::C(p), Val::C(q)) = (&x, &y) {
                    let (p, q) = if s { (sext128(*p as u128, w), sext128(*q as u128, w)) } else { (*p as i128, *q as i128) };
                    let r = match k {
                        Ext::AddO(_) => p + q,
                        Ext::SubO(_) => p - q,
                        _ => {
                            if s {
                                p * q
                            } else {
                                let u = (p as u128) * (q as u128);
                                let o = u > mask(w);
                                return Ok(Val::A(Arc::new(vec![Val::C((u & mask(w)) as u64), Val::C(o as u64)])));
                            }
                        }
                    };
                    let t = r as u128 & mask(w);
                    let back = if s { sext128(t, w) } else { t as i128 };
                    return Ok(Val::A(Arc::new(vec![Val::C(t as u64), Val::C((back != r) as u64)])));
                }
                let (x, y) = (self.ev(&x, w), self.ev(&y, w));
                let (r, o) = match (k, s) {
                    (Ext::AddO(_), false) => {
                        let r = self.ar.add(x, y);
                        let full = mask(w);
                        let safe = matches!(self.ar.umax(x, 6).checked_add(self.ar.umax(y, 6)), Some(t) if t <= full);
                        let o = if safe { self.ar.f } else { self.ar.ult(r, x) };
                        (r, o)
                    }
                    (Ext::SubO(_), false) => {
                        let r = self.ar.sub(x, y);
                        let o = self.ar.ult(x, y);
                        (r, o)
                    }
                    (Ext::MulO(_), false) => {
                        let r = self.ar.mul(x, y);
                        let full = mask(w);
                        let safe = matches!(self.ar.umax(x, 6).checked_mul(self.ar.umax(y, 6)), Some(t) if t <= full);
                        let o = if safe {
                            self.ar.f
                        } else {
                            if w > 64 {
                                return inc("wide symbolic multiplication with overflow check");
                            }
                            let (xx, yy) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                            let p = self.ar.mul(xx, yy);
                            let h = self.ar.ext(p, w, w);
                            let z = self.ar.konst(0, w);
                            let e = self.ar.eq(h, z);
                            self.ar.not(e)
                        };
                        (r, o)
                    }
                    (_, true) => {
                        if w > 64 {
                            return inc("wide signed overflow");
                        }
                        let (xx, yy) = (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w));
                        let p = match k {
                            Ext::AddO(_) => self.ar.add(xx, yy),
                            Ext::SubO(_) => self.ar.sub(xx, yy),
                            _ => self.ar.mul(xx, yy),
                        };
                        let r = self.ar.ext(p, 0, w);
                        let b = self.ar.sext(r, 2 * w);
                        let e = self.ar.eq(p, b);
                        let o = self.ar.not(e);
                        (r, o)
                    }
                    _ => unreachable!(),
                };
                let (rv, ov) = (self.mk(r), self.mk(o));
                Val::A(Arc::new(vec![rv, ov]))
            }
            Ext::Ucmp | Ext::Scmp => {
                let rw = match self.m.types[c.retty as usize] {
                    Ty::Int(w) => w,
                    _ => 8,
                };
                let (x, y) = (self.ev(&a[0], w), self.ev(&a[1], w));
                let lt = if k == Ext::Ucmp { self.ar.ult(x, y) } else { self.ar.slt(x, y) };
                let eq = self.ar.eq(x, y);
                let (m1, z, p1) = (self.ar.konst(mask(rw), rw), self.ar.konst(0, rw), self.ar.konst(1, rw));
                let r = self.ar.ite(lt, m1, p1);
                let r = self.ar.ite(eq, z, r);
                self.mk(r)
            }
            Ext::LoadRelative => {
                let p = self.conc(&a[0])?;
                let off = match &a[1] {
                    Val::S(e) => self.concretize(*e)? as u64,
                    v => self.conc(v)?,
                };
                let v = self.load_int(p.wrapping_add(off), 32)?;
                let v = self.conc(&v)?;
                Val::C(p.wrapping_add(sext128(v as u128, 32) as u64))
            }
            Ext::Trap => return self.panicked("abort"),
            Ext::ReduceMin(signed, max) => {
                let xs = Self::elems(&a[0])?;
                let w = match self.m.types[c.retty as usize] {
                    Ty::Int(w) => w,
                    _ => return inc("reduce"),
                };
                let mut r = self.ev(&xs[0], w);
                for x in xs.iter().skip(1) {
                    let x = self.ev(x, w);
                    let lt = if signed { self.ar.slt(x, r) } else { self.ar.ult(x, r) };
                    r = if max { self.ar.ite(lt, r, x) } else { self.ar.ite(lt, x, r) };
                }
                self.mk(r)
            }
            Ext::ReduceOr | Ext::ReduceAnd | Ext::ReduceAdd | Ext::ReduceXor | Ext::ReduceMul => {
                let xs = Self::elems(&a[0])?;
                let w = match self.m.types[c.retty as usize] {
                    Ty::Int(w) => w,
                    _ => return inc("reduce"),
                };
                let op = match k {
                    Ext::ReduceOr => BinOp::Or,
                    Ext::ReduceAnd => BinOp::And,
                    Ext::ReduceXor => BinOp::Xor,
                    Ext::ReduceMul => BinOp::Mul,
                    _ => BinOp::Add,
                };
                let mut r = xs[0].clone();
                for x in xs.iter().skip(1) {
                    r = self.bin(op, w, &r, x)?;
                }
                r
            }
            Ext::Malloc => {
                let n = self.conc(&a[0])?;
                Val::C(self.alloc(n)?)
            }
            Ext::Calloc => {
                let n = self.conc(&a[0])?.wrapping_mul(self.conc(&a[1])?);
                Val::C(self.alloc(n)?)
            }
            Ext::PosixMemalign => {
                let n = self.conc(&a[2])?;
                let p = self.alloc(n)?;
                let d = self.conc(&a[0])?;
                self.store_int(d, &Val::C(p), 64)?;
                Val::C(0)
            }
            Ext::Realloc => {
                let old = self.conc(&a[0])?;
                let n = self.conc(&a[1])?;
                let p = self.alloc(n)?;
                if old != 0 {
                    let have = {
                        let (o, _) = self.obj(old, 0, false)?;
                        o.data.len() as u64
                    };
                    self.copy(p, old, have.min(n))?;
                    self.free(old)?;
                }
                Val::C(p)
            }
            Ext::Free => {
                let p = self.conc(&a[0])?;
                self.free(p)?;
                unit
            }
            Ext::Bcmp | Ext::Memcmp => {
                let n = self.conc(&a[2])?;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let (p, q) = (self.conc(&a[0])?, self.conc(&a[1])?);
                let mut xs = vec![];
                let mut concrete = true;
                for i in 0..n {
                    let (x, y) = (self.byte(p + i)?, self.byte(q + i)?);
                    if let (Val::C(u), Val::C(v)) = (&x, &y) {
                        if concrete && u != v {
                            // everything before was concretely equal
                            return Ok(Val::C(if u < v { 0xffff_ffff } else { 1 }));
                        }
                        if u == v {
                            continue;
                        }
                        xs.push((x, y));
                        if k == Ext::Bcmp {
                            return Ok(Val::C(1));
                        }
                        break;
                    }
                    concrete = false;
                    xs.push((x, y));
                }
                if k == Ext::Bcmp {
                    let mut r = self.ar.t;
                    for (x, y) in &xs {
                        let (x, y) = (self.ev(x, 8), self.ev(y, 8));
                        let e = self.ar.eq(x, y);
                        r = self.ar.and(r, e);
                    }
                    let (z, o) = (self.ar.konst(0, 32), self.ar.konst(1, 32));
                    let r = self.ar.ite(r, z, o);
                    self.mk(r)
                } else {
                    let mut r = self.ar.konst(0, 32);
                    let (m1, p1) = (self.ar.konst(0xffff_ffff, 32), self.ar.konst(1, 32));
                    for (x, y) in xs.iter().rev() {
                        let (x, y) = (self.ev(x, 8), self.ev(y, 8));
                        let e = self.ar.eq(x, y);
                        let l = self.ar.ult(x, y);
                        let d = self.ar.ite(l, m1, p1);
                        r = self.ar.ite(e, r, d);
                    }
                    self.mk(r)
                }
            }
            Ext::Memchr => {
                let n = self.conc(&a[2])?;
                let p = if n > 0 { self.conc(&a[0])? } else { 0 };
                for i in 0..n {
                    let x = self.byte(p + i)?;
                    let y = self.cast(CastOp::Trunc, 32, 8, &a[1])?;
                    let c = self.icmp(Pred::Eq, 8, &x, &y)?;
                    if self.cond(&c)? {
                        return Ok(Val::C(p + i));
                    }
                }
                Val::C(0)
            }
            Ext::Strlen => {
                let p = self.conc(&a[0])?;
                let mut i = 0;
                loop {
                    let x = self.byte(p + i)?;
                    if self.conc(&x)? == 0 {
                        return Ok(Val::C(i));
                    }
                    i += 1;
                }
            }
            Ext::SymVar => {
                let w = self.conc(&a[0])? as u32;
                let i = self.widths.len() as u32;
                if i as usize >= MAX_VARS || w == 0 || w > 64 {
                    return inc("too many symbolic inputs");
                }
                self.widths.push(w);
                self.inputs.push(Inp::Var(i));
                if self.model.len() <= i as usize {
                    self.model.resize(i as usize + 1, 0);
                }
                let e = self.ar.var(i, w);
                let e = self.ar.zext(e, 64);
                Val::S(e)
            }
            Ext::SymChoice => {
                let n = self.conc(&a[0])?;
                let v = self.choice(n)?;
                self.inputs.push(Inp::Choice(v));
                Val::C(v)
            }
            Ext::SymPick => {
                let v = self.conc(&a[0])?;
                Val::C(v)
            }
            Ext::SymParam => {
                let i = self.conc(&a[0])? as usize;
                Val::C(self.cfg.params.get(i).copied().unwrap_or(0))
            }
            Ext::SymAssume => {
                let v = self.norm(a[0].clone());
                let e = self.ev(&v, w);
                let e = self.ar.ext(e, 0, 1);
                self.assume(e)?;
                unit
            }
            Ext::SymCheck => {
                let v = self.norm(a[0].clone());
                let e = self.ev(&v, w);
                let e = self.ar.ext(e, 0, 1);
                let id = self.conc(&a[1])?;
                self.check(e, id)?;
                unit
            }
            Ext::SymFail => {
                let id = self.conc(&a[0])?;
                let f = self.ar.f;
                self.check(f, id)?;
                unit
            }
            Ext::SymParallel => {
                let (f, g, n) = (self.conc(&a[0])?, self.conc(&a[2])?, self.conc(&a[4])?);
                self.parallel([(f, a[1].clone()), (g, a[3].clone())], n)?;
                unit
            }
            Ext::SymYield => {
                self.may_switch()?;
                unit
            }
            Ext::SymBlock => {
                self.block()?;
                unit
            }
            Ext::SymWake => {
                self.wake();
                unit
            }
            Ext::SymTrace => {
                self.trace.push(a[0].clone());
                unit
            }
            Ext::SymCover => {
                let id = self.conc(&a[0])?;
                self.covers.insert(id as u32);
                unit
            }
            Ext::SymExpectPanic => {
                let v = self.conc(&a[0])?;
                self.expect_panic = v & 1 == 1;
                unit
            }
            Ext::SymKeccak => {
                let n = self.conc(&a[1])?;
                let p = if n > 0 { self.conc(&a[0])? } else { 0 };
                let d = self.conc(&a[2])?;
                let mut bytes = Vec::with_capacity(n as usize);
                for i in 0..n {
                    bytes.push(self.byte(p + i)?);
                }
                let h = self.keccak(bytes)?;
                for i in 0..32 {
                    self.store_int(d + i as u64, &Val::C(h[i] as u64), 8)?;
                }
                unit
            }
            Ext::Unknown => return inc(format!("call of external function {} [{}]", self.m.exts[idx as usize], self.where_())),
        })
    }
    fn free(&mut self, p: u64) -> X<()> {
        if p == 0 {
            return Ok(());
        }
        let id = p >> 32;
        if id < HEAP0 || id >= STACK0 || p & 0xffff_ffff != 0 || (id - HEAP0) as usize >= self.heap.len() || !self.heap[(id - HEAP0) as usize].live {
            return self.violation(&format!("invalid free of {:#x}", p), None);
        }
        let o = &mut self.heap[(id - HEAP0) as usize];
        o.live = false;
        o.data = Vec::new();
        o.sym = None;
        Ok(())
    }
    /// Keccak-256 as a collision-free function: real on concrete input; on symbolic input equal to the hash of an earlier
    /// input exactly when the inputs are equal (forking if both are possible), otherwise a fresh distinct value.
    fn keccak(&mut self, bytes: Vec<Val>) -> X<[u8; 32]> {
        let concrete: Option<Vec<u8>> = bytes.iter().map(|v| if let Val::C(c) = v { Some(*c as u8) } else { None }).collect();
        let same = |a: &Val, b: &Val| match (a, b) {
            (Val::C(x), Val::C(y)) => x == y,
            (Val::S(x), Val::S(y)) => x == y,
            _ => false,
        };
        let real = concrete.as_ref().map(|b| keccak256(b));
        let n = self.keccaks.len();
        for i in (0..n).rev() {
            let (old, _) = &self.keccaks[i];
            if old.len() == bytes.len() && old.iter().zip(&bytes).all(|(a, b)| same(a, b)) {
                return Ok(self.keccaks[i].1);
            }
        }
        for i in (0..n).rev() {
            if self.keccaks[i].0.len() != bytes.len() {
                continue;
            }
            let old = self.keccaks[i].0.clone();
            let mut c = self.ar.t;
            for (x, y) in old.iter().zip(&bytes) {
                let (x, y) = (self.norm(x.clone()), self.norm(y.clone()));
                let (x, y) = (self.ev(&x, 8), self.ev(&y, 8));
                let e = self.ar.eq(x, y);
                c = self.ar.and(c, e);
                if c == self.ar.f {
                    break;
                }
            }
            if c == self.ar.f {
                continue;
            }
            if self.branch(c)? {
                let h = self.keccaks[i].1;
                self.keccaks.push((bytes, h));
                return Ok(h);
            }
        }
        let h = match real {
            Some(h) => {
                self.st.keccak_conc += 1;
                h
            }
            None => {
                self.st.keccak_sym += 1;
                let mut t = b"hash of a symbolic input ".to_vec();
                t.extend_from_slice(&(n as u64).to_le_bytes());
                keccak256(&t)
            }
        };
        self.keccaks.push((bytes, h));
        Ok(h)
    }
}
