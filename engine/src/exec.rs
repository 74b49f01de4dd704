//! Symbolic interpreter of one path at a time.  A path is identified by its trail of decisions; the explorer re-executes
//! the program along a recorded prefix of decisions and then continues into unexplored territory, queueing the
//! alternatives the solver finds feasible.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Dec {
    pub at: u64, // instruction count, to notice a replay that diverges
    pub val: u64,
    pub taken: bool,
    pub implied: bool,
}
#[derive(Clone, Debug)]
pub struct Pending {
    pub prefix: Vec<Dec>,
    pub model: Vec<u64>,
}
#[derive(Clone, Copy, Debug)]
pub enum Inp {
    Var(u32),
    Choice(u64),
}
#[derive(Clone, Debug)]
pub enum Stop {
    Done,
    ExpectedPanic,
    Killed,
    Violation(String, Vec<u64>), // what, input words to replay
    Limit(String),
    Inconclusive(String),
    Deadline,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths_done: u64,
    pub paths_panic: u64,
    pub paths_killed: u64,
    pub paths_limit: u64,
    pub forks: u64,
    pub choices: u64,
    pub queries: u64,
    pub q_sat: u64,
    pub q_unsat: u64,
    pub cache_hits: u64,
    pub solver_ns: u64,
    pub checks_const: u64,
    pub checks_solver: u64,
    pub insts: u64,
    pub keccak_sym: u64,
    pub keccak_conc: u64,
    pub max_vars: u64,
    pub max_trail: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.paths_done += o.paths_done;
        self.paths_panic += o.paths_panic;
        self.paths_killed += o.paths_killed;
        self.paths_limit += o.paths_limit;
        self.forks += o.forks;
        self.choices += o.choices;
        self.queries += o.queries;
        self.q_sat += o.q_sat;
        self.q_unsat += o.q_unsat;
        self.cache_hits += o.cache_hits;
        self.solver_ns += o.solver_ns;
        self.checks_const += o.checks_const;
        self.checks_solver += o.checks_solver;
        self.insts += o.insts;
        self.keccak_sym += o.keccak_sym;
        self.keccak_conc += o.keccak_conc;
        self.max_vars = self.max_vars.max(o.max_vars);
        self.max_trail = self.max_trail.max(o.max_trail);
    }
}

pub(crate) const NOSYM: (Eid, u8) = (u32::MAX, 0);
pub(crate) struct Obj {
    pub(crate) data: Vec<u8>,
    pub(crate) sym: Option<Vec<(Eid, u8)>>,
    pub(crate) live: bool,
}
pub(crate) const HEAP0: u64 = 16;
pub(crate) const STACK0: u64 = 0x8000_0000;

#[derive(Clone)]
pub(crate) struct Frame {
    pub(crate) f: u32,
    pub(crate) ip: u32,
    pub(crate) base: u32,
    pub(crate) stk: u32,
    pub(crate) dst: Option<u32>,
    pub(crate) after: Option<u32>,
}

/// a thread that is not running at the moment; 0 is the one that started the others
#[derive(Default)]
pub(crate) struct Thread {
    pub(crate) regs: Vec<Val>,
    pub(crate) base: usize,
    pub(crate) frames: Vec<Frame>,
    pub(crate) stack: Vec<Obj>,
    pub(crate) stack_top: usize,
    pub(crate) done: bool,
    pub(crate) waiting: bool,
}
/// stack objects of a thread are numbered from here times its number on
pub(crate) const THREAD_STACK: u64 = 1 << 24;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    Nop,
    Memcpy,
    Memset,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Abs,
    Umin,
    Umax,
    Smin,
    Smax,
    UsubSat,
    UaddSat,
    Fshl,
    Fshr,
    AddO(bool),
    SubO(bool),
    MulO(bool),
    Ucmp,
    Scmp,
    IsConstant,
    LoadRelative,
    First,
    Trap,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    ReduceXor,
    ReduceMul,
    /// signed, greatest
    ReduceMin(bool, bool),
    SaddSat,
    SsubSat,
    Random,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Bcmp,
    Memcmp,
    Memchr,
    Strlen,
    SymVar,
    SymChoice,
    SymAssume,
    SymCheck,
    SymTrace,
    SymCover,
    SymExpectPanic,
    SymKeccak,
    SymParam,
    SymPick,
    SymFail,
    SymParallel,
    SymYield,
    SymBlock,
    SymWake,
    Unknown,
}
pub fn ext_kind(n: &str) -> Ext {
    let p = |s: &str| n.starts_with(s);
    match n {
        "malloc" => return Ext::Malloc,
        "calloc" => return Ext::Calloc,
        "realloc" => return Ext::Realloc,
        "free" => return Ext::Free,
        "posix_memalign" => return Ext::PosixMemalign,
        "bcmp" => return Ext::Bcmp,
        "memcmp" => return Ext::Memcmp,
        "memchr" => return Ext::Memchr,
        "strlen" => return Ext::Strlen,
        "memcpy" | "memmove" => return Ext::Memcpy,
        "memset" => return Ext::Memset,
        "__sym_var" => return Ext::SymVar,
        "__sym_choice" => return Ext::SymChoice,
        "__sym_assume" => return Ext::SymAssume,
        "__sym_check" => return Ext::SymCheck,
        "__sym_trace" => return Ext::SymTrace,
        "__sym_cover" => return Ext::SymCover,
        "__sym_expect_panic" => return Ext::SymExpectPanic,
        "__sym_keccak" => return Ext::SymKeccak,
        "__sym_param" => return Ext::SymParam,
        "__sym_pick" => return Ext::SymPick,
        "__sym_fail" => return Ext::SymFail,
        "__sym_parallel" => return Ext::SymParallel,
        "__sym_yield" => return Ext::SymYield,
        "__sym_block" => return Ext::SymBlock,
        "__sym_wake" => return Ext::SymWake,
        "abort" | "llvm.trap" => return Ext::Trap,
        "getrandom" | "syscall" => return Ext::Random,
        // destructors of thread-locals do not run
        "sched_yield" | "llvm.x86.sse2.pause" | "__cxa_thread_atexit_impl" => return Ext::Nop,
        _ => {}
    }
    if p("llvm.memcpy") || p("llvm.memmove") {
        Ext::Memcpy
    } else if p("llvm.memset") {
        Ext::Memset
    } else if p("llvm.ctlz") {
        Ext::Ctlz
    } else if p("llvm.cttz") {
        Ext::Cttz
    } else if p("llvm.ctpop") {
        Ext::Ctpop
    } else if p("llvm.bswap") {
        Ext::Bswap
    } else if p("llvm.bitreverse") {
        Ext::Bitreverse
    } else if p("llvm.abs") {
        Ext::Abs
    } else if p("llvm.umin") {
        Ext::Umin
    } else if p("llvm.umax") {
        Ext::Umax
    } else if p("llvm.smin") {
        Ext::Smin
    } else if p("llvm.smax") {
        Ext::Smax
    } else if p("llvm.usub.sat") {
        Ext::UsubSat
    } else if p("llvm.uadd.sat") {
        Ext::UaddSat
    } else if p("llvm.fshl") {
        Ext::Fshl
    } else if p("llvm.fshr") {
        Ext::Fshr
    } else if p("llvm.uadd.with") {
        Ext::AddO(false)
    } else if p("llvm.sadd.with") {
        Ext::AddO(true)
    } else if p("llvm.usub.with") {
        Ext::SubO(false)
    } else if p("llvm.ssub.with") {
        Ext::SubO(true)
    } else if p("llvm.umul.with") {
        Ext::MulO(false)
    } else if p("llvm.smul.with") {
        Ext::MulO(true)
    } else if p("llvm.ucmp") {
        Ext::Ucmp
    } else if p("llvm.scmp") {
        Ext::Scmp
    } else if p("llvm.is.constant") {
        Ext::IsConstant
    } else if p("llvm.load.relative") {
        Ext::LoadRelative
    } else if p("llvm.threadlocal.address") || p("llvm.expect") || p("llvm.launder") || p("llvm.strip") {
        Ext::First
    } else if p("llvm.vector.reduce.or") {
        Ext::ReduceOr
    } else if p("llvm.vector.reduce.and") {
        Ext::ReduceAnd
    } else if p("llvm.vector.reduce.add") {
        Ext::ReduceAdd
    } else if p("llvm.vector.reduce.xor") {
        Ext::ReduceXor
    } else if p("llvm.vector.reduce.mul") {
        Ext::ReduceMul
    } else if p("llvm.vector.reduce.umin") {
        Ext::ReduceMin(false, false)
    } else if p("llvm.vector.reduce.umax") {
        Ext::ReduceMin(false, true)
    } else if p("llvm.vector.reduce.smin") {
        Ext::ReduceMin(true, false)
    } else if p("llvm.vector.reduce.smax") {
        Ext::ReduceMin(true, true)
    } else if p("llvm.sadd.sat") {
        Ext::SaddSat
    } else if p("llvm.ssub.sat") {
        Ext::SsubSat
    } else if p("llvm.lifetime") || p("llvm.experimental.noalias") || p("llvm.assume") || p("llvm.dbg") || p("llvm.prefetch") {
        Ext::Nop
    } else {
        Ext::Unknown
    }
}

pub struct Config {
    pub entry: u32,
    pub params: Vec<u64>,
    pub max_insts: u64,
    pub max_depth: usize,
    pub deadline: std::time::Instant,
    pub query_timeout_ms: u32,
}

enum CacheRes {
    Unsat,
    Sat(Vec<(u32, u64)>),
}

pub struct Exec {
    pub m: &'static Module,
    pub(crate) exts: Vec<Ext>,
    pub ar: Arena,
    z3: Z3,
    cache: FxMap<Vec<Eid>, CacheRes>,
    pub st: Stats,
    pub visited: Vec<Vec<bool>>, // per function, per block
    pub cfg: Arc<Config>,
    pub covers: std::collections::BTreeSet<u32>,
    // path state
    pub(crate) regs: Vec<Val>,
    pub(crate) base: usize,
    pub(crate) frames: Vec<Frame>,
    pub(crate) heap: Vec<Obj>,
    pub(crate) stack: Vec<Obj>,
    pub(crate) stack_top: usize,
    pub(crate) threads: Vec<Thread>,
    pub(crate) thread: usize,
    pub(crate) switch_to: Option<usize>,
    pub(crate) preemptions: u64,
    pub(crate) rw: Obj,
    pub(crate) ro: Obj,
    pub(crate) prefix: Vec<Dec>,
    pub trail: Vec<Dec>,
    pub(crate) pos: usize,
    pub model: Vec<u64>,
    pub(crate) widths: Vec<u32>,
    pub inputs: Vec<Inp>,
    pub(crate) pc: Vec<Eid>,
    pub(crate) known: FxMap<Eid, bool>,
    /// values of expressions that the path condition has settled
    pub(crate) settled: FxMap<Eid, u128>,
    pub(crate) fixed: Sup,
    pub out: Vec<Pending>,
    pub(crate) expect_panic: bool,
    pub trace: Vec<Val>,
    pub(crate) keccaks: Vec<(Vec<Val>, [u8; 32])>,
    pub(crate) ninst: u64,
    pub(crate) checks_seen: u64,
    pub(crate) tmp: Vec<Val>,
}

pub(crate) type X<T> = Result<T, Stop>;

pub(crate) fn inc<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Inconclusive(s.into()))
}

impl Exec {
    pub fn new(m: &'static Module, cfg: Arc<Config>) -> Exec {
        let exts = m.exts.iter().map(|n| ext_kind(n)).collect();
        let visited = m.funcs.iter().map(|f| vec![false; f.block_start.len()]).collect();
        let tmo = cfg.query_timeout_ms;
        Exec {
            m,
            exts,
            ar: Arena::new(),
            z3: Z3::new(tmo),
            cache: Default::default(),
            st: Stats::default(),
            visited,
            cfg,
            covers: Default::default(),
            regs: vec![],
            base: 0,
            frames: vec![],
            heap: vec![],
            stack: vec![],
            stack_top: 0,
            threads: vec![],
            thread: 0,
            switch_to: None,
            preemptions: 0,
            rw: Obj { data: m.rw.clone(), sym: None, live: true },
            ro: Obj { data: m.ro.clone(), sym: None, live: true },
            prefix: vec![],
            trail: vec![],
            pos: 0,
            model: vec![],
            widths: vec![],
            inputs: vec![],
            pc: vec![],
            known: Default::default(),
            settled: Default::default(),
            fixed: [0; 4],
            out: vec![],
            expect_panic: false,
            trace: vec![],
            keccaks: vec![],
            ninst: 0,
            checks_seen: 0,
            tmp: vec![],
        }
    }

    pub fn run(&mut self, p: Pending) -> Stop {
        if self.ar.nodes.len() > 3_000_000 {
            self.ar = Arena::new();
            self.z3 = Z3::new(self.cfg.query_timeout_ms);
            self.cache.clear();
        }
        if self.thread != 0 {
            self.switch(0);
        }
        self.threads.clear();
        self.switch_to = None;
        self.regs.clear();
        self.frames.clear();
        self.heap.clear();
        self.stack_top = 0;
        self.rw.data.copy_from_slice(&self.m.rw);
        self.rw.sym = None;
        self.trail.clear();
        self.pos = 0;
        self.prefix = p.prefix;
        self.model = p.model;
        self.widths.clear();
        self.inputs.clear();
        self.pc.clear();
        self.known.clear();
        self.settled.clear();
        self.fixed = [0; 4];
        self.out.clear();
        self.expect_panic = false;
        self.trace.clear();
        self.keccaks.clear();
        self.ninst = 0;
        self.ar.new_model();
        let r = match self.go() {
            Ok(()) => Stop::Done,
            Err(s) => s,
        };
        self.st.insts += self.ninst;
        self.st.max_vars = self.st.max_vars.max(self.widths.len() as u64);
        self.st.max_trail = self.st.max_trail.max(self.trail.len() as u64);
        match &r {
            Stop::Done => self.st.paths_done += 1,
            Stop::ExpectedPanic => {
                self.st.paths_done += 1;
                self.st.paths_panic += 1
            }
            Stop::Killed => self.st.paths_killed += 1,
            Stop::Limit(_) => self.st.paths_limit += 1,
            _ => {}
        }
        r
    }

    /// the inputs of the current path under its model, as the native replay wants them
    pub fn input_words(&self, model: &[u64]) -> Vec<u64> {
        self.inputs
            .iter()
            .map(|i| match i {
                Inp::Var(v) => {
                    let w = self.widths[*v as usize];
                    model.get(*v as usize).copied().unwrap_or(0) & mask(w) as u64
                }
                Inp::Choice(c) => *c,
            })
            .collect()
    }
    pub fn trace_words(&mut self) -> Vec<u64> {
        let t = self.trace.clone();
        let model = self.model.clone();
        t.iter()
            .map(|v| match v {
                Val::C(c) => *c,
                Val::S(e) => self.ar.eval(*e, &model) as u64,
                _ => 0,
            })
            .collect()
    }
    pub(crate) fn where_(&self) -> String {
        let mut v = vec![];
        for f in self.frames.iter().rev().take(4) {
            let fun = &self.m.funcs[f.f as usize];
            let loc = crate::cover::locate(self.m, fun.dbg.get((f.ip as usize).saturating_sub(1)).copied().unwrap_or(0));
            v.push(if loc.is_empty() { fun.name.clone() } else { loc });
        }
        v.join(" < ")
    }
    pub(crate) fn violation<T>(&mut self, what: &str, model: Option<Vec<u64>>) -> X<T> {
        let m = model.unwrap_or_else(|| self.model.clone());
        let w = self.input_words(&m);
        let at = self.where_();
        Err(Stop::Violation(format!("{} [at {}]", what, at), w))
    }

    // ---------------- solver and decisions ----------------
    pub(crate) fn slice(&self, q: Eid) -> Vec<Eid> {
        let mut sup = self.ar.sup[q as usize];
        let mut used = vec![false; self.pc.len()];
        loop {
            let mut ch = false;
            for (i, c) in self.pc.iter().enumerate() {
                if !used[i] && sup_intersects(&self.ar.sup[*c as usize], &sup) {
                    used[i] = true;
                    sup = sup_union(&sup, &self.ar.sup[*c as usize]);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut v: Vec<Eid> = self.pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| *c).collect();
        v.push(q);
        v.sort_unstable();
        v.dedup();
        v
    }
    /// model of pc ∧ q, or None if infeasible
    pub(crate) fn query(&mut self, q: Eid) -> X<Option<Vec<u64>>> {
        let cs = self.slice(q);
        let res = if let Some(r) = self.cache.get(&cs) {
            self.st.cache_hits += 1;
            match r {
                CacheRes::Unsat => None,
                CacheRes::Sat(m) => Some(m.clone()),
            }
        } else {
            let t = std::time::Instant::now();
            let r = self.z3.check(&self.ar, &cs, &self.widths);
            self.st.solver_ns += t.elapsed().as_nanos() as u64;
            self.st.queries += 1;
            match r {
                Res::Unsat => {
                    self.st.q_unsat += 1;
                    self.cache.insert(cs, CacheRes::Unsat);
                    None
                }
                Res::Sat(m) => {
                    self.st.q_sat += 1;
                    self.cache.insert(cs, CacheRes::Sat(m.clone()));
                    Some(m)
                }
                Res::Unknown => return inc(format!("solver gave no answer at {}", self.where_())),
            }
        };
        Ok(res.map(|m| {
            let mut nm = self.model.clone();
            if nm.len() < self.widths.len() {
                nm.resize(self.widths.len(), 0);
            }
            for (i, v) in m {
                nm[i as usize] = v;
            }
            nm
        }))
    }
    pub(crate) fn learn(&mut self, c: Eid, val: bool, to_pc: bool) {
        if self.ar.as_const(c).is_some() {
            return;
        }
        match self.ar.nodes[c as usize].clone() {
            E::Not(a) => {
                self.known.insert(c, val);
                return self.learn(a, !val, to_pc);
            }
            E::And(a, b) if val => {
                self.known.insert(c, val);
                self.learn(a, true, to_pc);
                self.learn(b, true, to_pc);
                return;
            }
            E::Or(a, b) if !val => {
                self.known.insert(c, val);
                self.learn(a, false, to_pc);
                self.learn(b, false, to_pc);
                return;
            }
            E::Eq(a, b) if val => {
                if let Some(k) = self.ar.as_const(b) {
                    self.settled.insert(a, k);
                    if let E::Var(i) = self.ar.nodes[a as usize] {
                        self.fixed[(i / 64) as usize] |= 1 << (i % 64);
                    }
                }
            }
            _ => {}
        }
        if let E::Var(i) = self.ar.nodes[c as usize] {
            self.fixed[(i / 64) as usize] |= 1 << (i % 64);
        }
        self.known.insert(c, val);
        let n = self.ar.not(c);
        self.known.insert(n, !val);
        if to_pc {
            let e = if val { c } else { n };
            self.pc.push(e);
        }
    }
    pub(crate) fn is_fixed(&self, e: Eid) -> bool {
        sup_subset(&self.ar.sup[e as usize], &self.fixed)
    }
    pub(crate) fn eval(&mut self, e: Eid) -> u128 {
        self.ar.eval(e, &self.model)
    }
    fn next_dec(&mut self) -> X<Dec> {
        let d = self.prefix[self.pos].clone();
        self.pos += 1;
        if d.at != self.ninst {
            return inc(format!("replay diverged at {}", self.where_()));
        }
        Ok(d)
    }
    pub(crate) fn in_prefix(&self) -> bool {
        self.pos < self.prefix.len()
    }
    pub(crate) fn push_pending(&mut self, d: Dec, model: Vec<u64>) {
        let mut pre = Vec::with_capacity(self.trail.len() + 1);
        pre.extend_from_slice(&self.trail);
        pre.push(d);
        self.out.push(Pending { prefix: pre, model });
    }
    /// a value computed from few inputs in a way that is hard to reason about, as the hash functions of tables are: the inputs
    /// are told apart instead
    fn untangle(&mut self, e: Eid) -> X<()> {
        if self.ar.deep[e as usize] < 12 {
            return Ok(());
        }
        let (mut free, mut bits) = (vec![], 0);
        for (i, w) in self.widths.iter().enumerate() {
            let b = 1u64 << (i % 64);
            if self.ar.sup[e as usize][i / 64] & b != 0 && self.fixed[i / 64] & b == 0 {
                free.push((i as u32, *w as u32));
                bits += *w as u32;
            }
        }
        if bits <= 16 {
            for (i, w) in free {
                let v = self.ar.var(i, w);
                self.concretize(v)?;
            }
        }
        Ok(())
    }
    pub fn branch(&mut self, c: Eid) -> X<bool> {
        if let Some(v) = self.ar.as_const(c) {
            return Ok(v == 1);
        }
        if let Some(&v) = self.known.get(&c) {
            return Ok(v);
        }
        self.untangle(c)?;
        if self.is_fixed(c) {
            return Ok(self.eval(c) == 1);
        }
        if self.in_prefix() {
            let d = self.next_dec()?;
            let v = d.taken;
            self.learn(c, v, !d.implied);
            self.trail.push(d);
            return Ok(v);
        }
        self.pos += 1;
        let v = self.eval(c) == 1;
        let other = if v { self.ar.not(c) } else { c };
        match self.query(other)? {
            Some(m) => {
                self.st.forks += 1;
                self.push_pending(Dec { at: self.ninst, val: 0, taken: !v, implied: false }, m);
                self.trail.push(Dec { at: self.ninst, val: 0, taken: v, implied: false });
                self.learn(c, v, true);
            }
            None => {
                self.trail.push(Dec { at: self.ninst, val: 0, taken: v, implied: true });
                self.learn(c, v, false);
            }
        }
        Ok(v)
    }
    pub fn concretize(&mut self, e: Eid) -> X<u128> {
        if let Some(v) = self.ar.as_const(e) {
            return Ok(v);
        }
        if self.is_fixed(e) {
            return Ok(self.eval(e));
        }
        if let Some(v) = self.settled.get(&e) {
            return Ok(*v);
        }
        self.untangle(e)?;
        if self.is_fixed(e) {
            return Ok(self.eval(e));
        }
        if self.ar.w(e) == 1 {
            return Ok(self.branch(e)? as u128);
        }
        let w = self.ar.w(e);
        if w > 64 {
            return inc("concretisation of a wide value");
        }
        loop {
            if self.in_prefix() {
                let d = self.next_dec()?;
                let k = self.ar.konst(d.val as u128, w);
                let c = self.ar.eq(e, k);
                self.learn(c, d.taken, !d.implied);
                let r = d.val as u128;
                let t = d.taken;
                self.trail.push(d);
                if t {
                    self.settled.insert(e, r);
                    return Ok(r);
                }
                continue;
            }
            self.pos += 1;
            let v = self.eval(e);
            let k = self.ar.konst(v, w);
            let c = self.ar.eq(e, k);
            let nc = self.ar.not(c);
            let implied = match self.known.get(&c) {
                Some(true) => true,
                _ => match self.query(nc)? {
                    Some(m) => {
                        self.st.forks += 1;
                        self.push_pending(Dec { at: self.ninst, val: v as u64, taken: false, implied: false }, m);
                        false
                    }
                    None => true,
                },
            };
            self.trail.push(Dec { at: self.ninst, val: v as u64, taken: true, implied });
            self.learn(c, true, !implied);
            self.settled.insert(e, v);
            return Ok(v);
        }
    }
    pub(crate) fn choice(&mut self, n: u64) -> X<u64> {
        if n == 0 {
            return inc("choice of nothing");
        }
        if n == 1 {
            return Ok(0);
        }
        let v = if self.in_prefix() {
            let d = self.next_dec()?;
            let v = d.val;
            self.trail.push(d);
            v
        } else {
            self.pos += 1;
            self.st.choices += n - 1;
            for k in 1..n {
                let m = self.model.clone();
                self.push_pending(Dec { at: self.ninst, val: k, taken: true, implied: false }, m);
            }
            self.trail.push(Dec { at: self.ninst, val: 0, taken: true, implied: false });
            0
        };
        Ok(v)
    }
    pub(crate) fn assume(&mut self, c: Eid) -> X<()> {
        if let Some(v) = self.ar.as_const(c) {
            return if v == 1 { Ok(()) } else { Err(Stop::Killed) };
        }
        match self.known.get(&c) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Killed),
            None => {}
        }
        if self.eval(c) != 1 {
            match self.query(c)? {
                Some(m) => {
                    self.model = m;
                    self.ar.new_model();
                }
                None => return Err(Stop::Killed),
            }
        }
        self.learn(c, true, true);
        Ok(())
    }
    pub(crate) fn check(&mut self, c: Eid, id: u64) -> X<()> {
        self.checks_seen += 1;
        if let Some(v) = self.ar.as_const(c) {
            self.st.checks_const += 1;
            return if v == 1 { Ok(()) } else { self.violation(&format!("assertion {} failed", id), None) };
        }
        if let Some(true) = self.known.get(&c) {
            self.st.checks_const += 1;
            return Ok(());
        }
        if self.in_prefix() {
            let d = self.next_dec()?;
            self.trail.push(d);
            self.known.insert(c, true);
            return Ok(());
        }
        self.pos += 1;
        let nc = self.ar.not(c);
        if self.eval(c) != 1 {
            return self.violation(&format!("assertion {} failed", id), None);
        }
        self.st.checks_solver += 1;
        match self.query(nc)? {
            Some(m) => return self.violation(&format!("assertion {} failed", id), Some(m)),
            None => {
                self.trail.push(Dec { at: self.ninst, val: 0, taken: true, implied: true });
                self.known.insert(c, true);
            }
        }
        Ok(())
    }

    // ---------------- values ----------------
    pub(crate) fn ev(&mut self, v: &Val, w: u32) -> Eid {
        match v {
            Val::C(c) => self.ar.konst(*c as u128, w),
            Val::W(c) => self.ar.konst(**c, w),
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    pub(crate) fn mk(&mut self, e: Eid) -> Val {
        let w = self.ar.w(e);
        if let Some(c) = self.ar.as_const(e) {
            return Self::kv(c, w);
        }
        if self.is_fixed(e) {
            let v = self.eval(e);
            return Self::kv(v, w);
        }
        if let Some(v) = self.settled.get(&e) {
            return Self::kv(*v, w);
        }
        Val::S(e)
    }
    pub(crate) fn kv(c: u128, w: u32) -> Val {
        if w > 64 {
            Val::W(Arc::new(c))
        } else {
            Val::C(c as u64)
        }
    }
    pub(crate) fn norm(&mut self, v: Val) -> Val {
        if let Val::S(e) = v {
            if self.is_fixed(e) {
                let w = self.ar.w(e);
                let x = self.eval(e);
                return Self::kv(x, w);
            }
            if let Some(x) = self.settled.get(&e) {
                return Self::kv(*x, self.ar.w(e));
            }
        }
        v
    }
    pub(crate) fn cu(&self, v: &Val) -> Option<u128> {
        match v {
            Val::C(c) => Some(*c as u128),
            Val::W(c) => Some(**c),
            _ => None,
        }
    }
    /// concrete u64 (forking if needed)
    pub(crate) fn conc(&mut self, v: &Val) -> X<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => Ok(self.concretize(*e)? as u64),
            Val::W(c) => Ok(**c as u64),
            Val::A(_) => inc("aggregate as scalar"),
        }
    }
    pub(crate) fn cond(&mut self, v: &Val) -> X<bool> {
        match v {
            Val::C(c) => Ok(*c & 1 == 1),
            Val::S(e) => self.branch(*e),
            _ => inc("condition"),
        }
    }
    #[inline]
    pub(crate) fn get(&self, o: Opd) -> Val {
        if o & KBIT != 0 {
            self.m.consts[(o & !KBIT) as usize].clone()
        } else {
            self.regs[self.base + o as usize].clone()
        }
    }
}
