//! Native implementation of the engine interface: inputs come from a recorded counterexample or sample.
use std::cell::RefCell;

#[derive(Default)]
pub struct State {
    pub inputs: Vec<u64>,
    pub pos: usize,
    pub params: Vec<u64>,
    pub trace: Vec<u64>,
    pub expect_panic: bool,
    pub failed: Option<u32>,
    pub assume_broken: bool,
    pub ran_out: bool,
    pub notes: Vec<String>,
}
thread_local! {
    pub static ST: RefCell<State> = RefCell::new(State::default());
}
pub struct Stop;

fn next() -> u64 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.pos;
        s.pos += 1;
        match s.inputs.get(i) {
            Some(v) => *v,
            None => {
                s.ran_out = true;
                0
            }
        }
    })
}
#[no_mangle]
pub extern "C" fn __sym_var(w: u32) -> u64 {
    let v = next();
    if w >= 64 {
        v
    } else {
        v & ((1 << w) - 1)
    }
}
#[no_mangle]
pub extern "C" fn __sym_choice(n: u64) -> u64 {
    next() % n.max(1)
}
#[no_mangle]
pub extern "C-unwind" fn __sym_assume(c: bool) {
    if !c {
        ST.with(|s| s.borrow_mut().assume_broken = true);
        std::panic::resume_unwind(Box::new(Stop));
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_check(c: bool, id: u32) {
    if !c {
        __sym_fail(id)
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_fail(id: u32) {
    ST.with(|s| s.borrow_mut().failed = Some(id));
    std::panic::resume_unwind(Box::new(Stop));
}
#[no_mangle]
pub extern "C" fn __sym_trace(v: u64) {
    ST.with(|s| s.borrow_mut().trace.push(v));
}
#[no_mangle]
pub extern "C" fn __sym_cover(_: u32) {}
#[no_mangle]
pub extern "C" fn __sym_expect_panic(on: bool) {
    ST.with(|s| s.borrow_mut().expect_panic = on);
}
#[no_mangle]
pub extern "C" fn __sym_param(i: u32) -> u64 {
    ST.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn __sym_pick(v: u64) -> u64 {
    v
}
#[no_mangle]
pub unsafe extern "C" fn __sym_keccak(p: *const u8, n: usize, out: *mut u8) {
    use tiny_keccak::{Hasher, Keccak};
    let mut k = Keccak::v256();
    if n > 0 {
        k.update(std::slice::from_raw_parts(p, n));
    }
    let mut o = [0u8; 32];
    k.finalize(&mut o);
    std::ptr::copy_nonoverlapping(o.as_ptr(), out, 32);
}

pub fn note(s: String) {
    ST.with(|t| t.borrow_mut().notes.push(s));
}

/// Two threads under a recorded schedule: one runs at a time, and hands over where the record says so.
pub mod schedule {
    use super::{Stop, ST};
    use std::cell::Cell;
    use std::sync::{Condvar, Mutex};

    #[derive(Default)]
    struct Sched {
        inputs: Vec<u64>,
        pos: usize,
        ran_out: bool,
        running: usize,
        preemptions: u64,
        done: [bool; 3],
        waiting: [bool; 3],
        deadlock: bool,
    }
    static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
    static TURN: Condvar = Condvar::new();
    thread_local! {
        static ME: Cell<usize> = const { Cell::new(0) };
    }
    impl Sched {
        fn choose(&mut self) -> u64 {
            self.pos += 1;
            match self.inputs.get(self.pos - 1) {
                Some(v) => *v & 1,
                None => {
                    self.ran_out = true;
                    0
                }
            }
        }
    }
    fn stop() {
        if !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(Stop));
        }
    }
    fn hand_over(to: usize) {
        let me = ME.get();
        let mut g = SCHED.lock().unwrap();
        g.as_mut().unwrap().running = to;
        TURN.notify_all();
        while g.as_ref().unwrap().running != me && !g.as_ref().unwrap().deadlock {
            g = TURN.wait(g).unwrap();
        }
        let d = g.as_ref().unwrap().deadlock;
        drop(g);
        if d {
            stop();
        }
    }
    #[no_mangle]
    pub extern "C-unwind" fn __sym_yield() {
        let me = ME.get();
        if me == 0 {
            return;
        }
        let mut g = SCHED.lock().unwrap();
        let s = g.as_mut().unwrap();
        if s.deadlock || s.preemptions == 0 || s.done[3 - me] {
            return;
        }
        if s.choose() == 1 {
            s.preemptions -= 1;
            drop(g);
            hand_over(3 - me);
        }
    }
    #[no_mangle]
    pub extern "C-unwind" fn __sym_block() {
        let me = ME.get();
        if me == 0 {
            return super::__sym_fail(DEADLOCK);
        }
        let mut g = SCHED.lock().unwrap();
        let s = g.as_mut().unwrap();
        if s.deadlock || s.done[3 - me] || s.waiting[3 - me] {
            s.deadlock = true;
            TURN.notify_all();
            drop(g);
            return stop();
        }
        s.waiting[me] = true;
        drop(g);
        hand_over(3 - me);
    }
    #[no_mangle]
    pub extern "C-unwind" fn __sym_wake() {
        if let Some(s) = SCHED.lock().unwrap().as_mut() {
            s.waiting = [false; 3];
        }
    }
    const DEADLOCK: u32 = 9999;

    struct Ptr(*mut ());
    unsafe impl Send for Ptr {}

    #[no_mangle]
    pub extern "C-unwind" fn __sym_parallel(f: extern "C-unwind" fn(*mut ()), a: *mut (), g: extern "C-unwind" fn(*mut ()), b: *mut (), preemptions: u64) {
        let (inputs, pos) = ST.with(|s| (s.borrow().inputs.clone(), s.borrow().pos));
        let mut s = Sched { inputs, pos, preemptions, ..Default::default() };
        s.running = 1 + s.choose() as usize;
        *SCHED.lock().unwrap() = Some(s);
        let start = |i: usize, f: extern "C-unwind" fn(*mut ()), p: Ptr| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let p = p;
                    ME.set(i);
                    let mut g = SCHED.lock().unwrap();
                    while g.as_ref().unwrap().running != i && !g.as_ref().unwrap().deadlock {
                        g = TURN.wait(g).unwrap();
                    }
                    drop(g);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(p.0)));
                    let mut g = SCHED.lock().unwrap();
                    let s = g.as_mut().unwrap();
                    s.done[i] = true;
                    s.waiting = [false; 3];
                    s.running = if s.done[3 - i] { 0 } else { 3 - i };
                    TURN.notify_all();
                    drop(g);
                    r
                })
                .unwrap()
        };
        let (x, y) = (start(1, f, Ptr(a)), start(2, g, Ptr(b)));
        let (x, y) = (x.join().unwrap(), y.join().unwrap());
        let s = SCHED.lock().unwrap().take().unwrap();
        ST.with(|t| {
            let mut t = t.borrow_mut();
            t.pos = s.pos;
            t.ran_out |= s.ran_out;
        });
        if s.deadlock {
            super::__sym_fail(DEADLOCK);
        }
        for r in [x, y] {
            if let Err(e) = r {
                std::panic::resume_unwind(e);
            }
        }
    }
}
