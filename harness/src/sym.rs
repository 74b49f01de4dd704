//! Interface to the symbolic engine (or, natively, to the recorded inputs).
extern "C-unwind" {
    fn __sym_var(width: u32) -> u64;
    fn __sym_choice(n: u64) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_check(c: bool, id: u32);
    fn __sym_fail(id: u32);
    fn __sym_trace(v: u64);
    fn __sym_cover(id: u32);
    fn __sym_expect_panic(on: bool);
    fn __sym_param(i: u32) -> u64;
    fn __sym_pick(v: u64) -> u64;
}
/// fresh symbolic value of `width` bits
pub fn var(width: u32) -> u64 {
    unsafe { __sym_var(width) }
}
/// every value below n, explored separately
pub fn choice(n: usize) -> usize {
    unsafe { __sym_choice(n as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { __sym_check(c, id) }
}
pub fn fail(id: u32) -> ! {
    unsafe { __sym_fail(id) };
    loop {}
}
pub fn trace(v: u64) {
    unsafe { __sym_trace(v) }
}
pub fn cover(id: u32) {
    unsafe { __sym_cover(id) }
}
/// from here on a panic is the required outcome (true) or a violation (false)
pub fn expect_panic(on: bool) {
    unsafe { __sym_expect_panic(on) }
}
pub fn param(i: u32) -> usize {
    unsafe { __sym_param(i) as usize }
}
/// case split on the value
pub fn pick(v: u64) -> u64 {
    unsafe { __sym_pick(v) }
}
pub fn nib() -> u8 {
    var(4) as u8
}
pub fn byte() -> u8 {
    var(8) as u8
}

/// describes the case in the output of a replay
#[macro_export]
macro_rules! note {
    ($($t:tt)*) => {
        #[cfg(feature = "native")]
        $crate::native::note(format!($($t)*));
    };
}
