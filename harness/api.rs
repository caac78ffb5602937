//! What a harness can ask for. The same harness is executed symbolically (every `any_*` is a solver
//! variable) and natively (every `any_*` is read from a replay file).
#![allow(dead_code)]

mod ffi {
    extern "C" {
        pub fn vp_u64() -> u64;
        pub fn vp_range(lo: u64, hi: u64) -> u64;
        pub fn vp_bool() -> bool;
        pub fn vp_f64(lo: f64, hi: f64) -> f64;
        pub fn vp_pick(n: u64) -> u64;
        pub fn vp_conc(x: u64) -> u64;
        pub fn vp_assume(b: bool);
        pub fn vp_assert(b: bool, msg: *const u8, len: usize);
        pub fn vp_cover(b: bool, msg: *const u8, len: usize);
        pub fn vp_out(x: u64);
        pub fn vp_panic_ok(b: bool);
    }
}
pub fn any_u64() -> u64 {
    unsafe { ffi::vp_u64() }
}
/// any number from lo to hi, both included
pub fn any(lo: usize, hi: usize) -> usize {
    unsafe { ffi::vp_range(lo as u64, hi as u64) as usize }
}
pub fn any_bool() -> bool {
    unsafe { ffi::vp_bool() }
}
/// any real number from lo to hi, both included
pub fn real(lo: f64, hi: f64) -> f64 {
    unsafe { ffi::vp_f64(lo, hi) }
}
/// any number below n; every path goes on with one concrete value
pub fn pick(n: usize) -> usize {
    unsafe { ffi::vp_pick(n as u64) as usize }
}
/// the value itself; every path goes on with one concrete value
pub fn conc(x: usize) -> usize {
    unsafe { ffi::vp_conc(x as u64) as usize }
}
pub fn assume(b: bool) {
    unsafe { ffi::vp_assume(b) }
}
pub fn must(b: bool, msg: &'static str) {
    unsafe { ffi::vp_assert(b, msg.as_ptr(), msg.len()) }
}
pub fn cover(b: bool, msg: &'static str) {
    unsafe { ffi::vp_cover(b, msg.as_ptr(), msg.len()) }
}
pub fn out(x: usize) {
    unsafe { ffi::vp_out(x as u64) }
}
pub fn panic_ok(b: bool) {
    unsafe { ffi::vp_panic_ok(b) }
}
/// |a - b| <= eps (1 + |a| + |b|)
pub fn close(a: f64, b: f64, eps: f64) -> bool {
    (a - b).abs() <= eps * (1.0 + a.abs() + b.abs())
}
