//! Interface between harnesses and the symbolic engine (or the native replayer).
#![allow(clippy::missing_safety_doc)]
use std::panic::{catch_unwind, AssertUnwindSafe};

pub mod raw {
    extern "C" {
        pub fn vp_sym(p: *mut u8, n: usize, name: *const u8, nl: usize);
        pub fn vp_assume(c: bool);
        pub fn vp_check(c: bool, m: *const u8, n: usize);
        pub fn vp_choose(n: u64, name: *const u8, nl: usize) -> u64;
        pub fn vp_reach(m: *const u8, n: usize);
        pub fn vp_concretize(v: u64) -> u64;
        pub fn vp_debug(v: u64, m: *const u8, n: usize);
        pub fn vp_hash(p: *const u8, n: usize, out: *mut u8);
        pub fn vp_is_symbolic() -> u32;
        pub fn vp_panic_trace();
    }
}

/// Fresh symbolic bytes.
pub fn fill(buf: &mut [u8], name: &str) {
    unsafe { raw::vp_sym(buf.as_mut_ptr(), buf.len(), name.as_ptr(), name.len()) }
}
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b, name);
    b
}
pub fn vec(n: usize, name: &str) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b, name);
    b
}
macro_rules! ints { ($($t:ident)*) => { $(pub fn $t(name: &str) -> $t {
    let mut b = [0u8; std::mem::size_of::<$t>()];
    fill(&mut b, name);
    $t::from_le_bytes(b)
})* } }
ints!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize);
pub fn bool(name: &str) -> bool {
    u8(name) & 1 == 1
}
/// Integer in `0..=max`.
pub fn upto(max: u64, name: &str) -> u64 {
    let v = u64(name);
    assume(v <= max);
    v
}
/// Explores every value of `0..n` on a path of its own.
pub fn choose(n: usize, name: &str) -> usize {
    unsafe { raw::vp_choose(n as u64, name.as_ptr(), name.len()) as usize }
}
pub fn assume(c: bool) {
    unsafe { raw::vp_assume(c) }
}
#[inline]
pub fn check(c: bool, msg: &str) {
    unsafe { raw::vp_check(c, msg.as_ptr(), msg.len()) }
}
/// A label that must be reached (vacuity guard) and that replays must reproduce.
pub fn reach(l: &str) {
    unsafe { raw::vp_reach(l.as_ptr(), l.len()) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { raw::vp_concretize(v) }
}
pub fn debug(v: u64, m: &str) {
    unsafe { raw::vp_debug(v, m.as_ptr(), m.len()) }
}
pub fn symbolic() -> bool {
    unsafe { raw::vp_is_symbolic() == 1 }
}
/// Runs `f`, turning a panic into `None`.
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(_) => {
            unsafe { raw::vp_panic_trace() };
            None
        }
    }
}
/// Runs `f`, which must not panic.
pub fn no_panic<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match catch(f) {
        Some(r) => r,
        None => {
            check(false, &("unexpected panic: ".to_string() + what));
            assume(false);
            unreachable!()
        }
    }
}
/// Entry points: `entry!{ fn h_name() { body } }`.
#[macro_export]
macro_rules! entry {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => { $(
        $(#[$m])*
        #[no_mangle]
        pub extern "C" fn $n() {
            $crate::no_panic(stringify!($n), || $b);
        }
    )* };
}
/// Must be invoked once per harness crate.
#[macro_export]
macro_rules! runtime {
    () => {
        #[no_mangle]
        pub fn __vp_panic() -> ! {
            std::panic::resume_unwind(Box::new(0u8))
        }
    };
}
