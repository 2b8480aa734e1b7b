//! Harness-side API. Under the symbolic engine the `sym_*` functions are
//! undefined externals that the engine interprets; under feature `native`
//! they read a recorded value stream, so the same harness replays natively.

extern "C" {
    pub fn sym_var(width: u32) -> u64;
    pub fn sym_assume(c: bool);
    pub fn sym_assert(c: bool, msg: *const u8, len: usize);
    pub fn sym_cover(msg: *const u8, len: usize);
    pub fn sym_log(v: u64);
    pub fn sym_concretize(v: u64) -> u64;
    pub fn sym_select(c: bool, a: u64, b: u64) -> u64;
    pub fn sym_and(a: bool, b: bool) -> bool;
    pub fn sym_or(a: bool, b: bool) -> bool;
    /// 1: a panic is an allowed outcome from here on, 0: a panic is a violation.
    pub fn sym_panic_ok(v: u32);
    pub fn sym_param(i: u32, default: u64) -> u64;
    pub fn sym_bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool;
    /// Coroutines: a new one, the running one, and passing control to one. `f` never returns.
    pub fn sym_spawn(f: unsafe extern "C" fn(usize), arg: usize) -> usize;
    pub fn sym_self() -> usize;
    pub fn sym_switch(t: usize);
}

#[inline(always)]
pub fn u8v() -> u8 { unsafe { sym_var(8) as u8 } }
#[inline(always)]
pub fn u16v() -> u16 { unsafe { sym_var(16) as u16 } }
#[inline(always)]
pub fn u32v() -> u32 { unsafe { sym_var(32) as u32 } }
#[inline(always)]
pub fn u64v() -> u64 { unsafe { sym_var(64) } }
#[inline(always)]
pub fn boolv() -> bool { unsafe { sym_var(1) & 1 == 1 } }
#[inline(always)]
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
#[inline(always)]
pub fn check(c: bool, msg: &'static str) { unsafe { sym_assert(c, msg.as_ptr(), msg.len()) } }
#[inline(always)]
pub fn cover(msg: &'static str) { unsafe { sym_cover(msg.as_ptr(), msg.len()) } }
#[inline(always)]
pub fn log(v: u64) { unsafe { sym_log(v) } }
/// Complete case split over all feasible values of v.
#[inline(always)]
pub fn conc(v: u64) -> u64 { unsafe { sym_concretize(v) } }
#[inline(always)]
pub fn sel(c: bool, a: u64, b: u64) -> u64 { unsafe { sym_select(c, a, b) } }
/// Non-short-circuit boolean connectives that never fork.
#[inline(always)]
pub fn and(a: bool, b: bool) -> bool { unsafe { sym_and(a, b) } }
#[inline(always)]
pub fn or(a: bool, b: bool) -> bool { unsafe { sym_or(a, b) } }
#[inline(always)]
pub fn panic_ok(v: bool) { unsafe { sym_panic_ok(v as u32) } }
/// Byte slices equality as one formula (lengths must be concrete or are split).
#[inline(always)]
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { sym_bytes_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}
/// Value in 0..n, explored as a complete case split.
#[inline(always)]
pub fn choose(n: u64) -> u64 {
    let v = unsafe { sym_var(8) };
    assume(v < n);
    conc(v)
}
/// Tier parameter (a bound), given on the engine's command line.
#[inline(always)]
pub fn param(i: u32, default: u64) -> u64 { unsafe { sym_param(i, default) } }
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N {
        b[i] = u8v();
        i += 1;
    }
    b
}
pub fn bytes_vec(n: usize) -> Vec<u8> {
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(u8v());
    }
    b
}
pub fn log_bytes(b: &[u8]) {
    log(b.len() as u64);
    for x in b {
        log(*x as u64);
    }
}

#[cfg(feature = "native")]
pub mod native;

/// Declares the harness entry points of a crate and the native dispatch table.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C" fn $n() $b)*
        #[cfg(feature = "native")]
        pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}
