//! Threads under a scheduler of the harness, both under the symbolic engine and natively
//! (where symrt/native.c carries the threads):
//! pthread_create, futexes, sleeping and the clock. The scheduler's choices are ordinary
//! symbolic choices, so a replay follows the same schedule.
//!
//! One thread runs at a time. A thread runs until it waits; where several could go on they
//! take turns. Each deviation from that order, at a point where the running thread touches
//! something shared (an atomic operation, a system call), uses up one of `BUDGET`.
use symrt::*;

#[derive(Clone, Copy, PartialEq)]
pub enum St {
    Run,
    /// Gave up its turn to any other thread that can go on.
    Yield,
    /// Waiting on an address until a time.
    Futex(usize, u64),
    Join(usize),
    /// Waiting for something of the harness until a time.
    Block(usize, u64),
    /// The harness's main thread: goes on when no other thread can.
    Idle,
    Done,
}
pub struct Th {
    st: St,
    timed_out: bool,
    start: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
}
extern "C" fn no_start(_: *mut u8) -> *mut u8 {
    std::ptr::null_mut()
}
pub const NEVER: u64 = u64::MAX;
static mut ON: bool = false;
/// Inside the scheduler: no preemption.
static mut IN: bool = false;
static mut TH: Vec<Th> = Vec::new();
pub static mut BUDGET: u64 = 0;
/// If not 0, a deviation may also be that the running thread is held up for this long.
pub static mut STALL: u64 = 0;
pub static mut NOW: u64 = 1_000_000_000_000_000;
/// Called when every thread waits forever.
pub static mut STUCK: fn() = || check(false, "no deadlock");
/// How long threads asked to sleep.
pub static mut SLEEPS: Vec<u64> = Vec::new();
/// Who last loaded what, if nothing else was shared since.
static mut SPIN: (usize, usize) = (0, 0);

#[allow(static_mut_refs)]
fn th() -> &'static mut Vec<Th> {
    unsafe { &mut TH }
}
pub fn start(budget: u64) {
    // What the runtime has done before main natively.
    std::hint::black_box(std::thread::current().id());
    unsafe {
        th().push(Th { st: St::Run, timed_out: false, start: no_start, arg: std::ptr::null_mut() });
        BUDGET = budget;
        ON = true;
    }
}
pub fn done() {
    unsafe { ON = false }
}
pub fn budget(n: u64) {
    unsafe { BUDGET = n }
}
pub fn now() -> u64 {
    unsafe { NOW }
}
/// How many threads were started, and how many of them have not ended.
pub fn threads() -> (usize, usize) {
    (th().len() - 1, th()[1..].iter().filter(|t| t.st != St::Done).count())
}
/// How many threads wait for `chan`.
pub fn waiting(chan: usize) -> usize {
    th().iter().filter(|t| matches!(t.st, St::Block(c, _) if c == chan)).count()
}

unsafe fn pick(me: usize) -> usize {
    let n = th().len();
    loop {
        let mut cand = Vec::with_capacity(n);
        for k in 0..n {
            let t = (me + k) % n;
            if th()[t].st == St::Run {
                cand.push(t);
            }
        }
        if cand.is_empty() {
            // Whoever spins waits for another thread.
            for x in th().iter_mut() {
                if x.st == St::Yield {
                    x.st = St::Run;
                    cand.push(0);
                }
            }
            if !cand.is_empty() {
                continue;
            }
        }
        if !cand.is_empty() {
            let mut c = 0;
            if BUDGET > 0 && cand.len() > 1 {
                c = choose(cand.len() as u64) as usize;
                if c > 0 {
                    BUDGET -= 1;
                }
            }
            return cand[c];
        }
        let mut first: Option<(usize, u64)> = None;
        for (t, x) in th().iter().enumerate() {
            let at = match x.st {
                St::Idle => 0,
                St::Futex(_, d) | St::Block(_, d) => d,
                _ => continue,
            };
            if at != NEVER && first.is_none_or(|f| at < f.1) {
                first = Some((t, at));
            }
        }
        match first {
            None => {
                STUCK();
                check(false, "no deadlock");
            }
            Some((t, at)) => {
                if th()[t].st != St::Idle {
                    th()[t].timed_out = true;
                    NOW = NOW.max(at);
                }
                th()[t].st = St::Run;
            }
        }
    }
}
unsafe fn resched() {
    IN = true;
    let me = sym_self();
    let t = pick(me);
    if t != me {
        sym_switch(t);
    }
    IN = false;
}
/// A point where another thread may get the processor.
pub fn point() {
    unsafe {
        if !ON || IN {
            return;
        }
        SPIN = (0, 0);
        if BUDGET == 0 {
            return;
        }
        // A native replay that used up its values is reporting a panic.
        if sym_exhausted() {
            return;
        }
        if STALL > 0 && choose(2) == 1 {
            BUDGET -= 1;
            wait(St::Block(usize::MAX, NOW + STALL));
            return;
        }
        resched();
    }
}
unsafe fn wait(st: St) -> bool {
    let me = sym_self();
    th()[me].st = st;
    th()[me].timed_out = false;
    resched();
    !th()[sym_self()].timed_out
}
/// Wait for `wake(chan)`; false: the time ran out.
pub fn block(chan: usize, until: u64) -> bool {
    unsafe { wait(St::Block(chan, until)) }
}
pub fn wake(chan: usize) {
    for t in th().iter_mut() {
        if matches!(t.st, St::Block(c, _) if c == chan) {
            t.st = St::Run;
        }
    }
}
/// Wait until no other thread can go on without time passing.
pub fn idle() {
    unsafe {
        wait(St::Idle);
    }
}
/// The running thread never goes on.
pub fn end() -> ! {
    unsafe {
        th()[sym_self()].st = St::Done;
        loop {
            resched();
        }
    }
}
/// Let time pass.
pub fn sleep_until(t: u64) {
    block(usize::MAX, t);
}

unsafe extern "C" fn tramp(t: usize) {
    IN = false;
    (th()[t].start)(th()[t].arg);
    th()[t].st = St::Done;
    for x in th().iter_mut() {
        if x.st == St::Join(t) {
            x.st = St::Run;
        }
    }
    loop {
        resched();
    }
}

extern "C" {
    fn sym_exhausted() -> bool;
    fn __errno_location() -> *mut i32;
}
#[repr(C)]
pub struct Ts {
    s: u64,
    n: u64,
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(id: *mut u64, attr: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32 {
    let _ = attr;
    let t = th().len();
    th().push(Th { st: St::Run, timed_out: false, start: f, arg });
    check(sym_spawn(tramp, t) == t, "threads are numbered alike");
    *id = 0x7000_0000 + t as u64;
    point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(id: u64, ret: *mut *mut u8) -> i32 {
    let _ = ret;
    let t = (id - 0x7000_0000) as usize;
    if th()[t].st != St::Done {
        wait(St::Join(t));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(id: u64) -> i32 {
    let _ = id;
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    wait(St::Yield);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Ts) -> i32 {
    let _ = clk;
    point();
    (*ts).s = NOW / 1_000_000_000;
    (*ts).n = NOW % 1_000_000_000;
    0
}
#[allow(static_mut_refs)]
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const Ts, rem: *mut Ts) -> i32 {
    let _ = rem;
    SLEEPS.push((*ts).s * 1_000_000_000 + (*ts).n);
    block(usize::MAX, NOW + (*ts).s * 1_000_000_000 + (*ts).n);
    0
}
#[allow(static_mut_refs)]
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, fl: i32, ts: *const Ts, rem: *mut Ts) -> i32 {
    let _ = (clk, rem);
    let t = (*ts).s * 1_000_000_000 + (*ts).n;
    SLEEPS.push(if fl & 1 == 1 { t.saturating_sub(NOW) } else { t });
    block(usize::MAX, if fl & 1 == 1 { t } else { NOW + t });
    0
}
#[no_mangle]
pub unsafe extern "C" fn syscall(nr: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let _ = (e, f);
    match nr {
        186 => return 1000 + sym_self() as isize,
        202 => (),
        318 => return getrandom(a as *mut u8, b, 0),
        _ => {
            *__errno_location() = 38; // ENOSYS
            return -1;
        }
    }
    let r = match b & 127 {
        0 | 9 => {
            if *(a as *const u32) != c as u32 {
                *__errno_location() = 11; // EAGAIN
                return -1;
            }
            let ts = d as *const Ts;
            let until = if d == 0 {
                NEVER
            } else {
                (*ts).s * 1_000_000_000 + (*ts).n + if b & 127 == 0 { NOW } else { 0 }
            };
            if !wait(St::Futex(a, until)) {
                *__errno_location() = 110; // ETIMEDOUT
                return -1;
            }
            0
        }
        1 | 10 => {
            let mut n = 0;
            for t in th().iter_mut() {
                if n < c as isize && matches!(t.st, St::Futex(x, _) if x == a) {
                    t.st = St::Run;
                    n += 1;
                }
            }
            n
        }
        _ => {
            *__errno_location() = 38;
            return -1;
        }
    };
    point();
    r
}

// The atomic operations of the code, made visible by LLVM's thread sanitizer pass. Only
// one thread runs at a time, so they need not be atomic here.
macro_rules! atomics {
    ($t:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, _: i32) -> $t {
            // Spinning on one address is one step.
            let at = (sym_self(), p as usize);
            if *(&raw const SPIN) != at {
                point();
                SPIN = at;
            }
            *p
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) {
            point();
            *p = v;
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _: i32) -> $t {
            point();
            let o = *p;
            *p = v;
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _: i32) -> $t {
            let o = *p;
            *p = o.wrapping_add(v);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _: i32) -> $t {
            let o = *p;
            *p = o.wrapping_sub(v);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _: i32) -> $t {
            point();
            let o = *p;
            *p = o & v;
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _: i32) -> $t {
            point();
            let o = *p;
            *p = o | v;
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _: i32) -> $t {
            point();
            let o = *p;
            *p = o ^ v;
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, e: $t, v: $t, _: i32, _: i32) -> $t {
            point();
            let o = *p;
            if o == e {
                *p = v;
            }
            o
        }
    };
}
atomics!(u8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub,
    __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_compare_exchange_val);
atomics!(u16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub,
    __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_compare_exchange_val);
atomics!(u32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub,
    __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_compare_exchange_val);
atomics!(u64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub,
    __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_compare_exchange_val);
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
/// Destructors of thread-local values do not run.
#[no_mangle]
pub unsafe extern "C" fn pthread_key_create(k: *mut u32, _: usize) -> i32 {
    static mut KEYS: u32 = 0;
    KEYS += 1;
    *k = KEYS;
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_key_delete(_: u32) -> i32 {
    0
}
/// The hash maps' seeds.
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, _: u32) -> isize {
    for i in 0..n {
        *b.add(i) = (i * 37 + 11) as u8;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn pthread_setspecific(_: u32, _: usize) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_getspecific(_: u32) -> usize {
    0
}
