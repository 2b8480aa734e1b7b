//! A recorded clock and UDP sockets in place of the operating system's, both under the
//! symbolic engine and natively. Natively the calls go to libc except while a harness runs.
use std::sync::atomic::{AtomicBool, Ordering};

static ON: AtomicBool = AtomicBool::new(false);
pub static mut SECS: u64 = 1_000_000;
pub static mut NANOS: u64 = 0;
/// Called with every datagram sent: bytes, IPv4 address, port. False: the send fails.
pub static mut SEND: fn(&[u8], [u8; 4], u16) -> bool = |_, _, _| false;
/// The next datagram received (bytes, source address, source port); None: time out.
pub static mut RECV: fn() -> Option<(Vec<u8>, [u8; 4], u16)> = || None;
/// A chance to move the clock whenever it is read.
pub static mut TICK: fn() = || ();
/// Peer of the last connected socket: the system drops datagrams from other hosts.
static mut PEER: Option<([u8; 4], u16)> = None;
pub static mut OPENED: u32 = 0;
pub static mut CLOSED: u32 = 0;
pub static mut TIMEOUTS: u32 = 0;
const BASE: i32 = 6000;

pub fn start() {
    ON.store(true, Ordering::SeqCst);
}
pub fn done() {
    ON.store(false, Ordering::SeqCst);
}
#[cfg(feature = "native")]
extern "C" {
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn fail(e: i32) -> isize {
    *__errno_location() = e;
    -1
}
macro_rules! real {
    ($cond:expr, $name:literal, $t:ty, ($($a:expr),*)) => {
        #[cfg(feature = "native")]
        if $cond {
            let f: $t = std::mem::transmute(dlsym(usize::MAX as *mut u8, concat!($name, "\0").as_ptr()));
            return f($($a),*);
        }
    };
}

#[repr(C)]
pub struct Ts {
    s: u64,
    n: u64,
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Ts) -> i32 {
    real!(!ON.load(Ordering::SeqCst), "clock_gettime", extern "C" fn(i32, *mut Ts) -> i32, (clk, ts));
    let _ = clk;
    TICK();
    (*ts).s = SECS;
    (*ts).n = NANOS;
    0
}
#[no_mangle]
pub unsafe extern "C" fn socket(d: i32, t: i32, p: i32) -> i32 {
    real!(!ON.load(Ordering::SeqCst), "socket", extern "C" fn(i32, i32, i32) -> i32, (d, t, p));
    let _ = (d, t, p);
    OPENED += 1;
    TIMEOUTS = 0;
    PEER = None;
    BASE + OPENED as i32
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: i32, a: *const u8, l: u32) -> i32 {
    real!(fd < BASE, "bind", extern "C" fn(i32, *const u8, u32) -> i32, (fd, a, l));
    let _ = (a, l);
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, lv: i32, o: i32, v: *const u8, l: u32) -> i32 {
    real!(fd < BASE, "setsockopt", extern "C" fn(i32, i32, i32, *const u8, u32) -> i32, (fd, lv, o, v, l));
    // SOL_SOCKET: SO_RCVTIMEO 20, SO_SNDTIMEO 21
    if lv == 1 && (o == 20 || o == 21) {
        // As configured by the harnesses: two and three seconds.
        let t = (v as *const u64).read_unaligned();
        if l == 16 && t == o as u64 - 18 && (v as *const u64).add(1).read_unaligned() == 0 {
            TIMEOUTS |= 1 << (o - 20);
        }
    }
    let _ = (v, l);
    0
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    real!(fd < BASE, "close", extern "C" fn(i32) -> i32, (fd));
    CLOSED += 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, c: i32, a: usize) -> i32 {
    real!(fd < BASE, "fcntl", extern "C" fn(i32, i32, usize) -> i32, (fd, c, a));
    let _ = (c, a);
    0
}
unsafe fn addr_of(a: *const u8) -> ([u8; 4], u16) {
    ([*a.add(4), *a.add(5), *a.add(6), *a.add(7)], ((*a.add(2) as u16) << 8) | *a.add(3) as u16)
}
unsafe fn send_any(b: *const u8, n: usize, to: Option<([u8; 4], u16)>) -> isize {
    match to {
        Some((ip, port)) if SEND(std::slice::from_raw_parts(b, n), ip, port) => n as isize,
        _ => fail(101), // ENETUNREACH
    }
}
unsafe fn recv_any(b: *mut u8, n: usize) -> Option<(usize, [u8; 4], u16)> {
    // A datagram dropped by the system leaves the caller waiting for the next one.
    for _ in 0..2 {
        let (d, ip, port) = RECV()?;
        if PEER.is_some_and(|p| p != (ip, port)) {
            continue;
        }
        let k = n.min(d.len());
        std::ptr::copy_nonoverlapping(d.as_ptr(), b, k);
        return Some((k, ip, port));
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, a: *const u8, l: u32) -> i32 {
    real!(fd < BASE, "connect", extern "C" fn(i32, *const u8, u32) -> i32, (fd, a, l));
    let _ = l;
    PEER = Some(addr_of(a));
    0
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: i32, b: *const u8, n: usize, fl: i32, a: *const u8, l: u32) -> isize {
    real!(fd < BASE, "sendto", extern "C" fn(i32, *const u8, usize, i32, *const u8, u32) -> isize, (fd, b, n, fl, a, l));
    let _ = (fl, l);
    send_any(b, n, Some(addr_of(a)))
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, b: *const u8, n: usize, fl: i32) -> isize {
    real!(fd < BASE, "send", extern "C" fn(i32, *const u8, usize, i32) -> isize, (fd, b, n, fl));
    let _ = fl;
    send_any(b, n, PEER)
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, b: *mut u8, n: usize, fl: i32) -> isize {
    real!(fd < BASE, "recv", extern "C" fn(i32, *mut u8, usize, i32) -> isize, (fd, b, n, fl));
    let _ = fl;
    match recv_any(b, n) {
        None => fail(11), // EAGAIN
        Some((k, ..)) => k as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: i32, b: *mut u8, n: usize, fl: i32, a: *mut u8, l: *mut u32) -> isize {
    real!(fd < BASE, "recvfrom", extern "C" fn(i32, *mut u8, usize, i32, *mut u8, *mut u32) -> isize, (fd, b, n, fl, a, l));
    let _ = fl;
    match recv_any(b, n) {
        None => fail(11), // EAGAIN
        Some((k, ip, port)) => {
            *a = 2;
            *a.add(1) = 0;
            *a.add(2) = (port >> 8) as u8;
            *a.add(3) = port as u8;
            for i in 0..4 {
                *a.add(4 + i) = ip[i];
            }
            for i in 8..16 {
                *a.add(i) = 0;
            }
            *l = 16;
            k as isize
        }
    }
}
/// The standard output is no terminal.
#[no_mangle]
pub extern "C" fn isatty(_: i32) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(_: i32, b: *mut u8, n: usize) -> i32 {
    if n < 6 {
        return 34;
    }
    core::ptr::copy_nonoverlapping(b"error\0".as_ptr(), b, 6);
    0
}
