//! An in-memory file system in place of open/read/close, both under the symbolic
//! engine and natively. Natively the calls go to libc except while a harness runs.
use std::sync::atomic::{AtomicBool, Ordering};

struct F {
    path: &'static [u8],
    data: Vec<u8>,
    pos: usize,
}
static ON: AtomicBool = AtomicBool::new(false);
static mut FILES: Vec<F> = Vec::new();
/// Open files: index of the file and position, by descriptor - BASE.
static mut OPEN: Vec<(usize, usize)> = Vec::new();
const BASE: i32 = 5000;

#[allow(static_mut_refs)]
pub fn add(path: &'static str, data: Vec<u8>) {
    unsafe { FILES.push(F { path: path.as_bytes(), data, pos: 0 }) }
    ON.store(true, Ordering::SeqCst);
}
/// Whether a descriptor is one of an open file.
#[allow(static_mut_refs)]
pub fn opened(fd: i32) -> bool {
    fd >= BASE && fd < BASE + unsafe { OPEN.len() } as i32
}
pub fn done() {
    ON.store(false, Ordering::SeqCst);
}

#[cfg(feature = "native")]
extern "C" {
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
}
extern "C" {
    fn __errno_location() -> *mut i32;
}

#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    #[cfg(feature = "native")]
    if !ON.load(Ordering::SeqCst) {
        let f: extern "C" fn(*const u8, i32, u32) -> i32 = std::mem::transmute(dlsym(usize::MAX as *mut u8, b"open64\0".as_ptr()));
        return f(path, flags, mode);
    }
    let _ = (flags, mode);
    for (i, f) in FILES.iter().enumerate() {
        let mut k = 0;
        while k < f.path.len() && *path.add(k) == f.path[k] {
            k += 1;
        }
        if k == f.path.len() && *path.add(k) == 0 {
            if OPEN.len() > 64 {
                *__errno_location() = 24; // EMFILE
                return -1;
            }
            OPEN.push((i, f.pos));
            return BASE + OPEN.len() as i32 - 1;
        }
    }
    *__errno_location() = 2;
    -1
}

#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if opened(fd) {
        let o = &mut OPEN[(fd - BASE) as usize];
        let d = &FILES[o.0].data;
        let k = n.min(d.len() - o.1);
        std::ptr::copy_nonoverlapping(d.as_ptr().add(o.1), buf, k);
        o.1 += k;
        return k as isize;
    }
    #[cfg(feature = "native")]
    {
        let f: extern "C" fn(i32, *mut u8, usize) -> isize = std::mem::transmute(dlsym(usize::MAX as *mut u8, b"read\0".as_ptr()));
        return f(fd, buf, n);
    }
    #[cfg(not(feature = "native"))]
    -1
}

#[cfg(not(feature = "host"))]
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd >= BASE {
        return 0;
    }
    #[cfg(feature = "native")]
    {
        let f: extern "C" fn(i32) -> i32 = std::mem::transmute(dlsym(usize::MAX as *mut u8, b"close\0".as_ptr()));
        return f(fd);
    }
    #[cfg(not(feature = "native"))]
    0
}

#[cfg(not(feature = "host"))]
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if fd >= BASE {
        return 0;
    }
    #[cfg(feature = "native")]
    {
        let f: extern "C" fn(i32, i32, usize) -> i32 = std::mem::transmute(dlsym(usize::MAX as *mut u8, b"fcntl\0".as_ptr()));
        return f(fd, cmd, arg);
    }
    #[cfg(not(feature = "native"))]
    {
        let _ = (cmd, arg);
        -1
    }
}

#[cfg(feature = "host")]
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn statx(fd: i32, _: *const u8, _: i32, _: u32, out: *mut u8) -> i32 {
    if !opened(fd) {
        *__errno_location() = 38; // ENOSYS
        return -1;
    }
    for i in 0..256 {
        *out.add(i) = 0;
    }
    *(out as *mut u32) = 0x7ff; // stx_mask
    *(out.add(28) as *mut u16) = 0o100644; // stx_mode
    *(out.add(40) as *mut u64) = FILES[OPEN[(fd - BASE) as usize].0].data.len() as u64;
    0
}
#[cfg(feature = "host")]
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if !opened(fd) || off != 0 || whence != 1 {
        *__errno_location() = 22;
        return -1;
    }
    OPEN[(fd - BASE) as usize].1 as i64
}
#[cfg(feature = "host")]
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(_: i32, b: *mut u8, n: usize) -> i32 {
    let m = b"some error\0";
    for i in 0..n.min(m.len()) {
        *b.add(i) = m[i];
    }
    0
}
