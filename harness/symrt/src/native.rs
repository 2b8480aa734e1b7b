pub struct Rt {
    pub vals: Vec<u64>,
    pub pos: usize,
    pub log: Vec<u64>,
    pub covers: Vec<String>,
    pub panic_ok: bool,
    pub active: bool,
}
// Only one thread of a harness runs at a time: no lock, so that replays take the same steps.
static mut RT: Rt = Rt { vals: vec![], pos: 0, log: vec![], covers: vec![], panic_ok: false, active: false };
#[allow(static_mut_refs)]
fn rt() -> &'static mut Rt {
    unsafe { &mut RT }
}
pub fn active() -> bool {
    rt().active
}

// Straight to the system: a harness may have replaced libc's write, and a thread that is
// not running may hold the lock of std's standard output.
fn finish(outcome: &str) -> ! {
    let r = rt();
    let mut t = String::new();
    for v in &r.log {
        t += &format!("LOG {}\n", v);
    }
    for c in &r.covers {
        t += &format!("COVER {}\n", c);
    }
    t += &format!("OUTCOME {}\n", outcome);
    unsafe {
        let write: extern "C" fn(i32, *const u8, usize) -> isize = std::mem::transmute(dlsym(usize::MAX as *mut u8, b"write\0".as_ptr()));
        let mut b = t.as_bytes();
        while !b.is_empty() {
            let n = write(1, b.as_ptr(), b.len());
            if n <= 0 {
                break;
            }
            b = &b[n as usize..];
        }
        exit_now(0)
    }
}

extern "C" {
    fn _exit(c: i32) -> !;
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
}
unsafe fn exit_now(c: i32) -> ! {
    _exit(c)
}

#[no_mangle]
pub extern "C" fn sym_var(width: u32) -> u64 {
    let r = rt();
    if r.pos >= r.vals.len() {
        finish("exhausted");
    }
    let v = r.vals[r.pos];
    r.pos += 1;
    if width < 64 {
        v & ((1u64 << width) - 1)
    } else {
        v
    }
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        finish("assume-failed");
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_assert(c: bool, msg: *const u8, len: usize) {
    if !c {
        let m = std::str::from_utf8_unchecked(std::slice::from_raw_parts(msg, len));
        finish(&format!("assert {}", m));
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_cover(msg: *const u8, len: usize) {
    let m = std::str::from_utf8_unchecked(std::slice::from_raw_parts(msg, len)).to_string();
    rt().covers.push(m);
}
#[no_mangle]
pub extern "C" fn sym_log(v: u64) {
    rt().log.push(v);
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sym_select(c: bool, a: u64, b: u64) -> u64 {
    if c { a } else { b }
}
#[no_mangle]
pub extern "C" fn sym_and(a: bool, b: bool) -> bool {
    a & b
}
#[no_mangle]
pub extern "C" fn sym_or(a: bool, b: bool) -> bool {
    a | b
}
#[no_mangle]
pub extern "C" fn sym_panic_ok(v: u32) {
    rt().panic_ok = v != 0;
}
#[no_mangle]
pub unsafe extern "C" fn sym_bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool {
    std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)
}

/// Entry point of the replay binaries: `replay <harness> <values file>`, the
/// values file being whitespace separated decimal u64 numbers.
pub fn main(table: &[(&str, extern "C" fn())]) {
    let args: Vec<String> = std::env::args().collect();
    let name = &args[1];
    let vals: Vec<u64> = std::fs::read_to_string(&args[2])
        .unwrap()
        .split_whitespace()
        .map(|x| x.parse().unwrap())
        .collect();
    let f = table.iter().find(|(n, _)| n == name).expect("unknown harness").1;
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let ok = rt().panic_ok;
        finish(&format!("{} {}", if ok { "panic-ok" } else { "panic" }, loc));
    }));
    {
        let r = rt();
        r.vals = vals;
        r.active = true;
    }
    f();
    rt().active = false;
    finish("ok");
}

#[no_mangle]
pub extern "C" fn sym_param(i: u32, default: u64) -> u64 {
    match std::env::var("VP_PARAMS") {
        Ok(s) => s.split(',').nth(i as usize).and_then(|x| x.parse().ok()).unwrap_or(default),
        Err(_) => default,
    }
}
