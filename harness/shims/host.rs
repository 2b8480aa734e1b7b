//! The network as a server sees it: sockets, connections and what arrives on them, both
//! under the symbolic engine and natively. Works with the scheduler in sched.rs: what is
//! not there yet is waited for.
use super::sched;

pub type Addr = (Vec<u8>, u16);
#[derive(Clone)]
pub enum In {
    /// A datagram, or some bytes of a stream.
    Data(Vec<u8>, Addr),
    /// A new connection: index in OBJ.
    Conn(usize, Addr),
    Err(i32),
    /// The peer closed the stream.
    Eof,
    /// Nothing more comes for this many nanoseconds.
    Pause(u64),
}
pub struct Obj {
    pub stream: bool,
    pub v6: bool,
    pub bound: Option<Addr>,
    pub listening: bool,
    pub peer: Option<Addr>,
    pub inbox: Vec<In>,
    /// Datagrams sent (stream: pieces sent), with the destination.
    pub sent: Vec<(Vec<u8>, Addr)>,
    /// What the next sends do: n bytes taken, or the error -n; -11 (the peer takes nothing more)
    /// stays, and each such send lasts as long as the timeout.
    pub take: Vec<i64>,
    pub rtimeout: u64,
    pub wtimeout: u64,
    pub refs: u32,
    pub shut: bool,
    pub nonblock: bool,
    /// Bytes read by the server from the stream.
    pub nread: usize,
    /// Whether a timeout was not set when first used.
    pub untimed: bool,
}
const BASE: i32 = 6000;
static mut ON: bool = false;
static mut FDS: Vec<usize> = Vec::new();
static mut OBJ: Vec<Obj> = Vec::new();
/// Errors of the next bind calls, by protocol.
pub static mut BIND: [i32; 2] = [0; 2];
pub static mut DUP_FAIL: u32 = 0;
/// How many of the next timeouts cannot be set.
pub static mut OPT_FAIL: u32 = 0;
/// What has already arrived when a server starts, by protocol: datagrams, or what a client sends.
pub static mut EARLY: [Option<(Vec<u8>, Addr)>; 2] = [None, None];
/// The rest of the world: what answers a datagram sent to this address.
pub static mut WORLD: Option<fn(&Addr, &[u8]) -> Option<Vec<u8>>> = None;
/// How long answers of the world take.
pub static mut LATENCY: u64 = 0;
/// What was written to the standard output and error.
pub static mut OUT: usize = 0;

#[allow(static_mut_refs)]
fn fds() -> &'static mut Vec<usize> {
    unsafe { &mut FDS }
}
#[allow(static_mut_refs)]
pub fn objs() -> &'static mut Vec<Obj> {
    unsafe { &mut OBJ }
}
fn at(fd: i32) -> usize {
    fds()[(fd - BASE) as usize]
}
fn obj(fd: i32) -> &'static mut Obj {
    &mut objs()[at(fd)]
}
pub fn start() {
    unsafe { ON = true }
}
pub fn done() {
    unsafe { ON = false }
}
fn new_obj(stream: bool, v6: bool) -> usize {
    objs().push(Obj {
        stream, v6, bound: None, listening: false, peer: None, inbox: vec![], sent: vec![], take: vec![],
        rtimeout: 0, wtimeout: 0, refs: 0, shut: false, nonblock: false, nread: 0, untimed: false,
    });
    objs().len() - 1
}
fn new_fd(o: usize) -> i32 {
    objs()[o].refs += 1;
    fds().push(o);
    BASE + fds().len() as i32 - 1
}
/// The socket bound to an address, listening if it is a stream socket.
pub fn server(stream: bool, port: u16) -> Option<usize> {
    objs().iter().position(|o| o.stream == stream && o.refs > 0 && (!stream || o.listening) && o.bound.as_ref().is_some_and(|b| b.1 == port))
}
/// Something arrives.
pub fn push(o: usize, x: In) {
    objs()[o].inbox.push(x);
    sched::wake(o);
}
/// A client connects, and sends what `inbox` says. The number of the connection.
pub fn client(server: usize, inbox: Vec<In>, from: Addr) -> usize {
    let c = new_obj(true, from.0.len() == 16);
    objs()[c].inbox = inbox;
    objs()[c].peer = Some(from.clone());
    push(server, In::Conn(c, from));
    c
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn fail(e: i32) -> isize {
    *__errno_location() = e;
    -1
}
unsafe fn addr_of(a: *const u8) -> Addr {
    let port = ((*a.add(2) as u16) << 8) | *a.add(3) as u16;
    let (o, n) = if *a == 10 { (8, 16) } else { (4, 4) };
    (std::slice::from_raw_parts(a.add(o), n).to_vec(), port)
}
unsafe fn put_addr(x: &Addr, a: *mut u8, l: *mut u32) {
    if a.is_null() {
        return;
    }
    let n = if x.0.len() == 16 { 28 } else { 16 };
    for i in 0..n {
        *a.add(i) = 0;
    }
    *a = if n == 28 { 10 } else { 2 };
    *a.add(2) = (x.1 >> 8) as u8;
    *a.add(3) = x.1 as u8;
    for (i, b) in x.0.iter().enumerate() {
        *a.add(i + if n == 28 { 8 } else { 4 }) = *b;
    }
    *l = n as u32;
}
#[no_mangle]
pub unsafe extern "C" fn socket(d: i32, t: i32, p: i32) -> i32 {
    let _ = p;
    let o = new_obj(t & 15 == 1, d == 10);
    new_fd(o)
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: i32, a: *const u8, l: u32) -> i32 {
    let _ = l;
    let a = addr_of(a);
    let o = obj(fd);
    let e = BIND[o.stream as usize];
    if e != 0 && a.1 != 0 {
        return fail(e) as i32;
    }
    if a.0.len() == 16 && !o.v6 || a.0.len() == 4 && o.v6 {
        return fail(97) as i32;
    }
    o.bound = Some(a);
    if !o.stream {
        if let Some((d, from)) = EARLY[0].take() {
            o.inbox.push(In::Data(d, from));
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: i32, n: i32) -> i32 {
    let _ = n;
    obj(fd).listening = true;
    if let Some((d, from)) = EARLY[1].take() {
        client(at(fd), vec![In::Data(d, from.clone())], from);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, lv: i32, o: i32, v: *const u8, l: u32) -> i32 {
    // SOL_SOCKET: SO_RCVTIMEO 20, SO_SNDTIMEO 21
    if lv == 1 && (o == 20 || o == 21) && l == 16 {
        if OPT_FAIL > 0 {
            OPT_FAIL -= 1;
            return fail(22) as i32;
        }
        let t = *(v as *const u64) * 1_000_000_000 + *(v as *const u64).add(1) * 1000;
        if o == 20 {
            obj(fd).rtimeout = t
        } else {
            obj(fd).wtimeout = t
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: i32, lv: i32, o: i32, v: *mut u8, l: *mut u32) -> i32 {
    let t = match o {
        20 => obj(fd).rtimeout,
        21 => obj(fd).wtimeout,
        _ => 0,
    };
    let _ = lv;
    if *l == 16 {
        *(v as *mut u64) = t / 1_000_000_000;
        *(v as *mut u64).add(1) = t % 1_000_000_000 / 1000;
    } else {
        *(v as *mut u32) = 0;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, r: u64, v: *const i32) -> i32 {
    // FIONBIO
    if r == 0x5421 {
        obj(fd).nonblock = *v != 0;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: i32, a: *mut u8, l: *mut u32) -> i32 {
    match &obj(fd).bound {
        Some(x) => put_addr(x, a, l),
        None => put_addr(&(vec![0; 4], 0), a, l),
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: i32, a: *mut u8, l: *mut u32) -> i32 {
    match &obj(fd).peer {
        Some(x) => put_addr(x, a, l),
        None => return fail(107) as i32,
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: i32, how: i32) -> i32 {
    if how != 0 {
        obj(fd).shut = true;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut u8, n: u64, t: i32) -> i32 {
    let _ = (p, n, t);
    0
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if ON && super::files::opened(fd) {
        return 0;
    }
    obj(fd).refs -= 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, c: i32, a: usize) -> i32 {
    if ON && super::files::opened(fd) {
        return 0;
    }
    let _ = a;
    // F_DUPFD 0, F_DUPFD_CLOEXEC 1030
    if c == 0 || c == 1030 {
        if DUP_FAIL > 0 {
            DUP_FAIL -= 1;
            return fail(24) as i32;
        }
        return new_fd(at(fd));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, a: *const u8, l: u32) -> i32 {
    let _ = l;
    let to = addr_of(a);
    let me = (if to.0.len() == 16 { vec![0; 16] } else { vec![127, 0, 0, 1] }, 45000);
    if obj(fd).stream {
        match reach(true, obj(fd).v6, &to) {
            Some(s) => {
                client(s, vec![], me);
            }
            None => return fail(111) as i32, // ECONNREFUSED
        }
    }
    obj(fd).peer = Some(to);
    0
}
/// The server socket that something sent to this address reaches.
fn reach(stream: bool, v6: bool, to: &Addr) -> Option<usize> {
    objs().iter().position(|o| {
        o.stream == stream && o.refs > 0 && o.v6 == v6 && (!stream || o.listening)
            && o.bound.as_ref().is_some_and(|b| b.1 != 0 && (b.0[0] == to.0[0] || b.0[0] == 0) && b.1 == to.1 && (b.0 == to.0 || b.0.iter().all(|x| *x == 0)))
    })
}
/// Takes the next thing that arrives, waiting for it.
unsafe fn next(o: usize, peek: bool) -> Result<In, i32> {
    sched::point();
    let t = objs()[o].rtimeout;
    let until = if t == 0 { sched::NEVER } else { sched::now() + t };
    loop {
        let x = &mut objs()[o];
        match x.inbox.first().cloned() {
            None => {
                if x.nonblock || !sched::block(o, until) {
                    return Err(11); // EAGAIN
                }
            }
            // A connected socket only gets what its peer sends.
            Some(In::Data(_, from)) if !x.stream && x.peer.as_ref().is_some_and(|p| *p != from) => {
                x.inbox.remove(0);
            }
            Some(In::Pause(n)) => {
                if x.nonblock {
                    return Err(11);
                }
                if until != sched::NEVER && sched::now() + n >= until {
                    x.inbox[0] = In::Pause(sched::now() + n - until);
                    sched::sleep_until(until);
                    return Err(11);
                }
                x.inbox.remove(0);
                sched::sleep_until(sched::now() + n);
            }
            Some(In::Eof) => return Ok(In::Eof),
            Some(In::Err(e)) => {
                x.inbox.remove(0);
                return Err(e);
            }
            Some(d) => {
                if !peek {
                    x.inbox.remove(0);
                }
                return Ok(d);
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: i32, a: *mut u8, l: *mut u32, fl: i32) -> i32 {
    let _ = fl;
    match next(at(fd), false) {
        Ok(In::Conn(c, from)) => {
            put_addr(&from, a, l);
            new_fd(c)
        }
        Ok(_) => fail(22) as i32,
        Err(e) => fail(e) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: i32, b: *mut u8, n: usize, fl: i32, a: *mut u8, l: *mut u32) -> isize {
    let _ = fl;
    if obj(fd).stream {
        return recv(fd, b, n, fl);
    }
    match next(at(fd), fl & 2 == 2) {
        Ok(In::Data(d, from)) => {
            let k = n.min(d.len());
            std::ptr::copy_nonoverlapping(d.as_ptr(), b, k);
            put_addr(&from, a, l);
            k as isize
        }
        Ok(_) => fail(22),
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, b: *mut u8, n: usize, fl: i32) -> isize {
    let _ = fl;
    let o = at(fd);
    if objs()[o].rtimeout == 0 {
        objs()[o].untimed = true;
    }
    if n == 0 {
        return 0;
    }
    match next(o, fl & 2 == 2) {
        Ok(In::Data(d, from)) => {
            let k = n.min(d.len());
            std::ptr::copy_nonoverlapping(d.as_ptr(), b, k);
            if fl & 2 == 2 {
                return k as isize;
            }
            objs()[o].nread += k;
            if objs()[o].stream && k < d.len() {
                objs()[o].inbox.insert(0, In::Data(d[k..].to_vec(), from));
            }
            k as isize
        }
        Ok(In::Eof) => 0,
        Ok(_) => fail(22),
        Err(e) => fail(e),
    }
}
unsafe fn sent(o: usize, b: *const u8, n: usize, to: Addr) -> isize {
    sched::point();
    let x = &mut objs()[o];
    if x.wtimeout == 0 {
        x.untimed = true;
    }
    let mut k = n;
    if !x.take.is_empty() {
        let t = x.take[0];
        if t == -11 {
            if !x.nonblock {
                sched::sleep_until(if x.wtimeout == 0 { sched::NEVER } else { sched::now() + x.wtimeout });
            }
            return fail(11);
        }
        x.take.remove(0);
        if t < 0 {
            return fail(-t as i32);
        }
        k = n.min(t as usize);
    }
    let d = std::slice::from_raw_parts(b, k).to_vec();
    if !x.stream {
        if let Some(s) = reach(false, x.v6, &to) {
            let me = (if to.0.len() == 16 { vec![0; 16] } else { vec![127, 0, 0, 1] }, 45001);
            push(s, In::Data(d.clone(), me));
        } else if let (Some(w), true) = (WORLD, x.bound.as_ref().is_some_and(|b| b.1 == 0)) {
            let r = w(&to, &d);
            objs()[o].sent.push((d, to.clone()));
            if let Some(r) = r {
                if LATENCY > 0 {
                    push(o, In::Pause(LATENCY));
                }
                push(o, In::Data(r, to));
            }
            return k as isize;
        }
    }
    objs()[o].sent.push((d, to));
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: i32, b: *const u8, n: usize, fl: i32, a: *const u8, l: u32) -> isize {
    let _ = (fl, l);
    let to = addr_of(a);
    if to.0.len() == 16 && !obj(fd).v6 {
        return fail(97); // EAFNOSUPPORT
    }
    sent(at(fd), b, n, to)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, b: *const u8, n: usize, fl: i32) -> isize {
    let _ = fl;
    match obj(fd).peer.clone() {
        Some(to) => sent(at(fd), b, n, to),
        None => fail(107),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    let _ = b;
    if fd < 3 {
        OUT += n;
        return n as isize;
    }
    if fd >= BASE {
        return send(fd, b, n, 0);
    }
    fail(9)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const (usize, usize), n: i32) -> isize {
    let mut k = 0;
    for i in 0..n as usize {
        let (p, l) = *v.add(i);
        if l == 0 {
            continue;
        }
        let r = write(fd, p as *const u8, l);
        if r < 0 {
            return if k > 0 { k } else { r };
        }
        k += r;
        if r < l as isize {
            break;
        }
    }
    k
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const (usize, usize), n: i32) -> isize {
    for i in 0..n as usize {
        let (p, l) = *v.add(i);
        if l > 0 {
            return recv(fd, p as *mut u8, l, 0);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_: i32) -> i32 {
    0
}
