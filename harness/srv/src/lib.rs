//! Harnesses for what runs in threads: the thread pool, the servers and the cache.
#![allow(static_mut_refs)]
use ariadne_dns::shared::dns::*;
use ariadne_dns::shared::net::*;
use ariadne_dns::shared::thread_pool::ThreadPool;
use std::sync::Arc;
use std::time::Duration;
use symrt::*;
#[path = "../../shims/files.rs"]
mod files;
#[allow(dead_code)]
#[path = "../../shims/host.rs"]
mod host;
#[allow(dead_code)]
#[path = "../../shims/sched.rs"]
mod sched;

mod conf;
mod look;
mod mains;
mod shared;
use conf::*;
use host::{Addr, In};

const SEC: u64 = 1_000_000_000;

/// What the handler saw and what became of its replies.
struct Seen {
    id: u16,
    /// 0: a message, 1: only its header, 2: not even that, 3: nothing.
    what: u8,
    replied: Option<bool>,
}
static mut SEEN: Vec<Seen> = Vec::new();
/// How many requests were given to the handler.
static mut STARTED: usize = 0;
/// How long the handler takes, and the TXT data it adds to its replies.
static mut WORK: u64 = 0;
static mut TXTS: (usize, usize) = (0, 0);
/// How much longer the first one is.
static mut PLUS: usize = 0;

/// Replies with the question and some records whose TTL is the id.
struct Echo;
impl DnsHandler for Echo {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        unsafe { BUSY += 1 };
        self.echo(req, resp);
        unsafe { BUSY -= 1 };
    }
}
impl Echo {
    fn echo<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        unsafe { STARTED += 1 };
        let (m, what) = match req.read() {
            DnsReadResult::FullMessage(m) => (Some(m), 0),
            DnsReadResult::HeaderOnly(..) => (None, 1),
            DnsReadResult::ParseErr(..) => (None, 2),
            DnsReadResult::IoErr(_) => (None, 3),
        };
        let k = unsafe {
            SEEN.push(Seen { id: m.as_ref().map_or(0, |m| m.id()), what, replied: None });
            SEEN.len() - 1
        };
        let mut m = match m {
            Some(m) => m,
            None => return,
        };
        unsafe {
            if WORK > 0 {
                sched::sleep_until(sched::now() + WORK);
            }
            m.header.query_resp = true;
            m.header.additionals_count = 0;
            m.additionals.clear();
            m.header.answers_count = TXTS.0 as u16;
            for i in 0..TXTS.0 {
                let node = m.questions[0].node.clone();
                let l = TXTS.1 + if i == 0 { PLUS } else { 0 };
                m.answers.push(Record::TXT { class: Class::IN, data_len: l as u16 + 1, ttl: m.header.id as u32, node, txts: vec!["x".repeat(l)] });
            }
            SEEN[k].replied = Some(resp.reply(m).is_ok());
        }
    }
}
/// A query for the address of a one-letter name.
fn query(id: u16, name: u8) -> Vec<u8> {
    let mut v = vec![(id >> 8) as u8, id as u8, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0];
    v.extend_from_slice(&[1, name, 1, b'z', 0, 0, 1, 0, 1]);
    v
}
/// A query filled up to `len` bytes with a TXT record in its additional section.
fn full_query(id: u16, name: u8, len: usize) -> Vec<u8> {
    let mut v = query(id, name);
    v[11] = 1;
    let l = len - v.len() - 11;
    v.extend_from_slice(&[0, 0, 16, 0, 1, 0, 0, 0, 0, (l >> 8) as u8, l as u8]);
    while v.len() < len {
        let n = (len - v.len() - 1).min(255);
        v.push(n as u8);
        v.resize(v.len() + n, b'y');
    }
    v
}
/// The handler's reply to it, cut to whole records within `max` bytes.
fn reply(id: u16, name: u8, max: usize) -> Vec<u8> {
    let mut v = query(id, name);
    v[2] |= 0x80;
    let n = unsafe { TXTS.0 };
    let mut k = 0;
    while k < n {
        let l = unsafe { TXTS.1 + if k == 0 { PLUS } else { 0 } };
        if v.len() + 5 + 10 + 1 + l > max {
            break;
        }
        v.extend_from_slice(&[1, name, 1, b'z', 0, 0, 16, 0, 1, 0, 0, (id >> 8) as u8, id as u8, ((l + 1) >> 8) as u8, (l + 1) as u8, l as u8]);
        v.extend_from_slice(&vec![b'x'; l]);
        k += 1;
    }
    v[6] = (k >> 8) as u8;
    v[7] = k as u8;
    if k < n {
        v[2] |= 2;
    }
    v
}
fn addr(k: u64) -> Addr {
    match k {
        0 => (vec![192, 0, 2, 1], 4000),
        1 => (vec![192, 0, 2, 1], 4001),
        _ => (vec![192, 0, 2, 2], 4000),
    }
}
/// When nothing can go on without time passing: whatever arrived is served, unless all
/// threads are busy.
fn check_serving(s: usize, arrived: usize, threads: usize) {
    check(host::objs()[s].inbox.is_empty(), "what arrives is taken at once");
    unsafe { check(STARTED == arrived || BUSY == threads, "as many requests are served at a time as there are threads") };
}
/// Any address of a client.
fn any_addr(v6: bool) -> Addr {
    let mut a = if v6 { vec![0x20; 16] } else { vec![192, 0, 2, 1] };
    *a.last_mut().unwrap() = u8v();
    (a, u16v())
}
static mut ENDED: u32 = 0;
static mut END_AT: u64 = 0;
/// Requests still under way when the servers ended.
static mut END_BUSY: usize = 0;
const TCP: u16 = 5300;
/// Starts the servers in a thread of their own and waits until they listen.
fn serve<H: DnsHandler>(h: H, (ua, up): (&str, u16), (ta, tp): (&str, u16), threads: usize) {
    let udp = UdpParams { address: ua.to_string(), port: up, write_timeout: Duration::new(3, 0), threads };
    let tcp = TcpParams { address: ta.to_string(), port: tp, write_timeout: Duration::new(4, 0), read_timeout: Duration::new(5, 0), threads };
    let h = Arc::new(h);
    std::thread::spawn(move || {
        start_servers(h, udp, tcp);
        unsafe {
            ENDED += 1;
            END_AT = sched::now();
            END_BUSY = BUSY + host::objs().iter().filter(|o| o.refs > 0).count();
        }
    });
    sched::idle();
}

static mut RUNS: [u32; 8] = [0; 8];
static mut ORDER: Vec<usize> = Vec::new();
static mut BUSY: usize = 0;
static mut MAX_BUSY: usize = 0;

harnesses! {
    /// Jobs given to a pool of threads: each runs exactly once, on any free thread, and the
    /// pool ends after all of them.
    fn h_pool() {
        let size = 1 + choose(param(1, 2)) as usize;
        let jobs = choose(param(0, 3) + 1) as usize;
        // Which jobs take long.
        let long = choose(1 << jobs);
        // Whether time passes between giving the jobs, or even a long time.
        let gap = choose(3);
        sched::start(param(2, 1));
        let pool = ThreadPool::new(size, "jobs");
        check(sched::threads().0 == size, "the threads are started with the pool");
        for j in 0..jobs {
            pool.execute(move || unsafe {
                RUNS[j] += 1;
                ORDER.push(j);
                BUSY += 1;
                MAX_BUSY = MAX_BUSY.max(BUSY);
                if long >> j & 1 == 1 {
                    sched::sleep_until(sched::now() + 1_000_000_000);
                }
                BUSY -= 1;
            });
            if gap > 0 {
                sched::idle();
            }
            if gap > 1 {
                cover("idle for long");
                sched::sleep_until(sched::now() + 300 * SEC + SEC / 50);
            }
        }
        sched::idle();
        // No job waits while a thread is free.
        unsafe {
            let started = ORDER.len();
            check(started == jobs || BUSY == size, "no job waits while a thread is free");
            if started < jobs {
                cover("all busy");
            }
            if gap > 0 || size == 1 {
                for k in 0..started {
                    check(ORDER[k] == k, "jobs start in order");
                }
            }
        }
        drop(pool);
        unsafe {
            check(sched::threads().1 == 0, "the threads end with the pool");
            check(BUSY == 0, "a job is cut short");
            for j in 0..8 {
                check(RUNS[j] == (j < jobs) as u32, "every job runs exactly once");
            }
            if MAX_BUSY == size && size > 1 {
                cover("concurrent");
            }
        }
        sched::done();
    }
}
/// Every query that arrives by UDP, whatever else happens, is answered once, to its sender.
#[no_mangle]
pub extern "C" fn h_udp() {
    let threads = 1 + choose(2) as usize;
    let n = param(0, 2);
    let deviations = param(1, 1);
    // Fewer kinds of events where schedules are explored.
    let few = deviations > 0;
    sched::start(0);
    host::start();
    let v6 = few && choose(2) == 1;
    serve(Echo, (if v6 { "::1" } else { "127.0.0.1" }, 53), ("127.0.0.1", TCP), threads);
    let s = host::server(false, 53).unwrap_or_else(|| {
        check(false, "the UDP server listens");
        0
    });
    unsafe {
        WORK = choose(2) * SEC;
        TXTS = match if few { 1 } else { choose(3) } {
            0 => (0, 0),
            1 => (1, 200),
            _ => (4, 200),
        };
    }
    sched::budget(deviations);
    // Sending the first reply may fail, or all of them.
    let fails = if few || unsafe { WORK > 0 } { 0 } else { choose(3) };
    host::objs()[s].take = [vec![], vec![-1], vec![-11]][fails as usize].clone();
    let mut want: Vec<(Vec<u8>, Addr)> = vec![];
    let mut seen = [0; 3];
    for k in 0..n {
        let id = u16v();
        let name = b'a' + k as u8;
        let from = any_addr(v6);
        // All kinds for the first datagram.
        let few = few || k > 0;
        match choose(if few { 2 } else { 7 }) {
            0 => {
                host::push(s, In::Data(query(id, name), from.clone()));
                want.push((reply(id, name, 512), from));
                seen[0] += 1;
            }
            5 => {
                // As big as a query may be.
                host::push(s, In::Data(full_query(id, name, 512), from.clone()));
                want.push((reply(id, name, 512), from));
                seen[0] += 1;
            }
            6 => {
                // One byte more: the last record is cut.
                host::push(s, In::Data(full_query(id, name, 513), from));
                seen[1] += 1;
            }
            1 => {
                // Something that is no DNS message.
                let l = if few { 11 } else { choose(2) as usize * 11 };
                host::push(s, In::Data(bytes_vec(l), from));
                seen[2] += 1;
            }
            2 => {
                // Only a header.
                let mut q = query(id, name);
                q.truncate(14);
                host::push(s, In::Data(q, from));
                seen[1] += 1;
            }
            3 => host::push(s, In::Err([111, 4, 11][choose(3) as usize])),
            _ => {
                // Something bigger than any query; it is cut.
                let mut q = query(id, name);
                q.resize(513 + choose(2) as usize * 100, 0);
                host::push(s, In::Data(q, from.clone()));
                want.push((reply(id, name, 512), from));
                seen[0] += 1;
            }
        }
        if choose(2) == 1 {
            sched::idle();
            check_serving(s, seen.iter().sum(), threads);
        }
    }
    sched::budget(0);
    sched::idle();
    check_serving(s, seen.iter().sum(), threads);
    sched::sleep_until(sched::now() + 300 * SEC);
    unsafe { check(SEEN.iter().all(|x| x.what > 0 || x.replied.is_some()), "sending is limited in time") };
    host::objs()[s].take.clear();
    // Much later.
    host::push(s, In::Data(query(9, b'z'), addr(0)));
    want.push((reply(9, b'z', 512), addr(0)));
    seen[0] += 1;
    sched::idle();
    sched::sleep_until(sched::now() + 10 * SEC);
    unsafe {
        check(ENDED == 0, "the service goes on");
        for w in 0..3 {
            check(SEEN.iter().filter(|x| x.what == w as u8).count() == seen[w], "each datagram is handled once");
        }
        let failed = SEEN.iter().filter(|x| x.what == 0 && x.replied == Some(false)).count();
        check(failed <= if fails < 2 { fails as usize } else { want.len() - 1 }, "replying works");
        check(host::objs()[s].sent.len() == want.len() - failed, "one reply to each query");
        if failed > 0 {
            cover("sending failed");
        }
    }
    let got = &host::objs()[s].sent;
    let mut used = vec![false; want.len()];
    for g in got {
        // Each reply is recognized by its question: the names differ.
        let k = want.iter().position(|w| w.0[13] == g.0[13]);
        match k {
            Some(k) if !used[k] => {
                used[k] = true;
                check(g.1 == want[k].1, "the reply goes to the sender of the query");
                check(bytes_eq(&g.0, &want[k].0), "the reply sent is the handler's, cut to 512 bytes");
                cover("replied");
                if want[k].0[2] & 2 != 0 {
                    cover("cut");
                }
            }
            _ => check(false, "one reply to each query"),
        }
    }
    check(!host::objs()[s].untimed && host::objs()[s].wtimeout == 3 * SEC, "the write timeout is set");
    host::done();
    sched::done();
}

/// Every query on a TCP connection, however it is cut into pieces, is answered there, and the
/// connection closed. Clients that go silent, stop halfway or break off hurt nobody else.
#[no_mangle]
pub extern "C" fn h_tcp() {
    let threads = 1 + choose(2) as usize;
    let n = param(0, 2);
    let deviations = param(1, 0);
    let few = deviations > 0;
    sched::start(0);
    host::start();
    serve(Echo, ("127.0.0.1", 53), ("127.0.0.1", TCP), threads);
    let s = host::server(true, TCP).unwrap_or_else(|| {
        check(false, "the TCP server listens");
        0
    });
    unsafe {
        WORK = choose(2) * SEC;
        TXTS = match if few { 1 } else { choose(2) } {
            0 => (0, 0),
            _ => (4, 200),
        };
    }
    sched::budget(deviations);
    // What each connection is owed, if anything; whether sending to it fails.
    let mut want: Vec<(usize, Option<Vec<u8>>, bool)> = vec![];
    let (mut whole, mut cut) = (0, 0);
    for k in 0..n {
        let id = u16v();
        let name = b'a' + k as u8;
        // All kinds for the first connection.
        let few = few || k > 0;
        let from = any_addr(false);
        let q = query(id, name);
        let mut f = vec![0, q.len() as u8];
        f.extend_from_slice(&q);
        let kind = choose(if few { 4 } else { 9 });
        if kind == 3 {
            // The system reports a failed connection, or too many open files.
            host::push(s, In::Err([103, 24, 4][choose(3) as usize]));
            continue;
        }
        let mut inbox = vec![];
        let mut owed = kind == 0 || kind == 4 || kind == 5;
        let mut broken = false;
        let mut take = vec![];
        match kind {
            0 | 4 => {
                // In up to three pieces, perhaps slowly; perhaps more follows.
                let a = if few { 2 } else { choose(5) as usize };
                let b = if few { 14 } else { [20, a, f.len()][choose(3) as usize] };
                if kind == 4 {
                    f.extend_from_slice(&[0, 5, 1, 2]);
                }
                for (i, j) in [(0, a), (a, b.max(a)), (b.max(a), f.len())] {
                    if i < j {
                        inbox.push(In::Data(f[i..j].to_vec(), from.clone()));
                        if kind == 4 {
                            inbox.push(In::Pause(4 * SEC));
                        }
                    }
                }
            }
            5 => {
                // The reply is taken in pieces, or not at all.
                inbox.push(In::Data(f, from.clone()));
                take = match choose(3) {
                    0 => vec![1, 7, 3],
                    1 => vec![2, -11],
                    _ => vec![-32],
                };
                broken = take.contains(&-11) || take.contains(&-32);
            }
            1 => {
                // Silence, at the start or halfway.
                f.truncate([0, 1, 2, 12][if few { 1 } else { choose(4) } as usize]);
                inbox.push(In::Data(f, from.clone()));
                inbox.retain(|x| !matches!(x, In::Data(d, _) if d.is_empty()));
            }
            2 => {
                // Closed or broken off halfway.
                f.truncate([0, 1, 2, 20][if few { 2 } else { choose(4) } as usize]);
                inbox.push(In::Data(f, from.clone()));
                inbox.retain(|x| !matches!(x, In::Data(d, _) if d.is_empty()));
                inbox.push(if choose(2) == 0 { In::Eof } else { In::Err(104) });
            }
            6 => {
                // An announced length other than that of the query.
                let l = choose(3);
                f[1] = [0, 11, 14][l as usize];
                inbox.push(In::Data(f, from.clone()));
            }
            7 => {
                // One byte more announced than sent.
                f[1] += 1;
                inbox.push(In::Data(f, from.clone()));
            }
            _ => {
                // A big message: the query with something after it.
                let l = [q.len() + 600, 40000, 65535][choose(3) as usize];
                f[0] = (l >> 8) as u8;
                f[1] = l as u8;
                f.resize(l + 2, 0);
                inbox.push(In::Data(f[..300].to_vec(), from.clone()));
                inbox.push(In::Data(f[300..].to_vec(), from.clone()));
                owed = true;
            }
        }
        match kind {
            6 => cut += 1,
            _ if owed => whole += 1,
            _ => (),
        }
        let r = reply(id, name, 65535);
        let mut w = vec![(r.len() >> 8) as u8, r.len() as u8];
        w.extend_from_slice(&r);
        let c = host::client(s, inbox, from);
        host::objs()[c].take = take;
        want.push((c, if owed { Some(w) } else { None }, broken));
        if choose(2) == 1 {
            sched::idle();
            check_serving(s, want.len(), threads);
        }
    }
    sched::budget(0);
    sched::idle();
    check_serving(s, want.len(), threads);
    sched::sleep_until(sched::now() + 300 * SEC);
    // Much later.
    let q = query(9, b'z');
    let mut f = vec![0, q.len() as u8];
    f.extend_from_slice(&q);
    let c = host::client(s, vec![In::Data(f, addr(0))], addr(0));
    let r = reply(9, b'z', 65535);
    let mut w = vec![(r.len() >> 8) as u8, r.len() as u8];
    w.extend_from_slice(&r);
    want.push((c, Some(w), false));
    whole += 1;
    sched::idle();
    sched::sleep_until(sched::now() + 10 * SEC);
    unsafe {
        check(ENDED == 0, "the service goes on");
        check(SEEN.iter().all(|x| x.what > 0 || x.replied.is_some()), "sending is limited in time");
        check(SEEN.iter().filter(|x| x.what == 0).count() == whole, "each query is handled once");
        check(SEEN.iter().filter(|x| x.what == 1 || x.what == 2).count() == cut, "what is no query is handled once");
        check(SEEN.len() == want.len(), "each connection is handled once");
    }
    for (c, w, broken) in &want {
        let o = &host::objs()[*c];
        let mut got = vec![];
        for x in &o.sent {
            got.extend_from_slice(&x.0);
        }
        match w {
            Some(w) if !broken => {
                check(got.len() == w.len() && bytes_eq(&got, w), "the reply follows its length on the query's connection");
                cover("replied");
            }
            Some(w) => check(got.len() <= w.len() && bytes_eq(&got, &w[..got.len()]), "only the reply is sent"),
            None => check(got.is_empty(), "no reply without a query"),
        }
        check(o.refs == 0, "connections are closed");
        check(!o.untimed && o.rtimeout == 5 * SEC && o.wtimeout == 4 * SEC, "the timeouts are set");
        if w.is_none() {
            cover("refused");
        }
    }
    host::done();
    sched::done();
}

/// Hundreds of requests, errors or useless ones, at once or one after the other: all are served, and the last one.
#[no_mangle]
pub extern "C" fn h_service_many() {
    let tcp = param(0, 0) == 1;
    let threads = [1, 2, 9][choose(3) as usize];
    let n = [9, 33, 65, 129, 257][choose(param(1, 5)) as usize];
    sched::start(0);
    host::start();
    serve(Echo, ("127.0.0.1", 53), ("127.0.0.1", TCP), threads);
    let s = host::server(tcp, if tcp { TCP } else { 53 }).unwrap_or_else(|| {
        check(false, "the server listens");
        0
    });
    unsafe {
        TXTS = (1, 10);
        WORK = choose(2) * SEC / 100;
    }
    let kind = choose(if tcp { 5 } else { 4 });
    let burst = choose(2) == 1;
    let port0 = u16v();
    assume(port0 < 60000);
    let mut conns = vec![];
    for k in 0..n + 1 {
        let from = (vec![192, 0, 2, (k % 7) as u8], port0 + k as u16);
        let good = k == n || kind == 0;
        let q = query(k as u16, b'a');
        if !good && kind == 1 {
            host::push(s, In::Err(if tcp { 103 } else { 111 }));
        } else if !tcp {
            let q = if good { q } else if kind == 2 { vec![1, 2, 3] } else { q[..14].to_vec() };
            host::push(s, In::Data(q, from));
        } else {
            let mut f = vec![0, q.len() as u8];
            f.extend_from_slice(&q);
            let i = if good { vec![In::Data(f, from.clone())] } else {
                match kind {
                    // closed at once, broken off, silent
                    2 => vec![In::Eof],
                    3 => vec![In::Data(f[..9].to_vec(), from.clone()), In::Err(104)],
                    _ => vec![],
                }
            };
            let c = host::client(s, i, from);
            conns.push(c);
        }
        if !burst {
            sched::idle();
        }
        if k + 1 >= n {
            // The last one comes later.
            sched::sleep_until(sched::now() + 2000 * SEC);
        }
    }
    unsafe {
        check(ENDED == 0, "the service goes on");
        let want = if kind == 0 { n + 1 } else { 1 };
        check(SEEN.iter().filter(|x| x.what == 0 && x.replied == Some(true)).count() == want, "each query is handled once, and its reply sent");
        check(SEEN.iter().filter(|x| x.what == 0).count() == want, "each query is handled once");
        check(SEEN.last().is_some_and(|x| x.id == n as u16), "the last query is served");
        if !tcp {
            let sent = &host::objs()[s].sent;
            check(sent.len() == want, "one reply to each query");
            let mut used = vec![false; n + 1];
            for g in sent {
                let k = (g.0[0] as usize) << 8 | g.0[1] as usize;
                check(k <= n && !used[k], "one reply to each query");
                used[k] = true;
                check(g.1 == (vec![192, 0, 2, (k % 7) as u8], port0 + k as u16), "the reply goes to the sender of the query");
                check(bytes_eq(&g.0, &reply(k as u16, b'a', 512)), "the reply sent is the handler's");
            }
        } else {
            for (i, c) in conns.iter().enumerate() {
                let o = &host::objs()[*c];
                check(o.refs == 0, "connections are closed");
                let k = if kind == 1 { n } else { i };
                if kind == 0 || k == n {
                    let mut got = vec![];
                    for x in &o.sent {
                        got.extend_from_slice(&x.0);
                    }
                    let r = reply(k as u16, b'a', 65535);
                    let mut w = vec![(r.len() >> 8) as u8, r.len() as u8];
                    w.extend_from_slice(&r);
                    check(got.len() == w.len() && bytes_eq(&got, &w), "the reply follows its length on the query's connection");
                } else {
                    check(o.sent.is_empty(), "no reply without a query");
                }
            }
        }
    }
    cover("served");
    host::done();
    sched::done();
}
/// Many jobs, given at once.
#[no_mangle]
pub extern "C" fn h_pool_many() {
    let size = [1, 2, 3, 8, 33][choose(param(0, 4)) as usize];
    let jobs = [9, 17, 33, 65, 129, 257, 1025][choose(param(1, 6)) as usize];
    let every = [1, 2, 16][choose(3) as usize];
    static mut DONE: Vec<u32> = Vec::new();
    sched::start(0);
    unsafe { DONE.resize(jobs, 0) };
    let pool = ThreadPool::new(size, "jobs");
    check(sched::threads().0 == size, "the threads are started with the pool");
    let t0 = sched::now();
    for j in 0..jobs {
        pool.execute(move || unsafe {
            ORDER.push(j);
            BUSY += 1;
            MAX_BUSY = MAX_BUSY.max(BUSY);
            if j % every == 0 {
                sched::sleep_until(sched::now() + SEC);
            }
            BUSY -= 1;
            DONE[j] += 1;
        });
    }
    check(sched::now() == t0, "giving a job does not wait for others");
    sched::idle();
    unsafe { check(ORDER.len() == jobs || BUSY == size, "no job waits while a thread is free") };
    drop(pool);
    unsafe {
        check(sched::threads().1 == 0, "the threads end with the pool");
        check(DONE.iter().all(|x| *x == 1), "every job runs exactly once");
        let long = (jobs + every - 1) / every;
        check(every > 1 || MAX_BUSY == size.min(jobs), "all threads are used");
        check(sched::now() - t0 <= ((long + size - 1) / size + 1) as u64 * SEC || every > 1, "no job waits while a thread is free");
        if size == 1 {
            check((0..jobs).all(|j| ORDER[j] == j), "jobs start in order");
        }
    }
    cover("done");
    sched::done();
}
/// Running out of file descriptors, or timeouts that cannot be set, cost at most the requests it happens at.
#[no_mangle]
pub extern "C" fn h_nofds() {
    let threads = 1 + choose(2) as usize;
    sched::start(0);
    host::start();
    serve(Echo, ("127.0.0.1", 53), ("127.0.0.1", TCP), threads);
    let (u, t) = (host::server(false, 53).unwrap(), host::server(true, TCP).unwrap());
    let fails = 1 + choose(3);
    let rounds = fails as usize + 1;
    let mut conns = vec![];
    for k in 0..rounds {
        let q = query(k as u16, b'a');
        let what = choose(3);
        unsafe {
            host::DUP_FAIL = (k < fails as usize && what < 2) as u32;
            host::OPT_FAIL = (k < fails as usize && what == 2) as u32;
        }
        if what == 0 {
            host::push(u, In::Data(q, addr(0)));
        } else {
            let mut f = vec![0, q.len() as u8];
            f.extend_from_slice(&q);
            conns.push((k, host::client(t, vec![In::Data(f, addr(0))], addr(0))));
        }
        sched::idle();
    }
    unsafe {
        check(SEEN.last().is_some_and(|x| x.id == fails as u16 && x.replied == Some(true)), "later requests are served");
        check(ENDED == 0, "the service goes on");
    }
    for (_, c) in conns {
        check(host::objs()[c].refs == 0, "connections are closed");
        check(!host::objs()[c].untimed, "no connection is served without timeouts");
    }
    host::done();
    sched::done();
}
/// Replies by TCP that do not fit its length field are cut.
#[no_mangle]
pub extern "C" fn h_big() {
    sched::start(0);
    host::start();
    serve(Echo, ("127.0.0.1", 53), ("127.0.0.1", TCP), 1);
    let t = host::server(true, TCP).unwrap();
    // Records of 216 bytes; sizes around the limit of 65535, and exactly that.
    let k = choose(param(0, 4) + 2) as usize;
    unsafe {
        if k < 2 {
            TXTS = (366, 163);
            PLUS = k;
        } else {
            TXTS = (300 + k, 200);
        }
    }
    let q = if choose(2) == 0 { query(7, b'a') } else { full_query(7, b'a', [5000, 65535][choose(2) as usize]) };
    let mut f = vec![(q.len() >> 8) as u8, q.len() as u8];
    f.extend_from_slice(&q);
    let c = host::client(t, vec![In::Data(f, addr(0))], addr(0));
    sched::idle();
    let mut got = vec![];
    for x in &host::objs()[c].sent {
        got.extend_from_slice(&x.0);
    }
    check(got.len() > 14, "a reply is sent");
    let mut r = reply(7, b'a', 65535);
    if r[2] & 2 == 2 {
        // Cut anywhere between records.
        let n = (got[8] as usize) << 8 | got[9] as usize;
        check(n <= unsafe { TXTS.0 }, "cut to some of the records");
        r = reply(7, b'a', 21 + n * (16 + unsafe { TXTS.1 }) + unsafe { PLUS });
        cover("cut");
    } else {
        cover("whole");
    }
    let mut w = vec![(r.len() >> 8) as u8, r.len() as u8];
    w.extend_from_slice(&r);
    check(got.len() == w.len() && bytes_eq(&got, &w), "the reply follows its length on the query's connection, cut if too long");
    host::done();
    sched::done();
}
/// When one server ends the other one ends as well, at the latest after the four seconds
/// the other one is given.
#[no_mangle]
pub extern "C" fn h_stop() {
    let any = ["127.0.0.1", "0.0.0.0", "::1", "::"];
    let a = choose(4) as usize;
    let udp = (any[a], [53, 54, 65535][choose(3) as usize]);
    let tcp = (any[(a + choose(4) as usize) % 4], 53);
    let threads = 1 + choose(2) as usize;
    sched::start(param(0, 1));
    host::start();
    let fail = 1 + choose(3);
    // A request may be under way at the server that does not fail.
    let early = fail < 3 && choose(2) == 1;
    let mut q = query(5, b'a');
    unsafe {
        host::BIND = [98 * (fail & 1) as i32, 98 * (fail >> 1) as i32];
        if early {
            WORK = [0, 2, 10][choose(3) as usize] * SEC;
            let udp = fail == 2;
            if !udp {
                q.insert(0, q.len() as u8);
                q.insert(0, 0);
            }
            host::EARLY[!udp as usize] = Some((q, addr(0)));
        }
    }
    let t0 = sched::now();
    serve(Echo, udp, tcp, threads);
    sched::budget(0);
    sched::sleep_until(sched::now() + 100 * SEC);
    unsafe {
        check(ENDED == 1, "the servers are given up");
        check(END_AT - t0 <= 5 * SEC, "the servers are given up in time");
        check(END_BUSY == 0 || WORK == 10 * SEC, "what takes no longer than two seconds is finished first");
    }
    check(sched::threads().1 == 0, "the other server and its threads end");
    for o in host::objs() {
        check(o.refs == 0, "the sockets are closed");
    }
    if early {
        unsafe { check(SEEN.iter().any(|x| x.id == 5 && x.replied == Some(true)), "a request under way is answered") };
        cover("request under way");
    }
    cover("ended");
    host::done();
    sched::done();
}

/// The varied text as a string: without its quotes.
fn unquoted(t: &[u8]) -> &str {
    let t = if t.len() >= 2 && t[0] == b'"' { &t[1..t.len() - 1] } else { t };
    unsafe { std::str::from_utf8_unchecked(t) }
}
/// The values a configuration holds, in the order of the fields; texts are compared aside.
fn rsv_values(c: &ariadne_dns::resolver::conf::Conf, texts: &[Vec<u8>]) -> Vec<u64> {
    check(c.udp_server.address == unquoted(&texts[1]) && c.tcp_server.address == unquoted(&texts[5]), "the addresses are those of the file");
    let (u, t, r) = (&c.udp_server, &c.tcp_server, &c.resolver);
    vec![
        c.log_level as u64, 0, u.port as u64, u.write_timeout, u.threads as u64,
        0, t.port as u64, t.read_timeout, t.write_timeout, t.threads as u64,
        r.max_ns_queried as u64, r.max_ns_retries as u64, r.max_cname_redir as u64, r.read_timeout, r.write_timeout,
        r.cache_conf.clean_period, r.cache_conf.entries_cleaned,
        r.trace_conf.silent as u64, r.trace_conf.verbose as u64, r.trace_conf.color as u64,
    ]
}
fn ns_values(c: &ariadne_dns::nameserver::conf::Conf, texts: &[Vec<u8>]) -> Vec<u64> {
    check(c.udp_server.address == unquoted(&texts[1]) && c.tcp_server.address == unquoted(&texts[5]), "the addresses are those of the file");
    let (u, t, z) = (&c.udp_server, &c.tcp_server, &c.zone);
    check(z.zone == unquoted(&texts[11]) && z.file == unquoted(&texts[12]), "the zone is that of the file");
    check(z.sub_zones.len() == texts.len() / 4 - 3, "the sub zones are those of the file");
    let mut v = vec![
        c.log_level as u64, 0, u.port as u64, u.write_timeout, u.threads as u64,
        0, t.port as u64, t.read_timeout, t.write_timeout, t.threads as u64,
        z.starting_ttl as u64, 0, 0,
    ];
    for (i, s) in z.sub_zones.iter().enumerate() {
        let k = 13 + 4 * i;
        check(s.zone == unquoted(&texts[k + 2]) && s.file == unquoted(&texts[k + 3]), "the sub zones are those of the file");
        v.extend_from_slice(&[s.starting_ttl as u64, s.min_ttl as u64, 0, 0]);
    }
    v
}
fn load(ns: bool, texts: &[Vec<u8>]) -> Option<Vec<u64>> {
    if ns {
        ariadne_dns::nameserver::conf::Conf::from_file("conf.json").ok().map(|c| ns_values(&c, texts))
    } else {
        ariadne_dns::resolver::conf::Conf::from_file("conf.json").ok().map(|c| rsv_values(&c, texts))
    }
}
/// A configuration file with one field varied is accepted when its values make sense, and
/// then holds the values of the file.
#[no_mangle]
pub extern "C" fn h_conf() {
    host::start();
    let what = choose(3);
    let ns = what > 0;
    let fields = [RSV, NS, NS0][what as usize];
    let mut texts = valid(fields);
    let mut want: Vec<u64> = fields.iter().map(|f| match f.1 {
        Ty::Num(..) => f.2.parse().unwrap(),
        Ty::Level => 1,
        Ty::Bool => (f.2 == "true") as u64,
        _ => 0,
    }).collect();
    let mut ok = Some(true);
    for _ in 0..param(0, 1) {
        let k = choose(fields.len() as u64) as usize;
        let (t, m) = vary(fields[k].1);
        texts[k] = t;
        match m {
            Some((true, v)) => want[k] = v,
            Some((false, _)) => ok = Some(false),
            None => ok = None,
        }
    }
    let f = render(fields, &texts);
    files::add("conf.json", f);
    let got = load(ns, &texts);
    match (ok, got) {
        (Some(true), Some(g)) => {
            let mut same = true;
            for i in 0..g.len() {
                same = and(same, g[i] == want[i]);
            }
            check(same, "the values are those of the file");
            cover("accepted");
        }
        (Some(true), None) => check(false, "a valid configuration is accepted"),
        (Some(false), Some(_)) => check(false, "an invalid configuration is rejected"),
        (Some(false), None) => cover("rejected"),
        (None, _) => (),
    }
    files::done();
}
/// Files that are no configuration at all.
#[no_mangle]
pub extern "C" fn h_conf_files() {
    host::start();
    let ns = choose(2) == 1;
    let fields = if ns { NS } else { RSV };
    let texts = valid(fields);
    let f = render(fields, &texts);
    match choose(4) {
        0 => (), // no such file
        1 => {
            // Cut anywhere, perhaps with something else there.
            let at = choose(8) as usize * 16 + choose(16) as usize;
            let g = f[..(f.len() - 2).min(at * f.len() / 128)].to_vec();
            files::add("conf.json", g);
        }
        2 => {
            let mut g = f.clone();
            g.extend_from_slice([&b"}"[..], b"x", b"{}", b"\xff", b"\x00"][choose(5) as usize]);
            files::add("conf.json", g);
        }
        _ => {
            let mut g = f.clone();
            // Not UTF-8.
            let at = if choose(2) == 0 {
                g.iter().position(|b| *b == b'1').unwrap()
            } else if ns {
                g.windows(5).position(|w| w == b"z.txt").unwrap()
            } else {
                g.windows(5).position(|w| w == b"ERROR").unwrap()
            };
            g[at] = 0x80 | u8v();
            files::add("conf.json", g);
        }
    }
    check(load(ns, &texts).is_none(), "what is no configuration is rejected");
    files::done();
}

#[no_mangle]
pub extern "C" fn harness_crate() {}
