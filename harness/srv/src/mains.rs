//! The two programs as a whole: configuration files, zone files and what the servers then do.
use super::*;

mod rsv_bin {
    include!("/repo/src/bin/resolver.rs");
    pub fn run() {
        main()
    }
}
mod ns_bin {
    include!("/repo/src/bin/nameserver.rs");
    pub fn run() {
        main()
    }
}
static mut EXIT: Option<i32> = None;
#[no_mangle]
pub extern "C" fn exit(code: i32) -> ! {
    unsafe { EXIT = Some(code) };
    sched::end()
}
/// An arbitrary digit but zero, as text and as number.
fn digit() -> (Vec<u8>, u64) {
    let d = u8v();
    assume(and(d > 0, d < 10));
    (vec![b'0' + d], d as u64)
}
fn set(fields: &[Field], texts: &mut [Vec<u8>], name: &str, t: &[u8]) {
    let k = fields.iter().position(|f| f.0 == name).unwrap();
    texts[k] = t.to_vec();
}
/// What both configurations say about the servers.
struct Servers {
    addr: [usize; 2],
    threads: [usize; 2],
    timeouts: [u64; 3],
    port: [u16; 2],
}
const ADDRS: [(&str, &[u8]); 4] =
    [("\"127.0.0.1\"", &[127, 0, 0, 1]), ("\"0.0.0.0\"", &[0; 4]), ("\"::1\"", &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]), ("\"9.8.7.6\"", &[9, 8, 7, 6])];
fn servers(f: &[Field], texts: &mut [Vec<u8>]) -> Servers {
    let s = Servers {
        addr: [choose(2) as usize * 3, choose(2) as usize * 2],
        threads: [1 + choose(2) as usize, 1 + choose(3) as usize],
        timeouts: [0; 3],
        port: [53, [53, 54][choose(2) as usize]],
    };
    let (u, un) = digit();
    let (w, wn) = digit();
    let r = 1 + choose(2);
    set(f, texts, "udp_server.address", ADDRS[s.addr[0]].0.as_bytes());
    set(f, texts, "tcp_server.address", ADDRS[s.addr[1]].0.as_bytes());
    set(f, texts, "udp_server.port", s.port[0].to_string().as_bytes());
    set(f, texts, "tcp_server.port", s.port[1].to_string().as_bytes());
    set(f, texts, "udp_server.threads", s.threads[0].to_string().as_bytes());
    set(f, texts, "tcp_server.threads", s.threads[1].to_string().as_bytes());
    set(f, texts, "udp_server.write_timeout", &u);
    set(f, texts, "tcp_server.write_timeout", &w);
    set(f, texts, "tcp_server.read_timeout", r.to_string().as_bytes());
    Servers { timeouts: [un, wn, r], ..s }
}
/// What everybody can see of the servers' settings. `others`: further threads.
fn check_servers(s: &Servers, others: usize) -> (usize, usize) {
    let u = host::server(false, s.port[0]);
    let t = host::server(true, s.port[1]);
    check(u.is_some() && t.is_some(), "both servers listen on their ports");
    let (u, t) = (u.unwrap(), t.unwrap());
    let o = host::objs();
    check(o[u].bound.as_ref().unwrap().0 == ADDRS[s.addr[0]].1, "the UDP server's address is that of the file");
    check(o[t].bound.as_ref().unwrap().0 == ADDRS[s.addr[1]].1, "the TCP server's address is that of the file");
    // Main thread, one thread for each server and the pools.
    check(sched::threads().1 == 1 + 2 + s.threads[0] + s.threads[1] + others, "the threads are those of the file");
    check(o[u].wtimeout == s.timeouts[0] * SEC, "the UDP write timeout is that of the file");
    // Silent clients: as many are read from as there are threads.
    let from = addr(0);
    let mut cs = vec![];
    for _ in 0..4 {
        cs.push(host::client(t, vec![], from.clone()));
    }
    sched::idle();
    let o = host::objs();
    let busy = cs.iter().filter(|c| sched::waiting(**c) > 0).count();
    check(busy == s.threads[1], "the TCP server's threads are those of the file");
    let end = sched::now() + s.timeouts[2] * SEC;
    check(o[cs[0]].wtimeout == s.timeouts[1] * SEC, "the TCP write timeout is that of the file");
    sched::sleep_until(end - 1);
    check(host::objs()[cs[0]].refs > 0, "clients are given the read timeout");
    sched::sleep_until(end + 1);
    check(host::objs()[cs[0]].refs == 0, "silent clients are given up after the read timeout");
    sched::sleep_until(end + 10 * SEC);
    check(cs.iter().all(|c| host::objs()[*c].refs == 0), "silent clients are given up");
    (u, t)
}
fn run(f: fn()) {
    std::thread::spawn(move || {
        f();
        unsafe { ENDED += 1 };
    });
    sched::idle();
}
fn check_refused() {
    unsafe { check(EXIT == Some(1), "the program ends with an error") };
    check(host::objs().is_empty(), "nothing is served");
    cover("refused");
}

/// The name server program, with all combinations of some settings. Parameters: how many
/// arguments it is given is said by the first one.
#[no_mangle]
pub extern "C" fn h_main_ns() {
    let args = param(0, 1);
    sched::start(0);
    host::start();
    let bad = if args == 1 { choose(7) } else { 0 };
    let mut texts = valid(NS);
    let s = if bad == 0 && args == 1 {
        servers(NS, &mut texts)
    } else {
        Servers { addr: [0; 2], threads: [0; 2], timeouts: [0; 3], port: [0; 2] }
    };
    let (ta, a) = digit();
    let (tb, b) = digit();
    let (tc, c2) = digit();
    set(NS, &mut texts, "zone.sub_zones#2.starting_ttl", &tc);
    set(NS, &mut texts, "zone.sub_zones#2.min_ttl", b"1");
    set(NS, &mut texts, "zone.starting_ttl", &ta);
    set(NS, &mut texts, "zone.sub_zones.starting_ttl", &tb);
    set(NS, &mut texts, "zone.sub_zones.min_ttl", if bad == 5 { b"10" } else { b"1" });
    set(NS, &mut texts, "zone.zone", b"\"z.\"");
    set(NS, &mut texts, "zone.sub_zones.zone", b"\"s.z.\"");
    let level = if bad == 0 { 1 + choose(2) } else { 1 };
    set(NS, &mut texts, "log_level", [&b""[..], b"\"ERROR\"", b"\"WARN\""][level as usize]);
    if bad == 2 {
        set(NS, &mut texts, "udp_server.threads", b"0");
    }
    if bad != 1 {
        files::add("conf.json", render(NS, &texts));
    }
    if bad != 3 {
        files::add("z.txt", if bad == 4 { b"z. IN SOA".to_vec() } else {
            b"z. IN SOA n.z. m.z. (1 2 3 4 1)\nz. NS n.z.\nn.z. A 1.2.3.4\na.z. A 5.6.7.8\n".to_vec()
        });
    }
    if bad != 6 {
        files::add("s.txt", b"s.z. NS n.s.z.\nn.s.z. A 4.3.2.1\n".to_vec());
    }
    files::add("t.txt", b"t.z. NS n.t.z.\nn.t.z. A 4.4.4.4\n".to_vec());
    run(ns_bin::run);
    if bad > 0 || args != 1 {
        check_refused();
        sched::done();
        return;
    }
    unsafe { check(EXIT.is_none() && ENDED == 0, "a valid configuration is served") };
    check(log::max_level() as u64 == level, "the log level is that of the file");
    let (u, t) = check_servers(&s, 0);
    // The zone, with the TTLs of the file where the zone file gives none.
    let id = u16v();
    let q = query(id, b'a');
    let mut f = vec![0, q.len() as u8];
    f.extend_from_slice(&q);
    host::push(u, In::Data(q, addr(1)));
    let c = host::client(t, vec![In::Data(f, addr(0))], addr(0));
    let mut q2 = query(id, b'x');
    q2.splice(12..14, [1, b'x', 1, b's']);
    let mut q3 = q2.clone();
    q3[15] = b't';
    host::push(u, In::Data(q2, addr(2)));
    sched::idle();
    host::push(u, In::Data(q3, addr(2)));
    sched::idle();
    let o = &host::objs();
    check(o[u].sent.len() == 3, "queries are answered by UDP");
    let r3 = &o[u].sent[2];
    let (r1, r2) = (&o[u].sent[0], &o[u].sent[1]);
    let r1b = (r1, r2);
    // The replies may come in any order.
    let (r1, r2) = if r1b.0 .1 == addr(1) { r1b } else { (r1b.1, r1b.0) };
    check(r1.1 == addr(1) && r2.1 == addr(2), "each client gets its answer");
    let has = |r: &[u8], tail: &[u8]| {
        let mut any = false;
        for i in 0..r.len().saturating_sub(tail.len() - 1) {
            any = or(any, bytes_eq(&r[i..i + tail.len()], tail));
        }
        any
    };
    let rec = |ttl: u64, ip: [u8; 4]| [&[0, 1, 0, 1, 0, 0, 0, ttl as u8, 0, 4][..], &ip].concat();
    check(r1.0[6] == 0 && r1.0[7] == 1 && has(&r1.0, &rec(a, [5, 6, 7, 8])), "the zone is served with the TTL of the configuration");
    check(r2.0[7] == 0 && has(&r2.0, &rec(b, [4, 3, 2, 1])), "the sub zone is served with the TTL of the configuration");
    check(r3.0[7] == 0 && has(&r3.0, &rec(c2, [4, 4, 4, 4])), "each sub zone is served with the TTL of the configuration");
    let mut got = vec![];
    for x in &o[c].sent {
        got.extend_from_slice(&x.0);
    }
    check(got.len() > 2 && bytes_eq(&got[2..], &r1.0), "queries are answered by TCP");
    cover("served");
    host::done();
    sched::done();
}

static mut ASKED: Vec<(Addr, u8)> = Vec::new();
/// What the world does: 0: silence, 1: an alias to the next letter, 2: an answer.
static mut HOW: u64 = 0;
fn world(to: &Addr, q: &[u8]) -> Option<Vec<u8>> {
    unsafe {
        check(q.len() == 21 && to.1 == 53, "the resolver asks what it should");
        ASKED.push((to.clone(), q[13]));
        if HOW == 0 {
            return None;
        }
        let mut r = q.to_vec();
        r[2] |= 0x84;
        r[7] = 1;
        r.extend_from_slice(&[1, q[13], 1, b'z', 0]);
        if HOW == 1 {
            r.extend_from_slice(&[0, 5, 0, 1, 0, 0, 0, 99, 0, 5, 1, q[13] + 1, 1, b'z', 0]);
        } else {
            r.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 99, 0, 4, 7, 7, 7, q[13]]);
        }
        Some(r)
    }
}
/// The resolver program, with all combinations of some settings.
#[no_mangle]
pub extern "C" fn h_main_rsv() {
    let args = param(0, 1);
    sched::start(0);
    host::start();
    let bad = if args == 1 { choose(3) } else { 0 };
    let mut texts = valid(RSV);
    let ok = bad == 0 && args == 1;
    // Either the servers' settings or those of the resolver.
    let part = if ok { choose(2) } else { 0 };
    let s = if ok && part == 0 {
        servers(RSV, &mut texts)
    } else {
        Servers { addr: [0; 2], threads: [2, 3], timeouts: [11, 13, 12], port: [53, 54] }
    };
    let mut want = [4, 5, 6, 14, 15, 16];
    let (tw, w) = digit();
    if part == 1 {
        want = [1 + choose(3), 1 + choose(2), 1 + choose(3), 1 + choose(2), w, 1 + choose(2)];
        let n = ["max_ns_queried", "max_ns_retries", "max_cname_redir", "read_timeout", "write_timeout", "cache_conf.clean_period"];
        for k in 0..6 {
            let t = if k == 4 { tw.clone() } else { want[k].to_string().into_bytes() };
            set(RSV, &mut texts, &["resolver.", n[k]].concat(), &t);
        }
    }
    if bad == 2 {
        set(RSV, &mut texts, "resolver.max_ns_retries", b"0");
    }
    if bad != 1 {
        files::add("conf.json", render(RSV, &texts));
    }
    unsafe { host::WORLD = Some(world) };
    run(rsv_bin::run);
    if !ok {
        check_refused();
        sched::done();
        return;
    }
    unsafe {
        check(EXIT.is_none() && ENDED == 0, "a valid configuration is served");
        check(sched::SLEEPS == [want[5] * SEC], "the cache is cleaned once in a period");
    }
    check(log::max_level() as u64 == 1, "the log level is that of the file");
    if part == 0 {
        check_servers(&s, 1);
        cover("servers");
        host::done();
        sched::done();
        return;
    }
    let u = host::server(false, 53).unwrap();
    let first = host::objs().len();
    unsafe { HOW = choose(3) };
    let q = query(u16v(), b'a');
    host::push(u, In::Data(q.clone(), addr(0)));
    let t0 = sched::now();
    sched::idle();
    unsafe {
        let n = ASKED.len() as u64;
        match HOW {
            0 => {
                // Until the last attempt has taken its time.
                let all = want[0] * want[1];
                check(n == 1, "the first query is sent at once");
                sched::sleep_until(t0 + all * want[3] * SEC - 1);
                check(ASKED.len() as u64 == all && host::objs()[u].sent.is_empty(), "silent servers are given the read timeout, as often as configured");
                sched::sleep_until(t0 + all * want[3] * SEC + 1);
                check(ASKED.len() as u64 == all, "the number of queries is limited as configured");
                let mut to: Vec<Addr> = vec![];
                for a in &ASKED {
                    if !to.contains(&a.0) {
                        to.push(a.0.clone());
                    }
                }
                check(to.len() as u64 == want[0], "as many servers are asked as configured");
                cover("silence");
            }
            1 => {
                check(n == want[2], "the aliases followed are limited as configured");
                cover("aliases");
            }
            _ => {
                check(n == 1, "an answer is believed");
                cover("answered");
            }
        }
        let o = host::objs();
        for x in &o[first..] {
            check(x.wtimeout == want[4] * SEC && !x.untimed && x.refs == 0, "the write timeout is that of the file");
        }
        check(o[u].sent.len() == 1 && o[u].sent[0].1 == addr(0), "the client gets one reply");
        let r = &o[u].sent[0].0;
        check(r[0] == q[0] && r[1] == q[1] && r[3] & 15 == if HOW == 2 { 0 } else { 2 }, "the reply says what was found");
        if HOW == 2 {
            let l = r.len();
            check(l > 16 && r[7] == 1 && r[l - 4..] == [7, 7, 7, b'a'], "the reply holds the answer");
        }
    }
    host::done();
    sched::done();
}
