//! Harnesses for the resolver (src/resolver).
#![allow(static_mut_refs)]
use ariadne_dns::resolver::*;
use ariadne_dns::shared::dns::*;
use ariadne_dns::shared::net::DnsHandler;
use std::sync::Arc;
use std::time::Duration;
use symrt::*;
#[allow(dead_code)]
#[path = "../../codec/src/model.rs"]
mod model;
#[path = "../../shims/net.rs"]
mod net;
#[path = "../../codec/src/req.rs"]
mod req;
#[allow(dead_code)]
#[path = "../../codec/src/wire.rs"]
mod wire;
mod evil;
mod up;
mod world;
use model::*;
use req::*;
use up::*;
use wire::*;
use world::*;

pub fn name_of(t: &[u8]) -> Name {
    match Name::from_string(unsafe { std::str::from_utf8_unchecked(t) }) {
        Ok(n) => n,
        Err(_) => {
            check(false, "a valid absolute name is rejected");
            loop {}
        }
    }
}
fn params(nss: usize, retries: usize, cnames: usize) -> ResolverParams {
    ResolverParams {
        max_ns_queried: nss,
        max_upd_retries: retries,
        max_cname_redir: cnames,
        read_timeout: Duration::new(2, 0),
        write_timeout: Duration::new(3, 0),
        no_follow_cname: false,
    }
}
pub fn resolver(cache: &Arc<RecordsCache>, nss: usize, retries: usize, cnames: usize) -> Resolver {
    Resolver::new(cache, params(nss, retries, cnames), TraceParams { verbose: false, silent: true, color: false })
}


/// A cached value whose number of live instances is observable.
static mut LIVE: i64 = 0;
#[derive(Debug)]
struct Tok(u32);
impl Tok {
    fn new(v: u32) -> Tok {
        unsafe { LIVE += 1 };
        Tok(v)
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok::new(self.0)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe { LIVE -= 1 };
    }
}
/// Expiry as (seconds, nanoseconds) and value of one key of the reference cache.
#[derive(Clone, Copy)]
struct Ent {
    set: bool,
    s: u64,
    n: u64,
    v: u32,
}
impl Ent {
    fn live(&self) -> bool {
        let (s, n) = unsafe { (net::SECS, net::NANOS) };
        and(self.set, or(self.s > s, and(self.s == s, self.n > n)))
    }
}
fn pass_time() {
    let d = u64v();
    assume(d < 1 << 33);
    unsafe {
        net::SECS += d;
        net::NANOS = (net::NANOS + choose(param(1, 2)) * 500_000_000) % 1_000_000_000;
        // the clock never goes back
        if d == 0 {
            assume(net::NANOS >= PREV_NANOS);
        }
        PREV_NANOS = net::NANOS;
    }
}
static mut PREV_NANOS: u64 = 0;

struct Forged {
    nq: u16,
    id: u16,
    flags: u16,
    l: u8,
    t: u16,
    c: u16,
    ip: [u8; 4],
    port: u16,
}
static mut M: Forged = Forged { nq: 1, id: 0, flags: 0, l: 0, t: 1, c: 1, ip: [198, 41, 0, 4], port: 53 };

harnesses! {
/// In an honest world, with some faults, lookups give the truth.
fn h_world() {
    let faulty = param(0, 0) > 0;
    let style = choose(if faulty { 5 } else { 9 });
    let fault = if faulty { choose(9) } else { 9 };
    // (Faults that are not retried need another server.)
    let mut wd = world(style, TTLS, 0, fault == 1 || fault >= 5);
    wd.chase = choose(2) == 1;
    wd.extra = choose(2) == 1;
    let simple = wd.chase == wd.extra;
    let retries = 2;
    if param(0, 0) > 0 {
        wd.fault = fault;
        wd.fault_at = choose(param(0, 0)) as usize;
        wd.faults = 1;
    }
    unsafe { W = Some(wd) };
    let l = u8v();
    assume(is_alnum(l));
    let qn = match choose(if faulty { 4 } else { 7 }) {
        0 => [l, b'.', b'z', b'.', b't', b'.'].to_vec(),
        1 => [l, b'.', b'u', b'.'].to_vec(),
        2 => [l, b'.', b't', b'.'].to_vec(),
        3 => b"z.t.".to_vec(),
        4 => [l, b'.', b'w', b'.', b'v', b'.'].to_vec(),
        5 => [l, b'.', b'c', b'.', b'w', b'.', b'v', b'.'].to_vec(),
        _ => b"w.v.".to_vec(),
    };
    let kind = match choose(4) { 0 => RecordType::A, 1 => RecordType::CNAME, 2 => RecordType::MX, _ => RecordType::NS };
    let c: Arc<RecordsCache> = Arc::new(Cache::default());
    let r = resolver(&c, 3, retries, 4);
    world::start();
    // Something may have been looked up before.
    let mut before = false;
    if !faulty && simple {
        let (n, k) = [(&b"h.u."[..], RecordType::NULL), (b"h.u.", RecordType::A), (b"c.z.t.", RecordType::A), (b"a.z.t.", RecordType::MX)][choose(4) as usize];
        if k != RecordType::NULL {
            before = true;
            check(r.new_lookup(&name_of(n), k).perform().0.is_ok(), "a name that can be resolved is");
        }
    }
    let (res, _) = r.new_lookup(&name_of(&qn), kind).perform();
    finish();
    let t = truth(&qn, kind.to_num());
    match &res {
        Err(_) => check(false, "a name that can be resolved is"),
        Ok(v) => {
            check(v.3 == t.nx, "the name is reported as missing exactly if it is");
            check(v.0.len() == t.recs.len(), "exactly the records there are");
            let k = t.recs.iter().filter(|r| r.record_type() == RecordType::CNAME && kind != RecordType::CNAME).count();
            for (i, x) in t.recs.iter().enumerate() {
                if i < k {
                    check(same_rr(x, &v.0[i]), "aliases come first, in order");
                    cover("alias");
                } else {
                    let mut f = false;
                    for y in &v.0[k..] {
                        f = or(f, and(same_rr(x, y), before || x.ttl() == y.ttl()));
                    }
                    check(f, "every record is returned");
                }
            }
            cover(if t.nx { "nxdomain" } else if v.0.len() > k { "answer" } else { "no data" });
        }
    }
}
/// The same in larger worlds, one dimension at a time; then once more, from the cache.
fn h_world_many() {
    let mut s = Shape { depth: 3, label: 1, nss: 1, how: 0, recs: 1, aliases: 0, glueless: 0 };
    match choose(6) {
        0 => s.depth = [1, 2, 4, 5, 8, 9, 16, 17, 24][choose(9) as usize],
        1 => {
            s.nss = [2, 3, 4, 5, 8, 9, 13][choose(7) as usize];
            s.how = choose(4);
            s.glueless = choose(2) as usize;
            s.depth = 2;
        }
        2 => s.recs = [2, 3, 7, 8, 9, 15, 16, 17, 24, 28][choose(10) as usize],
        3 => {
            s.aliases = [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 32][choose(11) as usize];
            s.depth = 1 + choose(2) as usize;
        }
        4 => {
            s.label = [8, 16, 32, 62, 63][choose(5) as usize];
            s.recs = 3;
            s.aliases = choose(2) as usize;
        }
        _ => {
            s.glueless = 1 + choose(3) as usize;
            s.depth = 1 + choose(3) as usize;
        }
    }
    let (wd, qn) = large(&s);
    unsafe {
        W = Some(wd);
        COMPRESS = true;
    }
    let c: Arc<RecordsCache> = Arc::new(Cache::default());
    let told = param(0, 0) == 1;
    let trace = TraceParams { verbose: told && choose(2) == 1, silent: !told, color: false };
    colored::control::set_override(true);
    let r = Resolver::new(&c, params(s.nss, 1 + choose(2) as usize, s.aliases + 1), trace);
    world::start();
    let kind = if choose(2) > 0 { RecordType::A } else { RecordType::MX };
    let (res, trace) = r.new_lookup(&name_of(&qn), kind).perform();
    if told {
        let t = trace.to_string();
        for q in unsafe { &QUERIES } {
            let (name, server) = (unsafe { std::str::from_utf8_unchecked(&q.name) }, server_name(q.ip));
            check(t.lines().any(|l| l.contains(name) && l.contains(&server)), "the trace tells every query");
        }
        if let Ok(v) = &res {
            check(v.0.iter().all(|x| t.contains(&format!("{:?}", x))), "the trace tells the records found");
        }
        check(!t.contains('\u{1b}'), "there is no color unless configured");
    }
    let asked = unsafe { QUERIES.len() };
    let t = truth(&qn, kind.to_num());
    for again in [false, true] {
        let res = if again { r.new_lookup(&name_of(&qn), kind).perform().0 } else { match &res { Ok(v) => Ok(LookupResponse(v.0.clone(), vec![], vec![], v.3)), Err(_) => Err((String::new(), LookupErr::MaxCnameRedir)) } };
        let v = match res {
            Ok(v) => v,
            Err(_) => {
                check(false, "a name that can be resolved is");
                return;
            }
        };
        check(!v.3 && v.0.len() == t.recs.len(), "exactly the records there are");
        for (i, x) in t.recs.iter().enumerate() {
            if i < s.aliases {
                check(same_rr(x, &v.0[i]), "aliases come first, in order");
            } else {
                check(v.0[s.aliases..].iter().any(|y| same_rr(x, y) && x.ttl() == y.ttl()), "every record is returned");
            }
        }
    }
    finish();
    if kind == RecordType::A {
        check(unsafe { QUERIES.len() } == asked, "unexpired answers are used without asking anyone");
    }
    cover(if kind == RecordType::A { "answer" } else { "no data" });
}
/// Any sequence of cache operations at any times behaves as a map with expiry times.
fn h_cache() {
    net::start();
    let c: Cache<u8, Tok> = Cache::new(CacheConf { clean_period: Duration::new(60, 0), max_cleaned: 1 });
    let mut m = [Ent { set: false, s: 0, n: 0, v: 0 }; 2];
    let steps = param(0, 3);
    for i in 0..steps {
        if i > 0 {
            pass_time();
        }
        let op = choose(5);
        if op == 4 {
            c.clean();
            let mut live = 0u64;
            for e in &m {
                live += sel(e.live(), 1, 0);
            }
            unsafe { check(LIVE as u64 == live, "cleaning removes the expired entries and only them") };
            cover("clean");
            continue;
        }
        let k = choose(2) as usize;
        let key = k as u8;
        let old = m[k];
        let was = old.live();
        match op {
            0 => {
                let (s, n) = (u32v() as u64, choose(param(1, 2)) * 500_000_000);
                let v = 100 + i as u32;
                let r = c.set(key, Duration::new(s, n as u32), Tok::new(v));
                check(r.is_some() == was, "set returns the previous unexpired value");
                if let Some((_, t)) = &r {
                    check(t.0 == old.v, "set returns the previous value");
                    cover("replaced");
                }
                let (mut es, mut en) = unsafe { (net::SECS + s, net::NANOS + n) };
                if en >= 1_000_000_000 {
                    es += 1;
                    en -= 1_000_000_000;
                }
                m[k] = Ent { set: true, s: es, n: en, v };
            }
            1 => {
                let r = c.get_clone(&key);
                check(r.is_some() == was, "an entry is found exactly until it expires");
                if let Some((e, t)) = r {
                    check(t.0 == old.v, "the value last set is returned");
                    let left = e.saturating_duration_since(std::time::Instant::now());
                    let (ls, ln) = unsafe { (old.s - net::SECS, old.n.wrapping_sub(net::NANOS)) };
                    let borrow = unsafe { old.n < net::NANOS };
                    check(left.as_secs() == sel(borrow, ls.wrapping_sub(1), ls), "the expiry time is the time of setting plus the TTL");
                    check(left.subsec_nanos() as u64 == sel(borrow, ln.wrapping_add(1_000_000_000), ln), "the expiry time is exact");
                    cover("hit");
                } else if old.set {
                    cover("expired");
                }
            }
            2 => {
                let r = c.remove(&key);
                check(r.is_some() == was, "remove returns the unexpired value");
                if let Some((_, t)) = &r {
                    check(t.0 == old.v, "remove returns the value");
                    cover("removed");
                }
                m[k].set = false;
            }
            _ => {
                let mut seen = 0;
                let r = c.on_found(&key, |_, t| {
                    seen = t.0;
                    t.0 = 200 + i as u32;
                });
                check(r == was, "the callback runs exactly on unexpired entries");
                check(seen as u64 == sel(was, old.v as u64, 0), "the callback sees the value");
                m[k].v = sel(was, 200 + i, old.v as u64) as u32;
                if r {
                    cover("changed");
                }
            }
        }
        // expired entries may linger until they are touched or cleaned; nothing else may
        let held = m.iter().filter(|e| e.set).count() as i64;
        unsafe { check(LIVE <= held, "a removed or replaced value is dropped") };
    }
    // what is left is what the model holds
    for k in 0..2u8 {
        let r = c.get_clone(&k);
        check(r.is_some() == m[k as usize].live(), "final content");
        if let Some((_, t)) = r {
            check(t.0 == m[k as usize].v, "final value");
        }
    }
    drop(c);
    unsafe { check(LIVE == 0, "dropping the cache drops its values") };
    net::done();
}

/// Many keys, set with various times to live and looked at in between.
fn h_cache_many() {
    net::start();
    let n = [9, 17, 65, 257][choose(4) as usize];
    let c: Cache<u16, Tok> = Cache::new(CacheConf { clean_period: Duration::new(60, 0), max_cleaned: [1, 100][choose(2) as usize] });
    // How many different times to live, and what happens to some of the keys later.
    let ttls = [1, 2, 7, n][choose(4) as usize];
    let again = choose(5);
    let t = [1, 300, 1 << 32][choose(3) as usize];
    let v0 = u16v() as u32;
    let mut exp = vec![];
    for k in 0..n {
        exp.push(t + (k % ttls) as u64);
        check(c.set(k as u16, Duration::new(exp[k], 0), Tok::new(v0 + k as u32)).is_none(), "one key never affects another");
    }
    let mut gone = vec![false; n];
    let mut val: Vec<u32> = (0..n as u32).map(|k| v0 + k).collect();
    let from = unsafe { net::SECS };
    for k in (0..n).step_by(3) {
        let key = k as u16;
        match again {
            1 => {
                check(c.remove(&key).is_some_and(|x| x.1 .0 == v0 + k as u32), "remove returns the unexpired value");
                gone[k] = true;
            }
            2 => {
                let r = c.set(key, Duration::new(5, 0), Tok::new(70000));
                check(r.is_some_and(|x| x.1 .0 == v0 + k as u32), "set returns the previous unexpired value");
                exp[k] = 5;
                val[k] = 70000;
            }
            3 => {
                let r = c.on_found(&key, |_, t| t.0 = 80000);
                check(r, "the callback runs exactly on unexpired entries");
                val[k] = 80000;
            }
            4 => {
                let r = c.get_clone(&key);
                check(r.is_some_and(|x| x.1 .0 == v0 + k as u32), "an entry is found exactly until it expires");
            }
            _ => {}
        }
    }
    let d = [0, 5, ttls as u64 / 2, ttls as u64][choose(4) as usize];
    // Some time near the first expiries passes.
    unsafe { net::SECS = from + if choose(2) == 1 { t + d } else { d } };
    let passed = unsafe { net::SECS } - from;
    if choose(2) == 1 {
        c.clean();
        let live = (0..n).filter(|k| !gone[*k] && exp[*k] > passed).count();
        unsafe { check(LIVE as usize == live, "cleaning removes the expired entries and only them") };
        cover("cleaned");
    }
    for k in 0..n {
        let r = c.get_clone(&(k as u16));
        check(r.is_some() == (!gone[k] && exp[k] > passed), "an entry is found exactly until it expires");
        if let Some((e, x)) = r {
            check(x.0 == val[k], "the value last set is returned");
            check(e.saturating_duration_since(std::time::Instant::now()) == Duration::new(exp[k] - passed, 0), "the expiry time is the time of setting plus the TTL");
            cover("hit");
        }
    }
    drop(c);
    unsafe { check(LIVE == 0, "dropping the cache drops its values") };
    net::done();
}
/// Only a response to the query sent is believed: the right host, id, QR flag and question.
fn h_match() {
    unsafe {
        W = None;
        net::SEND = send;
        net::RECV = || {
            let q = last();
            if QUERIES.len() > 1 {
                return None;
            }
            let m = &M;
            let mut b = header(q.id ^ m.id, m.flags, [m.nq, 1, 0, 0]);
            for _ in 0..m.nq {
                b.extend_from_slice(&question(&[m.l, b'.', b'z', b'.'], m.t, m.c));
            }
            b.extend_from_slice(&ref_record(&a(b"a.z.", 5, [6, 6, 6, 6])));
            Some((b, m.ip, m.port))
        };
    }
    net::start();
    let m = unsafe { &mut M };
    m.nq = choose(3) as u16;
    m.id = u16v();
    m.flags = u16v();
    m.l = u8v();
    assume(is_alnum(m.l));
    m.t = u16v();
    m.c = u16v();
    m.port = 53;
    if choose(2) == 1 {
        m.ip = [u8v(), 41, 0, u8v()];
        m.port = u16v();
    }
    let c: Arc<RecordsCache> = Arc::new(Cache::default());
    let retries = choose(2) + 1;
    let nss = choose(2) + 1;
    let r = resolver(&c, nss as usize, retries as usize, 4);
    let (res, _) = r.new_lookup(&name_of(b"a.z."), RecordType::A).perform();
    finish();
    let asked = unsafe { QUERIES.len() } as u64;
    check(asked <= nss * retries, "no more queries than nameservers times attempts");
    for i in 0..nss as usize {
        let n = unsafe { QUERIES.iter().filter(|q| q.ip == ROOT_IPS[i]).count() } as u64;
        check(n <= retries, "no nameserver is asked more often than allowed");
        let refused = and(or(m.flags & 15 != 0, false), n == 1);
        check(or(refused, or(n == retries, res.is_ok())), "a nameserver that does not answer is asked again");
    }
    let ours = [and(m.id == 0, m.flags >> 15 == 1), m.nq == 1, or(m.l == b'a', m.l == b'A'), and(m.t == 1, m.c == 1), and(m.port == 53, and(m.ip[0] == 198, m.ip[3] == 4))];
    let mut all = true;
    for x in ours {
        all = and(all, x);
    }
    match res {
        Ok(v) if !v.0.is_empty() => {
            check(all, "a response to something else is believed");
            check(v.0.len() == 1 && same_rr(&v.0[0], &a(b"a.z.", 5, [6, 6, 6, 6])), "the answer received");
            cover("believed");
        }
        Ok(_) => check(and(all, m.flags & 0x040f == 0x0403), "an answer is taken as a denial"),
        Err(_) => {
            let usual = and(all, and(m.flags & 0x780f == 0, true));
            check(!usual, "a good response is refused");
            cover("refused");
        }
    }
}

/// Whatever name and type is looked up, that is what the servers are asked, as often as
/// configured.
fn h_ask() {
    unsafe {
        W = None;
        net::SEND = send;
        net::RECV = || None;
    }
    net::start();
    let nss = [1, 2, 13, 20][choose(4) as usize];
    let retries = [1, 2, 7][choose(3) as usize];
    let kind = [1, 2, 5, 6, 11, 12, 13, 15, 16][choose(9) as usize];
    let kind = RecordType::from_num(kind).unwrap();
    let (x, y, z) = (u8v(), u8v(), u8v());
    assume(and(and(is_alnum(x), is_ldh(y)), is_alnum(z)));
    let n = match choose(5) {
        0 => b".".to_vec(),
        1 => vec![x, b'.'],
        2 => vec![x, y, z, b'.', y | 1, b'.', b'c', b'O', b'm', b'.'],
        3 => {
            // As long as possible.
            let mut n = vec![];
            for l in [63, 63, 63, 61] {
                n.push(x);
                n.resize(n.len() + l - 2, b'h');
                n.extend_from_slice(&[z, b'.']);
            }
            n
        }
        _ => (0..127).flat_map(|k| [if k == 60 { x } else { b'a' + (k % 26) as u8 }, b'.']).collect(),
    };
    assume(is_alnum(y | 1) || n.len() != 10);
    let c: Arc<RecordsCache> = Arc::new(Cache::default());
    let r = resolver(&c, nss, retries, 4);
    let (res, _) = r.new_lookup(&name_of(&n), kind).perform();
    finish();
    check(res.is_err(), "an answer is made up");
    unsafe {
        check(QUERIES.len() == nss.min(13) * retries, "each nameserver is asked as often as configured");
        let mut ips: Vec<[u8; 4]> = vec![];
        for q in &QUERIES {
            check(q.qtype == kind.to_num(), "the type searched is asked for");
            check(same(&q.name, &n), "the name searched is asked for");
            if !ips.contains(&q.ip) {
                ips.push(q.ip);
            }
        }
        check(ips.len() == nss.min(13) && ips.iter().all(|i| is_root_ip(*i)), "the root servers are asked");
    }
    cover("asked");
}
/// Responses of any size up to the limit are taken.
fn h_size() {
    static mut SIZE: usize = 0;
    unsafe {
        W = None;
        net::SEND = send;
        net::RECV = || {
            let q = last();
            let mut b = header(q.id, AA, [1, 1, 0, 0]);
            b.extend_from_slice(&question(&q.name, q.qtype, 1));
            b.extend_from_slice(&ref_record(&a(b"a.z.", 5, [6, 6, 6, 7])));
            while b.len() + 11 <= SIZE {
                let k = (SIZE - b.len() - 11).min(200);
                if k < 2 {
                    break;
                }
                b.extend_from_slice(&[0, 0, 16, 0, 1, 0, 0, 0, 9, 0, k as u8, k as u8 - 1]);
                b.resize(b.len() + k - 1, b'y');
                b[11] += 1;
            }
            Some((b, q.ip, 53))
        };
        SIZE = [100, 255, 256, 257, 300, 498, 505, 509, 510, 511, 512][choose(11) as usize];
    }
    net::start();
    let c: Arc<RecordsCache> = Arc::new(Cache::default());
    let r = resolver(&c, 1, 1, 4);
    let (res, _) = r.new_lookup(&name_of(b"a.z."), RecordType::A).perform();
    finish();
    match res {
        Ok(v) => check(v.0.len() == 1 && same_rr(&v.0[0], &a(b"a.z.", 5, [6, 6, 6, 7])), "the answer received"),
        Err(_) => check(false, "a good response is refused"),
    }
}
/// Traces tell what was asked and answered, and change nothing.
fn h_trace() {
    let (verbose, silent, color) = (choose(2) == 1, choose(3) == 0, choose(2) == 1);
    colored::control::set_override(true);
    let style = choose(6);
    let fault = [9, 0, 1, 3][choose(4) as usize];
    let mut wd = world(style, TTLS, 0, true);
    wd.chase = choose(2) == 1;
    wd.extra = wd.chase;
    if fault < 9 {
        wd.fault = fault;
        wd.fault_at = choose(3) as usize;
        wd.faults = 1;
    }
    unsafe { W = Some(wd) };
    let (qn, kind) = [
        (&b"a.z.t."[..], RecordType::A), (b"f.z.t.", RecordType::A), (b"x.z.t.", RecordType::A), (b"z.t.", RecordType::TXT), (b"a.z.t.", RecordType::MX), (b"z.t.", RecordType::NS),
    ][choose(6) as usize];
    let c: Arc<RecordsCache> = Arc::new(Cache::default());
    let r = Resolver::new(&c, params(3, 2, 4), TraceParams { verbose, silent, color });
    world::start();
    let (res, trace) = r.new_lookup(&name_of(qn), kind).perform();
    let asked = unsafe { QUERIES.len() };
    let (res2, trace2) = r.new_lookup(&name_of(qn), kind).perform();
    let t = truth(qn, kind.to_num());
    let (res, res2) = match (res, res2) {
        (Ok(v), Ok(w)) => (v, w),
        _ => {
            check(false, "tracing changes what is found");
            return;
        }
    };
    check(res.3 == t.nx && res2.3 == t.nx && res.0.len() == t.recs.len() && res2.0.len() == t.recs.len(), "tracing changes what is found");
    let (text1, text2) = (trace.to_string(), trace2.to_string());
    check(format!("{:?}", trace).is_empty() == text1.is_empty(), "traces can be shown");
    if silent {
        check(trace.is_empty() && trace2.is_empty(), "a silent lookup leaves no trace");
        cover("silent");
        finish();
        return;
    }
    check(!trace.is_empty() && !trace2.is_empty(), "lookups leave a trace");
    if !color {
        check(!text1.contains('\u{1b}') && !text2.contains('\u{1b}'), "there is no color unless configured");
    }
    finish();
    for (i, q) in unsafe { QUERIES.iter().enumerate() } {
        let t = if i < asked { &text1 } else { &text2 };
        let name = unsafe { std::str::from_utf8_unchecked(&q.name) };
        let server = server_name(q.ip);
        check(t.lines().any(|l| l.contains(name) && l.contains(&server)), "the trace tells every query");
    }
    for (i, ns, ar) in unsafe { REFERRALS.iter() } {
        let t = if *i < asked { &text1 } else { &text2 };
        for n in ns {
            check(t.contains(&format!("{:?}", n)), "the trace tells the nameservers found");
            for x in ar {
                if same(text(x.node()), text(n.ns_data())) {
                    check(t.contains(&format!("{:?}", x)), "the trace tells the addresses of the nameservers found");
                }
            }
        }
        cover("delegation");
    }
    for (v, t) in [(&res, &text1), (&res2, &text2)] {
        for x in &v.0 {
            check(t.contains(&format!("{:?}", x)), "the trace tells the records found");
        }
    }
    cover(if unsafe { QUERIES.len() } == asked { "cached" } else { "asked" });
}
/// A second lookup any time later, after the data has changed: cached records are used
/// until they expire and not longer, and an outdated part of the cache never prevents
/// finding the answer.
fn h_reuse() {
    const NAMES: [(&[u8], RecordType); 12] = [
        (b"a.z.t.", RecordType::A), (b"d.z.t.", RecordType::A), (b"x.z.t.", RecordType::A), (b"c.z.t.", RecordType::A), (b"n.z.t.", RecordType::A),
        (b"z.t.", RecordType::NS), (b"n.t.", RecordType::A), (b"q.u.", RecordType::A), (b"h.u.", RecordType::A), (b"e.z.t.", RecordType::A), (b"a.z.t.", RecordType::MX), (b"f.z.t.", RecordType::A),
    ];
    let style = choose(5);
    let (n1, n2) = (choose(param(0, 2)) as usize, choose(param(1, 7)) as usize);
    let tt = Ttls { a: u32v(), b: u32v(), ns: u32v(), ns2: u32v(), glue: u32v() };
    let later = Ttls { a: 77, b: 78, ns: 79, ns2: 80, glue: 81 };
    let (chase, extra) = match param(2, 0) {
        0 => { let x = choose(2) == 1; (x, x) }
        _ => (choose(2) == 1, choose(2) == 1),
    };
    let mk = |t, v| {
        let mut wd = world(style, t, v, false);
        wd.chase = chase;
        wd.extra = extra;
        wd
    };
    let c: Arc<RecordsCache> = Arc::new(Cache::default());
    let r = resolver(&c, 3, 1, 4);
    unsafe { W = Some(mk(tt, 0)) };
    world::start();
    let (res1, _) = r.new_lookup(&name_of(NAMES[n1].0), NAMES[n1].1).perform();
    check(res1.is_ok(), "the first lookup succeeds");
    let asked1 = unsafe { QUERIES.len() };
    let (name, kind) = NAMES[n2];
    let t0 = truth(name, kind.to_num());
    let dt = u64v();
    assume(dt < 1 << 33);
    unsafe {
        net::SECS += dt;
        W = Some(mk(later, 1));
    }
    let t1 = truth(name, kind.to_num());
    let (res, _) = r.new_lookup(&name_of(name), kind).perform();
    finish();
    let asked = unsafe { QUERIES.len() } - asked1;
    match res {
        Err(_) => check(false, "a name that can be resolved is, whatever is cached"),
        Ok(v) => {
            check(v.3 == t1.nx, "the name is reported as missing exactly if it is");
            check(v.0.len() == t1.recs.len(), "exactly the records there are");
            for y in &v.0 {
                let (mut old, mut fresh) = (false, false);
                let mut set = u32::MAX;
                for x in &t0.recs {
                    if x.node() == y.node() && x.record_type() == y.record_type() {
                        set = sel(*x.ttl() < set, *x.ttl() as u64, set as u64) as u32;
                    }
                    old = or(old, same_rr(x, y));
                }
                for x in &t1.recs {
                    fresh = or(fresh, and(same_rr(x, y), x.ttl() == y.ttl()));
                }
                let live = and(dt < set as u64, *y.ttl() as u64 == (set as u64).wrapping_sub(dt));
                check(or(and(old, live), fresh), "a cached record is used until it expires, with the remaining time to live");
            }
            if n1 == n2 && !t1.recs.is_empty() && !t1.nx {
                let mut dead = false;
                for x in &t0.recs {
                    dead = or(dead, dt >= *x.ttl() as u64);
                }
                check(or(asked == 0, dead), "unexpired answers come from the cache");
                check(or(asked > 0, !dead), "expired answers are asked for again");
            }
            cover(if asked == 0 { "from cache" } else if t1.nx { "nxdomain" } else { "asked" });
        }
    }
}

/// A hostile server for z.t.: it controls what is found in its zone and nothing else.
fn h_poison() {
    let style = [0, 1, 3][choose(param(2, 3)) as usize];
    let mut wd = world(style, TTLS, 0, false);
    wd.evil = Some(evil::plan());
    unsafe { W = Some(wd) };
    let c: Arc<RecordsCache> = Arc::new(Cache::default());
    let r = resolver(&c, 3, 1, 4);
    world::start();
    let first = [&b"a.s.z.t."[..], b"z.t."][choose(2) as usize];
    let kind = [RecordType::A, RecordType::NS][choose(2) as usize];
    let (res, _) = r.new_lookup(&name_of(first), kind).perform();
    if let Ok(v) = &res {
        is_chain(&name_of(first), kind, &v.0);
    }
    cover(if res.is_ok() { "resolved" } else { "failed" });
    for (n, k) in [(&b"s.z.t."[..], RecordType::NS), (b"a.s.z.t.", RecordType::NS)] {
        if let (Ok(v), _) = r.new_lookup(&name_of(n), k).perform() {
            is_chain(&name_of(n), k, &v.0);
        }
    }
    for (n, k) in [(&b"h.u."[..], RecordType::A), (b"q.u.", RecordType::A), (b"u.", RecordType::NS), (b"t.", RecordType::NS), (b"p.t.", RecordType::A), (b"h.u.", RecordType::NS), (b"www.u.", RecordType::A)] {
        let (res, _) = r.new_lookup(&name_of(n), k).perform();
        let t = truth(n, k.to_num());
        match res {
            Err(_) => check(false, "a hostile server prevents finding names of other zones"),
            Ok(v) => {
                check(v.3 == t.nx && v.0.len() == t.recs.len(), "a hostile server changes what is found in other zones");
                for y in &v.0 {
                    check(t.recs.iter().any(|x| same_rr(x, y)), "a hostile server forges records of other zones");
                }
            }
        }
    }
    finish();
}

/// Servers that never come to an end: each answer leads to names never seen before.
fn h_endless() {
    unsafe {
        W = None;
        net::SEND = send;
        net::RECV = evil::endless;
        evil::WAY = choose(11);
    }
    net::start();
    let (nss, retries, cnames) = (1 + choose(2), 1 + choose(2), 1 + choose(3));
    let c: Arc<RecordsCache> = Arc::new(Cache::default());
    let r = resolver(&c, nss as usize, retries as usize, cnames as usize);
    let (res, _) = r.new_lookup(&name_of(b"a.a."), RecordType::A).perform();
    finish();
    check(res.is_err(), "an answer is made up");
    cover("ended");
    let asked = unsafe { QUERIES.len() } as u64;
    let way = unsafe { evil::WAY };
    if way == 0 {
        check(asked == cnames, "as many aliases are followed as configured");
    }
    check(asked <= 20_000, "queries without end");
}

/// Whatever two servers in a row answer, the lookup ends without a crash and with an
/// answer to the question, or an error.
fn h_any() {
    unsafe {
        W = None;
        net::SEND = send;
        net::RECV = evil::two_steps;
        evil::PLANS = [evil::plan(), evil::SECOND[choose(param(0, 1)) as usize]];
    }
    net::start();
    let c: Arc<RecordsCache> = Arc::new(Cache::default());
    let r = resolver(&c, 2, 2, 3);
    let n = [&b"a.s.z.t."[..], b"z.t.", b"."][choose(param(2, 3)) as usize];
    let kind = [RecordType::A, RecordType::NS, RecordType::CNAME, RecordType::SOA][choose(param(3, 4)) as usize];
    for _ in 0..2 {
        let (res, _) = r.new_lookup(&name_of(n), kind).perform();
        match &res {
            Ok(v) => {
                is_chain(&name_of(n), kind, &v.0);
                cover("resolved");
            }
            Err(_) => cover("failed"),
        }
        unsafe { net::SECS += 800 };
    }
    finish();
    check(unsafe { QUERIES.len() } <= 200, "too many queries");
}

/// Any header over any request body: one reply with the right code, or silence when not
/// even the header can be read.
fn h_rsv_requests() {
    unsafe { W = Some(world(4, TTLS, 0, false)) };
    world::start();
    let (id, fl) = (u16v(), u16v());
    let (v, kept, bad) = gen_request(id, fl, b"h.u.");
    let replies = ask(&v);
    finish();
    let asked = unsafe { QUERIES.len() };
    let opc = (fl >> 11) & 15;
    if or(opc > 2, fl & 15 > 5) {
        cover("unreadable header");
        check(replies.is_empty() && asked == 0, "no reply when the header cannot be decoded");
        return;
    }
    check(replies.len() == 1, "exactly one reply per request");
    if replies.len() != 1 {
        return;
    }
    let m = &replies[0];
    check_echo(m, id, fl);
    let code = rcode_num(m.header.resp_code);
    if opc != 0 || bad == 2 {
        cover("not implemented");
        check(code == 4, "unsupported features are reported as not implemented");
    } else if bad == 1 || fl >= 0x8000 || kept[0] != 1 || kept[1] != 0 || kept[2] != 0 {
        cover("format error");
        check(code == 1, "malformed requests are reported as format errors");
    } else {
        cover("served");
        check(code == 0 && m.answers.len() == 1, "a well-formed query is served");
        return;
    }
    check(asked == 0, "nothing is asked for a request that is not served");
    check(m.answers.is_empty() && m.authorities.is_empty() && m.additionals.is_empty(), "an error reply carries no records");
}
/// Any valid query: the reply carries what the lookup finds.
fn h_rsv_replies() {
    let mut wd = world(choose(5), TTLS, 0, false);
    wd.extra = choose(2) == 1;
    let silent = choose(2) == 1;
    if silent {
        wd.fault = [0, 1, 5, 6, 7][choose(5) as usize];
        wd.fault_at = choose(3) as usize;
        wd.faults = 1000;
    }
    unsafe { W = Some(wd) };
    world::start();
    let l = u8v();
    assume(is_alnum(l));
    let qn = match choose(3) {
        0 => [l, b'.', b'z', b'.', b't', b'.'].to_vec(),
        1 => [l, b'.', b'u', b'.'].to_vec(),
        _ => b"z.t.".to_vec(),
    };
    let ty = [1, 2, 5, 15][choose(4) as usize];
    let (id, fl) = (u16v(), u16v());
    assume(and(fl & 0xf800 == 0, fl & 15 <= 5));
    let mut v = header(id, fl, [1, 0, 0, 0]);
    v.extend_from_slice(&question(&qn, ty, 1));
    let replies = ask(&v);
    finish();
    let t = truth(&qn, ty);
    check(replies.len() == 1, "exactly one reply per request");
    if replies.len() != 1 {
        return;
    }
    let m = &replies[0];
    check_echo(m, id, fl);
    check(m.questions.len() == 1 && m.questions[0].record_type.to_num() == ty && bytes_eq(text(&m.questions[0].node), &qn), "the question is echoed");
    let code = rcode_num(m.header.resp_code);
    if silent && code == 2 {
        cover("failed");
        check(m.answers.is_empty() && m.authorities.is_empty() && m.additionals.is_empty(), "a failure carries no records");
        return;
    }
    if t.nx {
        cover("nxdomain");
        check(code == 3, "a name that does not exist is reported as such");
        return;
    }
    cover("answered");
    check(code == 0, "a query that can be answered is");
    check(m.answers.len() == t.recs.len(), "exactly the answers there are");
    for x in &t.recs {
        check(m.answers.iter().any(|y| same_rr(x, y) && x.ttl() == y.ttl()), "every answer is there");
    }
}
}
fn ask(raw: &[u8]) -> Vec<Message> {
    let c: Arc<RecordsCache> = Arc::new(Cache::default());
    let h = ResolverHandler(resolver(&c, 3, 1, 4));
    let mut out = vec![];
    h.handle_request(Raw(raw), Cap(&mut out));
    for m in &out {
        match m.encode_to_bytes_trunc() {
            Ok(v) => check(Message::decode_from_bytes(&v).is_ok() || !matches!(m.header.op_code, OpCode::STD), "the reply can be decoded"),
            Err(_) => check(false, "the reply can be sent over UDP"),
        }
        check(m.encode_to_bytes().is_ok(), "the reply can be sent over TCP");
    }
    out
}
fn check_echo(m: &Message, id: u16, w: u16) {
    let h = &m.header;
    check(h.id == id, "the reply carries the request's id");
    check(h.query_resp, "the reply is marked as a response");
    check(h.op_code.to_num() as u16 == (w >> 11) & 15, "the reply carries the request's opcode");
    check(h.recursion_desired == ((w >> 8) & 1 == 1), "the reply carries the request's RD flag");
    check(h.recursion_available, "a resolver offers recursion");
    check(!h.auth_answer, "a resolver is not an authority");
    check(h.z == 0, "Z is zero in replies");
    check(!h.truncated, "TC is not copied from the request");
    check(h.questions_count as usize == m.questions.len() && h.answers_count as usize == m.answers.len() && h.authorities_count as usize == m.authorities.len()
        && h.additionals_count as usize == m.additionals.len(), "header counts describe the sections");
}
/// Answers start at the name asked and follow the aliases, ending with records of the type asked.
pub fn is_chain(n: &Name, kind: RecordType, v: &[Record]) {
    let mut n = n.clone();
    let mut last = false;
    for r in v {
        check(*r.node() == n, "an answer belongs to the name asked or the alias before it");
        if r.record_type() == kind {
            last = true;
        } else {
            check(!last && r.record_type() == RecordType::CNAME, "answers are of the type asked, after the aliases");
            n = r.cname_data().clone();
        }
    }
}
