//! Lookups of several threads with one cache.
use super::*;
use ariadne_dns::resolver::{Cache, RecordsCache, Resolver, ResolverParams, TraceParams};
use ariadne_dns::shared::dns::{Name, RecordType};

/// The time to live of everything in the world.
static mut TTL: u32 = 0;
/// When something about a name was told, and by whom it was asked.
static mut TOLD: Vec<(u8, usize, u64)> = Vec::new();
const NS: [u8; 4] = [9, 9, 9, 9];

/// Root servers that know of z., with one server, that knows a.z. with two addresses and b.z.,
/// an alias of a.z. and another address for d.z.
fn world(to: &Addr, q: &[u8]) -> Option<Vec<u8>> {
    unsafe {
        let l = q.len();
        check(l == 21 && to.1 == 53 && q[12] == 1 && q[14..17] == [1, b'z', 0], "the resolver asks what it should");
        let t = TTL.to_be_bytes();
        let mut r = q.to_vec();
        r[2] |= 0x80;
        if to.0 != NS {
            r[9] = 1;
            r[11] = 1;
            r.extend_from_slice(&[1, b'z', 0, 0, 2, 0, 1, t[0], t[1], t[2], t[3], 0, 5, 1, b'n', 1, b'z', 0]);
            r.extend_from_slice(&[1, b'n', 1, b'z', 0, 0, 1, 0, 1, t[0], t[1], t[2], t[3], 0, 4, 9, 9, 9, 9]);
            return Some(r);
        }
        r[2] |= 4;
        TOLD.push((q[13], sym_self(), sched::now()));
        match q[13] {
            b'a' | b'd' => {
                let n = if q[13] == b'a' { 2 } else { 1 };
                r[7] = n;
                for k in 0..n {
                    r.extend_from_slice(&[0xc0, 12, 0, 1, 0, 1, t[0], t[1], t[2], t[3], 0, 4, 7, 7, q[13], k]);
                }
            }
            b'b' => {
                r[7] = 1;
                r.extend_from_slice(&[0xc0, 12, 0, 5, 0, 1, t[0], t[1], t[2], t[3], 0, 5, 1, b'a', 1, b'z', 0]);
            }
            b'n' => {
                r[7] = 1;
                r.extend_from_slice(&[0xc0, 12, 0, 1, 0, 1, t[0], t[1], t[2], t[3], 0, 4, 9, 9, 9, 9]);
            }
            _ => r[3] |= 3,
        }
        Some(r)
    }
}

/// A finished lookup: the name, when it was started and ended, and by which thread.
struct Done {
    name: u8,
    start: u64,
    end: u64,
    th: usize,
    /// Names and TTLs of its records.
    got: Vec<(u8, u32)>,
}
static mut DONE: Vec<Done> = Vec::new();

fn look(r: &Resolver, name: u8) {
    let start = sched::now();
    let n = Name::from_string(unsafe { std::str::from_utf8_unchecked(&[name, b'.', b'z', b'.']) });
    let n = match n {
        Ok(n) => n,
        Err(_) => return,
    };
    let (res, _) = r.new_lookup(&n, RecordType::A).perform();
    let end = sched::now();
    let mut got = vec![];
    match res {
        Err(_) => check(false, "a name that can be resolved is"),
        Ok(v) => {
            check(v.3 == (name == b'c'), "the name is reported as missing exactly if it is");
            let mut a = [0; 2];
            for (i, x) in v.0.iter().enumerate() {
                let at = x.node().as_ref().as_bytes()[0];
                got.push((at, *x.ttl()));
                if name == b'b' && i == 0 {
                    check(at == b'b' && x.record_type() == RecordType::CNAME, "aliases come first, in order");
                    continue;
                }
                let want = if name == b'd' { b'd' } else { b'a' };
                let d = x.a_data();
                check(x.record_type() == RecordType::A && at == want && d[..3] == [7, 7, want] && d[3] < 2, "exactly the records there are");
                a[d[3] as usize] += 1;
            }
            let n = match name { b'a' => [1, 1], b'b' => [1, 1], b'd' => [1, 0], _ => [0, 0] };
            check(a == n && v.0.len() == n[0] + n[1] + (name == b'b') as usize, "exactly the records there are");
        }
    }
    unsafe { DONE.push(Done { name, start, end, th: sym_self(), got }) };
}

extern "C" {
    fn sym_self() -> usize;
}
/// Two threads look names up at the same time.
#[no_mangle]
pub extern "C" fn h_lookups() {
    sched::start(0);
    host::start();
    unsafe {
        host::WORLD = Some(world);
        host::LATENCY = [0, SEC / 2][choose(2) as usize];
        TTL = u32v();
    }
    let c: Arc<RecordsCache> = Arc::new(Cache::default());
    let conf = ResolverParams { max_ns_queried: 1, max_upd_retries: 1, max_cname_redir: 3, read_timeout: Duration::new(2, 0), write_timeout: Duration::new(2, 0), no_follow_cname: false };
    let names: Vec<Vec<u8>> = (0..2).map(|t| (0..param(t, 1)).map(|_| [b'a', b'b', b'c', b'd'][choose(4) as usize]).collect()).collect();
    // What is in the cache before: nothing, the name server, or the addresses.
    let before = choose(3);
    let r = Resolver::new(&c, conf.clone(), TraceParams { verbose: false, silent: true, color: false });
    if before > 0 {
        look(&r, if before == 1 { b'c' } else { b'a' });
        if choose(2) == 1 {
            sched::sleep_until(sched::now() + SEC * 3 / 4);
        }
    }
    unsafe { sched::STALL = [0, SEC * 2][choose(2) as usize] };
    sched::budget(param(2, 1));
    let mut hs = vec![];
    for n in names {
        let (c, conf) = (c.clone(), conf.clone());
        hs.push(std::thread::spawn(move || {
            let r = Resolver::new(&c, conf, TraceParams { verbose: false, silent: true, color: false });
            for x in n {
                look(&r, x);
            }
        }));
    }
    for h in hs {
        check(h.join().is_ok(), "lookups end without a crash");
    }
    sched::budget(0);
    unsafe {
        let t = TTL as i64;
        let secs = |a: u64, b: u64| (a as i64 - b as i64).div_euclid(SEC as i64);
        for d in &DONE {
            for (name, ttl) in &d.got {
                let ttl = *ttl as i64;
                // Some response explains the time to live: told by then, and kept no longer than from the
                // end of the lookup that got it.
                let mut ok = false;
                for w in TOLD.iter().filter(|w| w.0 == *name && w.2 <= d.end) {
                    let e = DONE.iter().filter(|x| x.th == w.1 && x.start <= w.2 && w.2 <= x.end).map(|x| x.end).max().unwrap_or(0);
                    ok = or(ok, and(ttl - t <= secs(e, d.start), ttl - t + 1 > secs(w.2, d.end)));
                }
                check(and(ok, ttl <= t), "the time to live is what remains of it");
                if ttl < t {
                    cover("older");
                }
            }
            if d.got.iter().all(|g| !TOLD.iter().any(|w| w.0 == g.0 && w.1 == d.th)) {
                cover("from the other");
            }
        }
    }
    cover("done");
    host::done();
    sched::done();
}
