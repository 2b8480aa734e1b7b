//! The cache used by several threads at once, and its cleaning thread.
use super::*;
use ariadne_dns::resolver::{Cache, CacheConf};

#[derive(Clone, Copy, PartialEq)]
struct Entry {
    dead: bool,
    val: u32,
}
type State = [Option<Entry>; 2];
#[derive(Clone, Copy)]
struct Op {
    kind: u64,
    key: usize,
    val: u32,
}
/// What an operation returns, and what it makes of the state.
fn model(s: &mut State, o: Op) -> u32 {
    let e = s[o.key].filter(|e| !e.dead);
    match o.kind {
        0 => s[o.key] = Some(Entry { dead: false, val: o.val }),
        1 => (),
        2 => s[o.key] = None,
        3 => {
            if e.is_some() {
                s[o.key] = Some(Entry { dead: false, val: o.val });
            }
        }
        _ => return 0,
    }
    e.map_or(0, |e| e.val)
}
fn real(c: &Cache<u8, u32>, o: Op) -> u32 {
    let k = o.key as u8;
    match o.kind {
        0 => c.set(k, Duration::new(100, 0), o.val).map_or(0, |x| x.1),
        1 => c.get_clone(&k).map_or(0, |x| x.1),
        2 => c.remove(&k).map_or(0, |x| x.1),
        3 => {
            let mut old = 0;
            c.on_found(&k, |_, v| {
                old = *v;
                *v = o.val;
            });
            old
        }
        _ => {
            c.clean();
            0
        }
    }
}
static mut GOT: [[u32; 4]; 2] = [[0; 4]; 2];

/// Whether some order of the operations, keeping that of each thread, explains the results.
fn explained(ops: &[Vec<Op>], at: [usize; 2], s: State, end: &[u32; 2]) -> bool {
    let mut last = true;
    for t in 0..2 {
        if at[t] < ops[t].len() {
            last = false;
            let mut s = s;
            if model(&mut s, ops[t][at[t]]) == unsafe { GOT[t][at[t]] } {
                let mut at = at;
                at[t] += 1;
                if explained(ops, at, s, end) {
                    return true;
                }
            }
        }
    }
    last && (0..2).all(|k| s[k].filter(|e| !e.dead).map_or(0, |e| e.val) == end[k])
}

/// Operations of two threads behave as if they were done one after the other.
#[no_mangle]
pub extern "C" fn h_cache_threads() {
    let n = [param(0, 1) as usize, param(1, 1) as usize];
    sched::start(0);
    let c: Arc<Cache<u8, u32>> = Arc::new(Cache::new(CacheConf { clean_period: Duration::new(60, 0), max_cleaned: 500 }));
    let mut s: State = [None; 2];
    for k in 0..2 {
        match choose(3) {
            0 => (),
            1 => {
                c.set(k as u8, Duration::new(50, 0), 1 + k as u32);
                s[k] = Some(Entry { dead: false, val: 1 + k as u32 });
            }
            _ => {
                c.set(k as u8, Duration::new(0, 0), 7);
                s[k] = Some(Entry { dead: true, val: 7 });
            }
        }
    }
    let mut ops: Vec<Vec<Op>> = vec![];
    for t in 0..2 {
        // The first operation is on the first key.
        ops.push((0..n[t]).map(|i| Op { kind: choose(5), key: if t + i == 0 { 0 } else { choose(2) as usize }, val: (10 + 5 * t + i) as u32 }).collect());
    }
    sched::budget(param(2, 2));
    let mut hs = vec![];
    for t in 0..2 {
        let (o, c) = (ops[t].clone(), c.clone());
        hs.push(std::thread::spawn(move || {
            for (i, o) in o.iter().enumerate() {
                unsafe { GOT[t][i] = real(&c, *o) };
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    sched::budget(0);
    let end = [c.get_clone(&0).map_or(0, |x| x.1), c.get_clone(&1).map_or(0, |x| x.1)];
    check(explained(&ops, [0, 0], s, &end), "the operations behave as if done one after the other");
    if ops[0][0].kind == 0 && unsafe { GOT[0][0] } >= 10 {
        cover("second before first");
    }
    sched::done();
}

static mut ALIVE: u64 = 0;
struct Tok(u64);
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe { ALIVE &= !(1 << self.0) };
    }
}
/// The cleaning thread removes entries within a period of their expiry, for good, and no others.
#[no_mangle]
pub extern "C" fn h_cleaner() {
    let period = [1, 7, 60][choose(3) as usize] * SEC;
    sched::start(0);
    let c: Arc<Cache<u8, Tok>> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_nanos(period), max_cleaned: 1 + choose(2) }));
    c.start_clean_routine();
    sched::idle();
    // Expiry of the entries.
    let mut end: Vec<u64> = vec![];
    let quarter = period / 4;
    for _ in 0..param(0, 4) {
        for _ in 0..choose(3) {
            let k = end.len() as u64;
            let ttl = [1, 3, 10][choose(3) as usize] * quarter + 1;
            unsafe { ALIVE |= 1 << k };
            c.set(k as u8, Duration::from_nanos(ttl), Tok(k));
            end.push(sched::now() + ttl);
        }
        sched::sleep_until(sched::now() + (1 + choose(2) * 4) * quarter);
        let now = sched::now();
        for (k, e) in end.iter().enumerate() {
            let alive = unsafe { ALIVE >> k & 1 == 1 };
            if *e > now {
                check(alive, "unexpired entries stay");
            } else if e + period <= now {
                check(!alive, "expired entries are gone within a period");
                cover("cleaned");
            }
        }
    }
    sched::done();
}
