mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

#[repr(C)]
struct Shared { active: AtomicI64, spawned: AtomicI64, stop: AtomicI64, paths: AtomicU64 }

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn getpid() -> i32;
    fn kill(p: i32, s: i32) -> i32;
}

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }
fn argd(a: &[String], k: &str, d: u64) -> u64 { arg(a, k).map(|v| v.parse().unwrap()).unwrap_or(d) }
fn args_all(a: &[String], k: &str) -> Vec<String> { a.iter().enumerate().filter(|(_, x)| *x == k).filter_map(|(i, _)| a.get(i + 1).cloned()).collect() }

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
fn parse_nums(s: &str) -> Vec<u64> { if s.is_empty() { vec![] } else { s.split(',').map(|x| x.parse().unwrap()).collect() } }

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let irf = arg(&a, "--ir").expect("--ir");
    let harness = arg(&a, "--harness").expect("--harness");
    let procs = argd(&a, "--procs", 8) as i64;
    let maxsec = argd(&a, "--max-seconds", 600);
    let outdir = arg(&a, "--out").unwrap_or_else(|| format!("/tmp/rsx.{}", std::process::id()));
    let t0 = std::time::Instant::now();
    let src = std::fs::read_to_string(&irf).unwrap();
    let m = ir::Module::parse(&src);
    drop(src);
    let mut redirects: Vec<(String, String)> = vec![("BuildHasher&hash_one".into(), "const:7640891576956012808".into()), ("rand_chacha&guts&refill_wide".into(), "fill:1:256".into()), ("rand_chacha&guts&init_chacha".into(), "nop".into())];
    for r in args_all(&a, "--redirect") { let (x, y) = r.split_once('=').unwrap(); redirects.push((x.to_string(), y.to_string())); }
    let cfg = Cfg { max_instr: argd(&a, "--max-instr", 20_000_000), heap_ite: argd(&a, "--heap-ite", 16), known: args_all(&a, "--known"), audit: argd(&a, "--audit", 100), redirects, params: arg(&a, "--params").map(|s| parse_nums(&s)).unwrap_or_default(), samples: argd(&a, "--samples", 12) as usize, argv: args_all(&a, "--argv") };
    let mut ex = Exec::new(m, cfg);
    if !ex.start(&harness) { println!("{{\"error\":\"no such harness {}\"}}", harness); return 2 }
    std::fs::create_dir_all(&outdir).unwrap();
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    sh.active.store(1, Ordering::SeqCst);
    sh.spawned.store(1, Ordering::SeqCst);
    let mut fds = [0i32; 2];
    unsafe { pipe(fds.as_mut_ptr()); }
    let root = unsafe { getpid() };
    let mut timed_out = false;
    let mut poll = |ex: &mut Exec| -> bool {
        if sh.stop.load(Ordering::Relaxed) != 0 { return true }
        if unsafe { kill(root, 0) } != 0 { unsafe { _exit(9) } }
        if t0.elapsed().as_secs() > maxsec { timed_out = true; sh.stop.store(2, Ordering::SeqCst); return true }
        if !ex.stack.is_empty() && sh.active.load(Ordering::Relaxed) < procs {
            let n = sh.active.fetch_add(1, Ordering::SeqCst);
            if n >= procs { sh.active.fetch_sub(1, Ordering::SeqCst); return false }
            sh.spawned.fetch_add(1, Ordering::SeqCst);
            let pid = unsafe { fork() };
            if pid < 0 { sh.active.fetch_sub(1, Ordering::SeqCst); sh.spawned.fetch_sub(1, Ordering::SeqCst); return false }
            let k = (ex.stack.len() + 1) / 2;
            if pid == 0 {
                // child takes the oldest half
                ex.stack.truncate(k);
                ex.stats = Stats::default();
                ex.sol.queries = 0; ex.sol.cache_hits = 0; ex.sol.time = 0.0; ex.sol.max_time = 0.0; ex.sol.unknowns = 0;
                for h in ex.hit.iter_mut() { for x in h.iter_mut() { *x = false } }
                ex.st = ex.stack.pop().unwrap();
            } else {
                ex.stack.drain(..k);
            }
        }
        false
    };
    ex.explore(&mut poll);
    if ex.stop { sh.stop.store(1, Ordering::SeqCst) }
    // write this process's results
    let pid = unsafe { getpid() };
    let mut f = Vec::new();
    {
        let s = &ex.stats;
        writeln!(f, "n paths {}", s.paths).unwrap();
        writeln!(f, "n infeasible {}", s.infeasible).unwrap();
        writeln!(f, "n instrs {}", s.instrs).unwrap();
        writeln!(f, "n forks {}", s.forks).unwrap();
        writeln!(f, "n asserts {}", s.asserts).unwrap();
        writeln!(f, "n asserts_const {}", s.asserts_const).unwrap();
        writeln!(f, "n assert_queries {}", s.assert_queries).unwrap();
        writeln!(f, "n dom_queries {}", s.dom_queries).unwrap();
        writeln!(f, "n audited {}", s.audited).unwrap();
        writeln!(f, "n queries {}", ex.sol.queries).unwrap();
        writeln!(f, "n cache_hits {}", ex.sol.cache_hits).unwrap();
        writeln!(f, "n solver_us {}", (ex.sol.time * 1e6) as u64).unwrap();
        writeln!(f, "n left {}", if sh.stop.load(Ordering::SeqCst) != 0 { ex.stack.len() } else { 0 }).unwrap();
        writeln!(f, "n nodes {}", expr::cx().nodes.len()).unwrap();
        writeln!(f, "m max_query_us {}", (ex.sol.max_time * 1e6) as u64).unwrap();
        writeln!(f, "m max_vars {}", s.max_vars).unwrap();
        writeln!(f, "m max_depth {}", s.max_depth).unwrap();
        for (k, v) in &s.covers { writeln!(f, "c {}\t{}", k, v).unwrap() }
        for (k, v) in &s.outcomes { writeln!(f, "o {}\t{}", k, v).unwrap() }
        for (k, v) in &s.errors { writeln!(f, "e {}\t{}", k.replace('\n', " "), v).unwrap() }
        for v in &s.violations { writeln!(f, "v {}\t{}\t{}", v.key, v.detail.replace(['\n', '\t'], " "), nums(&v.stream)).unwrap() }
        for v in &s.samples { writeln!(f, "s {}\t{}\t{}\t{}", v.outcome, nums(&v.stream), nums(&v.log), v.covers.join("|")).unwrap() }
        let mut names: BTreeSet<String> = BTreeSet::new();
        for (fi, h) in ex.hit.iter().enumerate() {
            for (pc, b) in h.iter().enumerate() {
                if !*b { continue }
                let mut d = ex.m.funcs[fi].code[pc].dbg;
                let mut guard = 0;
                while d != 0 && guard < 100 {
                    guard += 1;
                    let l = match ex.m.dbg.locs.get(&d) { Some(l) => *l, None => break };
                    if let Some(sp) = ex.scope_sp(l.scope) {
                        let (n, link, file, _) = &ex.m.dbg.sps[&sp];
                        let fl = ex.m.dbg.files.get(file).map(|s| s.as_str()).unwrap_or("");
                        if fl.contains("/repo/src/") { let _ = link; names.insert(format!("{}::{}", fl.split("/repo/src/").nth(1).unwrap_or(""), n)); }
                    }
                    d = l.inlined;
                }
            }
        }
        for n in names { writeln!(f, "f {}", n).unwrap() }
    }
    std::fs::write(format!("{}/res.{}", outdir, pid), f).unwrap();
    sh.active.fetch_sub(1, Ordering::SeqCst);
    if pid != root { unsafe { _exit(0) } }
    unsafe { close(fds[1]); let mut b = [0u8; 8]; read(fds[0], b.as_mut_ptr(), 8); }
    // merge
    let mut sums: BTreeMap<String, u64> = BTreeMap::new();
    let (mut cov, mut outc, mut errs): (BTreeMap<String, u64>, BTreeMap<String, u64>, BTreeMap<String, u64>) = Default::default();
    let (mut viol, mut samp, mut funcs): (Vec<String>, Vec<String>, BTreeSet<String>) = Default::default();
    let mut nres = 0;
    for e in std::fs::read_dir(&outdir).unwrap() {
        let p = e.unwrap().path();
        let t = std::fs::read_to_string(&p).unwrap();
        nres += 1;
        for l in t.lines() {
            let (k, r) = l.split_at(2);
            match k {
                "n " => { let (a, b) = r.split_once(' ').unwrap(); *sums.entry(a.into()).or_insert(0) += b.parse::<u64>().unwrap() }
                "m " => { let (a, b) = r.split_once(' ').unwrap(); let x = sums.entry(a.into()).or_insert(0); *x = (*x).max(b.parse().unwrap()) }
                "c " | "o " | "e " => { let (a, b) = r.rsplit_once('\t').unwrap(); let mm = match k { "c " => &mut cov, "o " => &mut outc, _ => &mut errs }; *mm.entry(a.into()).or_insert(0) += b.parse::<u64>().unwrap() }
                "v " => viol.push(r.into()),
                "s " => samp.push(r.into()),
                "f " => { funcs.insert(r.into()); }
                _ => {}
            }
        }
        let _ = std::fs::remove_file(p);
    }
    let _ = std::fs::remove_dir(&outdir);
    let spawned = sh.spawned.load(Ordering::SeqCst);
    let stop = sh.stop.load(Ordering::SeqCst);
    if nres != spawned { errs.insert(format!("{} of {} worker processes were lost", spawned - nres, spawned), 1); }
    let g = |k: &str| sums.get(k).copied().unwrap_or(0);
    if stop == 0 && g("paths") + g("infeasible") != g("forks") + 1 { errs.insert(format!("path accounting: {} paths + {} infeasible != {} forks + 1", g("paths"), g("infeasible"), g("forks")), 1); }
    let complete = stop == 0 && errs.is_empty() && nres == spawned;
    let mut j = String::from("{");
    j.push_str(&format!("\"harness\":{},\"complete\":{},\"timed_out\":{},\"wall_s\":{:.3},\"procs\":{},", esc(&harness), complete, stop == 2, t0.elapsed().as_secs_f64(), spawned));
    for (k, v) in &sums { j.push_str(&format!("{}:{},", esc(k), v)) }
    let mapj = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    j.push_str(&format!("\"covers\":{{{}}},\"outcomes\":{{{}}},\"errors\":{{{}}},", mapj(&cov), mapj(&outc), mapj(&errs)));
    let vj: Vec<String> = viol.iter().map(|v| { let p: Vec<&str> = v.split('\t').collect(); format!("{{\"key\":{},\"detail\":{},\"stream\":[{}]}}", esc(p[0]), esc(p[1]), nums(&parse_nums(p[2]))) }).collect();
    j.push_str(&format!("\"violations\":[{}],", vj.join(",")));
    samp.sort();
    let sj: Vec<String> = samp.iter().map(|v| { let p: Vec<&str> = v.split('\t').collect(); format!("{{\"outcome\":{},\"stream\":[{}],\"log\":[{}],\"covers\":{}}}", esc(p[0]), p[1], p[2], esc(p[3])) }).collect();
    j.push_str(&format!("\"samples\":[{}],", sj.join(",")));
    j.push_str(&format!("\"functions\":[{}]}}", funcs.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")));
    println!("{}", j);
    if !viol.is_empty() { 1 } else if complete { 0 } else { 2 }
}
