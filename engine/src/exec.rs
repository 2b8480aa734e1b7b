//! Symbolic executor over the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(Id),
    Agg(Rc<Vec<V>>),
}
use V::*;

impl V {
    pub fn id(&self, w: u32) -> Id {
        match self { C(v) => cx().k(*v as u128, w), E(i) => { debug_assert!(cx().w(*i) == w, "width {} vs {}", cx().w(*i), w); *i } Agg(_) => panic!("agg as scalar") }
    }
    pub fn of(i: Id) -> V {
        if let Some(v) = cx().cval(i) { if cx().w(i) <= 64 { return C(v as u64) } }
        E(i)
    }
    pub fn cv(&self) -> Option<u128> { match self { C(v) => Some(*v as u128), E(i) => cx().cval(*i), _ => None } }
    fn from128(v: u128, w: u32) -> V { if w <= 64 { C((v & mask(w)) as u64) } else { E(cx().k(v, w)) } }
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub alive: bool,
    pub heap: bool,
    pub align: u64,
    pub data: Vec<u8>,
    pub sym: Vec<u32>,
}
impl Obj {
    fn new(size: u64, align: u64, heap: bool) -> Obj { Obj { size, alive: true, heap, align, data: vec![], sym: vec![] } }
    fn byte(&self, o: usize) -> u8 { if o < self.data.len() { self.data[o] } else { 0 } }
    fn symb(&self, o: usize) -> u32 { if o < self.sym.len() { self.sym[o] } else { 0 } }
    fn grow(&mut self, n: usize) {
        if self.data.len() < n {
            let t = (n.max(self.data.len() * 2)).min(self.size as usize);
            self.data.resize(t, 0);
        }
    }
    fn set(&mut self, o: usize, b: u8) { self.data[o] = b; if o < self.sym.len() { self.sym[o] = 0 } }
    fn set_sym(&mut self, o: usize, e: u32) { let l = self.data.len(); if self.sym.len() < l { self.sym.resize(l, 0) } self.sym[o] = e; }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub ret: u32,
}

#[derive(Clone)]
pub struct Group { vars: Vec<u32>, cons: Vec<Id>, multi: bool }

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub tls: BTreeMap<u32, u32>,
}

#[derive(Clone)]
pub struct State {
    pub th: Vec<Thread>,
    pub cur: usize,
    pub objs: Vec<Rc<Obj>>,
    pub free: Vec<u32>,
    pub model: Vec<u64>,
    pub varw: Vec<u8>,
    pub dom: Vec<[u64; 4]>,
    pub pinned: Vec<bool>,
    pub group_of: Vec<u32>,
    pub groups: Vec<Option<Rc<Group>>>,
    pub log: Vec<V>,
    pub covers: BTreeSet<Rc<str>>,
    pub panic_ok: bool,
    pub instrs: u64,
    pub depth: u32,
    pub errno: u64,
}

pub enum Stop {
    End(String),        // path ended normally: outcome
    Infeasible,
    Violation(String, String), // kind+message key, detail
    Error(String),
}
type R<T> = Result<T, Stop>;

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub instrs: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_const: u64,
    pub assert_queries: u64,
    pub dom_queries: u64,
    pub audited: u64,
    pub max_vars: u64,
    pub max_depth: u64,
    pub covers: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub violations: Vec<Viol>,
    pub errors: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub nsamples_seen: u64,
}
#[derive(Clone)]
pub struct Viol { pub key: String, pub detail: String, pub stream: Vec<u64> }
#[derive(Clone)]
pub struct Sample { pub outcome: String, pub stream: Vec<u64>, pub log: Vec<u64>, pub covers: Vec<String> }

pub struct Cfg {
    pub max_instr: u64,
    pub heap_ite: u64,
    pub known: Vec<String>,
    pub audit: u64,
    pub redirects: Vec<(String, String)>,
    pub params: Vec<u64>,
    pub samples: usize,
    pub argv: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    LoadRel,
    None, Panic, Utf8, SymParam, SymVar, SymAssume, SymAssert, SymCover, SymLog, SymConc, SymSel, SymAnd, SymOr, SymPanicOk, SymBytesEq,
    Malloc, Calloc, Realloc, Free, Memalign, Memcpy, Memset, Bcmp, Memcmp, Strlen, Errno, RetC(u64), ThreadLocal, Nop,
    Cttz, Ctlz, Ctpop, Bswap, Bitrev, Fshl, Fshr, Umin, Umax, Smin, Smax, Abs, Ucmp, Scmp, UaddSat, UsubSat, UaddOv, SaddOv, UsubOv, SsubOv, UmulOv, SmulOv,
    IsConst, Trap, Expect, Redirect(u32), GetRandom, Abort, Syscall, SymSpawn, SymSwitch, SymSelf, RetArg0, MemchrN, Ptrmask, VecReduce(u8),
}

pub struct Exec {
    pub m: Module,
    pub cfg: Cfg,
    pub kv: Vec<V>,
    bi: Vec<Bi>,
    callee: Vec<Vec<u32>>, // per func per code idx: resolved callee function id (or MAX)
    nconst: u32,
    consts: Vec<Obj>,
    gaddr: Vec<u64>,
    pub st: State,
    pub stack: Vec<State>,
    pub sol: Solver,
    pub stats: Stats,
    pub hit: Vec<Vec<bool>>,
    pub stop: bool,
    scratch: Vec<u64>,
    rng: u64,
    pub steps_since_check: u32,
}

const FBASE: u64 = 1 << 60;

impl Exec {
    pub fn new(mut m: Module, cfg: Cfg) -> Exec {
        // object ids: constants first, then mutable globals
        let mut order: Vec<usize> = (0..m.globals.len()).filter(|i| m.globals[*i].constant).collect();
        let nconst = order.len() as u32;
        order.extend((0..m.globals.len()).filter(|i| !m.globals[*i].constant));
        let mut gaddr = vec![0u64; m.globals.len()];
        for (k, gi) in order.iter().enumerate() { gaddr[*gi] = ((k as u64) + 1) << 32; }
        let aliases = m.aliases.clone();
        for (a, t) in &aliases { if let Some(&f) = m.fmap.get(t) { m.fmap.insert(a.clone(), f); } else if let Some(&g) = m.gmap.get(t) { m.gmap.insert(a.clone(), g); } }
        let mut objs: Vec<Obj> = vec![];
        for gi in &order {
            let g = &m.globals[*gi];
            let lay = m.lay[g.ty as usize];
            let mut o = Obj::new(lay.size, g.align, false);
            o.data = vec![0; lay.size as usize];
            if let Some(init) = &g.init { write_const(&m, &gaddr, &mut o.data, 0, g.ty, init); }
            objs.push(o);
        }
        let consts: Vec<Obj> = objs.drain(..nconst as usize).collect();
        let mobjs: Vec<Rc<Obj>> = objs.into_iter().map(Rc::new).collect();
        // lower operands
        let mut kv: Vec<V> = vec![];
        let mut funcs = std::mem::take(&mut m.funcs);
        for f in funcs.iter_mut() {
            for ins in f.code.iter_mut() {
                map_opds(&mut ins.i, &mut |o| {
                    if let Opd::K(t, c) = o {
                        let v = const_v(&m, &gaddr, *t, c);
                        *o = match v { C(x) => Opd::C(x), v => { kv.push(v); Opd::V(kv.len() as u32 - 1) } };
                    }
                });
            }
        }
        let mut callee = vec![];
        for f in &funcs {
            callee.push(f.code.iter().map(|i| match &i.i { I::Call(_, Callee::Name(n), _) => m.fmap.get(n).copied().unwrap_or(u32::MAX), _ => u32::MAX }).collect());
        }
        let bi = funcs.iter().map(|f| classify(f, &cfg)).collect();
        let hit = funcs.iter().map(|f| vec![false; f.code.len()]).collect();
        m.funcs = funcs;
        let st = State {
            th: vec![Thread { frames: vec![], tls: BTreeMap::new() }], cur: 0, objs: mobjs, free: vec![], model: vec![], varw: vec![], dom: vec![], pinned: vec![], group_of: vec![], groups: vec![],
            log: vec![], covers: BTreeSet::new(), panic_ok: false, instrs: 0, depth: 0, errno: 0,
        };
        Exec { m, cfg, kv, bi, callee, nconst, consts, gaddr, st, stack: vec![], sol: Solver::new(), stats: Stats::default(), hit, stop: false, scratch: vec![], rng: 0x9E3779B97F4A7C15, steps_since_check: 0 }
    }

    pub fn start(&mut self, entry: &str) -> bool {
        let f = match self.m.fmap.get(entry) { Some(f) if self.m.funcs[*f as usize].defined => *f, _ => return false };
        let fr = self.frame(f, NOREG);
        self.st.th[0].frames.push(fr);
        if !self.cfg.argv.is_empty() {
            // what the program loader does before main
            let init = match self.m.funcs.iter().position(|f| f.defined && f.demangled.contains("ARGV_INIT_ARRAY") && f.demangled.ends_with("init_wrapper")) { Some(i) => i as u32, None => return false };
            let argv = self.cfg.argv.clone();
            let arr = self.alloc(8 * (argv.len() as u64 + 1), 8, false);
            for (i, s) in argv.iter().enumerate() {
                let p = self.alloc(s.len() as u64 + 1, 1, false);
                for (k, c) in s.bytes().enumerate() { if self.store_scalar(p + k as u64, 8, &C(c as u64)).is_err() { return false } }
                if self.store_scalar(arr + 8 * i as u64, 64, &C(p)).is_err() { return false }
            }
            let mut fr = self.frame(init, NOREG);
            let ps = self.m.funcs[init as usize].params.clone();
            fr.regs[ps[0] as usize] = C(argv.len() as u64);
            if ps.len() > 1 { fr.regs[ps[1] as usize] = C(arr) }
            self.st.th[0].frames.push(fr);
        }
        true
    }
    fn frame(&self, f: u32, ret: u32) -> Frame { Frame { f, pc: 0, regs: vec![C(0); self.m.funcs[f as usize].nregs as usize], allocas: vec![], ret } }

    fn rand(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

    // ---------- path conditions ----------
    fn subst(&mut self, c: Id) -> Id {
        let st = &self.st;
        if !cx().vars(c).iter().any(|v| st.pinned[*v as usize]) { return c }
        let mut memo = Default::default();
        let f = |v: u32| if st.pinned[v as usize] { Some(st.model[v as usize]) } else { None };
        cx().subst(c, &f, &mut memo)
    }
    pub fn add_cons(&mut self, c: Id) {
        let c = self.subst(c);
        let n = cx().n(c);
        match n.op {
            Op::Const => { return }
            Op::And => { self.add_cons(n.a); self.add_cons(n.b); return }
            Op::Not => { let x = cx().n(n.a); if x.op == Op::Or && cx().w(x.a) == 1 { let p = cx().not(x.a); let q = cx().not(x.b); self.add_cons(p); self.add_cons(q); return } }
            _ => {}
        }
        let vars: Vec<u32> = cx().vars(c).to_vec();
        let st = &mut self.st;
        let mut multi = vars.len() > 1;
        if vars.len() == 1 {
            let v = vars[0] as usize;
            if st.varw[v] <= 8 {
                let t = cx().truth_table(c, v as u32, st.varw[v] as u32, &mut self.scratch);
                let mut pc = 0;
                for i in 0..4 { st.dom[v][i] &= t[i]; pc += st.dom[v][i].count_ones(); }
                if pc == 1 { st.pinned[v] = true }
            } else {
                multi = true;
                if n.op == Op::Eq && cx().op(n.a) == Op::Var && cx().cval(n.b).is_some() { st.pinned[v] = true }
            }
        }
        // merge groups
        let mut gs: Vec<u32> = vars.iter().map(|v| st.group_of[*v as usize]).filter(|g| *g != u32::MAX).collect();
        gs.sort_unstable();
        gs.dedup();
        let mut g = Group { vars: vec![], cons: vec![], multi };
        for x in &gs { let o = st.groups[*x as usize].take().unwrap(); g.vars.extend(&o.vars); g.cons.extend(&o.cons); g.multi |= o.multi; }
        for v in &vars { if !g.vars.contains(v) { g.vars.push(*v) } }
        g.cons.push(c);
        let slot = if let Some(x) = gs.first() { *x } else { st.groups.push(None); st.groups.len() as u32 - 1 };
        for v in &g.vars { st.group_of[*v as usize] = slot }
        st.groups[slot as usize] = Some(Rc::new(g));
    }
    /// satisfiability of PC && c  (c already substituted). Returns model delta.
    fn check_side(&mut self, c: Id, force_solver: bool) -> Option<Vec<(u32, u64)>> {
        match cx().cval(c) { Some(1) => return Some(vec![]), Some(_) => return None, None => {} }
        let vars: Vec<u32> = cx().vars(c).to_vec();
        let st = &self.st;
        if vars.len() == 1 && st.varw[vars[0] as usize] <= 8 {
            let v = vars[0] as usize;
            let t = cx().truth_table(c, v as u32, st.varw[v] as u32, &mut self.scratch);
            let mut d = [0u64; 4];
            let mut any = false;
            for i in 0..4 { d[i] = t[i] & st.dom[v][i]; any |= d[i] != 0 }
            if !force_solver {
                self.stats.dom_queries += 1;
                let g = st.group_of[v];
                if !any || g == u32::MAX || !st.groups[g as usize].as_ref().unwrap().multi {
                    let r = (0..4).find(|i| d[*i] != 0).map(|i| vec![(v as u32, (i * 64) as u64 + d[i].trailing_zeros() as u64)]);
                    // now and then put the same question to Z3
                    if self.cfg.audit != 0 && self.stats.dom_queries % self.cfg.audit == 1 {
                        self.stats.audited += 1;
                        if self.check_side(c, true).is_some() != r.is_some() { *self.stats.errors.entry("domain decision refuted by Z3".into()).or_insert(0) += 1 }
                    }
                    return r;
                }
            }
        }
        let mut gs: Vec<u32> = vars.iter().map(|v| st.group_of[*v as usize]).filter(|g| *g != u32::MAX).collect();
        gs.sort_unstable();
        gs.dedup();
        let mut cons = vec![c];
        let mut vs = vars.clone();
        for g in gs { let g = st.groups[g as usize].as_ref().unwrap(); cons.extend(&g.cons); vs.extend(&g.vars); }
        vs.sort_unstable();
        vs.dedup();
        let vw: Vec<(u32, u32)> = vs.iter().map(|v| (*v, st.varw[*v as usize] as u32)).collect();
        match self.sol.check(&cons, &vw) {
            Res::Sat(m) => Some(m),
            Res::Unsat => None,
            Res::Unknown => { *self.stats.errors.entry("solver unknown".into()).or_insert(0) += 1; None }
        }
    }
    fn apply(st: &mut State, d: &[(u32, u64)]) { for (v, x) in d { st.model[*v as usize] = *x } }

    /// Replaces single-variable subconditions already settled by the variable's domain.
    fn simp(&mut self, c: Id) -> Id {
        if cx().vars(c).len() == 1 { return self.simp1(c) }
        let mut memo: HashMap<Id, Id> = HashMap::new();
        self.simp_rec(c, &mut memo)
    }
    fn simp1(&mut self, c: Id) -> Id {
        let v = cx().vars(c)[0];
        if self.st.varw[v as usize] > 8 { return c }
        let t = cx().truth_table(c, v, self.st.varw[v as usize] as u32, &mut self.scratch);
        let d = &self.st.dom[v as usize];
        if (0..4).all(|i| d[i] & !t[i] == 0) { return cx().t() }
        if (0..4).all(|i| d[i] & t[i] == 0) { return cx().k(0, 1) }
        c
    }
    fn simp_rec(&mut self, c: Id, memo: &mut HashMap<Id, Id>) -> Id {
        let nv = cx().vars(c).len();
        if nv == 0 { return c }
        if nv == 1 { return self.simp1(c) }
        let n = cx().n(c);
        if !matches!(n.op, Op::And | Op::Or | Op::Not) { return c }
        if let Some(r) = memo.get(&c) { return *r }
        let r = match n.op {
            Op::Not => { let x = self.simp_rec(n.a, memo); cx().not(x) }
            Op::And => { let x = self.simp_rec(n.a, memo); if cx().cval(x) == Some(0) { x } else { let y = self.simp_rec(n.b, memo); cx().and(x, y) } }
            _ => { let x = self.simp_rec(n.a, memo); if cx().cval(x) == Some(1) { x } else { let y = self.simp_rec(n.b, memo); cx().or(x, y) } }
        };
        memo.insert(c, r);
        r
    }
    fn in_range(&mut self, b: Id, lo: u64, hi: u64) -> Id {
        let (l, h) = (cx().k(lo as u128, 8), cx().k(hi as u128, 8));
        let x = cx().ult(b, l);
        let x = cx().not(x);
        let y = cx().ult(h, b);
        let y = cx().not(y);
        let r = cx().and(x, y);
        if cx().cval(r).is_some() { return r }
        let r = self.subst(r);
        if cx().cval(r).is_some() { return r }
        self.simp(r)
    }
    /// Stand-in for core::str::from_utf8: the validity of the whole slice as one
    /// formula (the UTF-8 automaton unrolled over the bytes), so a call forks once.
    fn utf8(&mut self, a: &[V]) -> R<Option<V>> {
        let (out, p, n) = (self.conc(&a[0]), self.conc(&a[1]), self.conc(&a[2]));
        let f = cx().k(0, 1);
        let mut s = [f; 8];
        s[0] = cx().t();
        let mut upto = cx().k(0, 64);
        for i in 0..n {
            let b = self.byte_id(p + i)?;
            let mut t = |me: &mut Self, st: Id, lo: u64, hi: u64| -> Id { if cx().cval(st) == Some(0) { return st } let c = me.in_range(b, lo, hi); cx().and(st, c) };
            let or = |x: Id, y: Id| cx().or(x, y);
            let n0 = { let x = t(self, s[0], 0, 0x7f); let y = t(self, s[1], 0x80, 0xbf); or(x, y) };
            let n1 = { let x = t(self, s[0], 0xc2, 0xdf); let y = t(self, s[2], 0x80, 0xbf); let z = t(self, s[4], 0xa0, 0xbf); let w = t(self, s[5], 0x80, 0x9f); let u = or(x, y); let v = or(z, w); or(u, v) };
            let n2 = { let x = t(self, s[0], 0xe1, 0xec); let y = t(self, s[0], 0xee, 0xef); let z = t(self, s[3], 0x80, 0xbf); let w = t(self, s[6], 0x90, 0xbf); let q = t(self, s[7], 0x80, 0x8f); let u = or(x, y); let v = or(z, w); let r = or(u, v); or(r, q) };
            let n3 = t(self, s[0], 0xf1, 0xf3);
            let n4 = t(self, s[0], 0xe0, 0xe0);
            let n5 = t(self, s[0], 0xed, 0xed);
            let n6 = t(self, s[0], 0xf0, 0xf0);
            let n7 = t(self, s[0], 0xf4, 0xf4);
            s = [n0, n1, n2, n3, n4, n5, n6, n7];
            let k = cx().k(i as u128 + 1, 64);
            upto = cx().ite(s[0], k, upto);
        }
        let ok = s[0];
        if self.decide(ok) {
            self.store_scalar(out, 64, &C(0))?;
            self.store_scalar(out + 8, 64, &C(p))?;
            self.store_scalar(out + 16, 64, &C(n))?;
        } else {
            self.store_scalar(out, 64, &C(1))?;
            self.store_scalar(out + 8, 64, &V::of(upto))?;
            self.store_scalar(out + 16, 16, &C(0x0101))?;
        }
        Ok(None)
    }

    /// Branch on a 1-bit expression; forks when both sides are feasible.
    pub fn decide(&mut self, c: Id) -> bool {
        if let Some(v) = cx().cval(c) { return v == 1 }
        let c = self.subst(c);
        if let Some(v) = cx().cval(c) { return v == 1 }
        let c = self.simp(c);
        if let Some(v) = cx().cval(c) { return v == 1 }
        let b = cx().eval(c, &self.st.model) == 1;
        let nc = cx().not(c);
        let (mine, other) = if b { (c, nc) } else { (nc, c) };
        if let Some(d) = self.check_side(other, false) {
            let mut s2 = self.st.clone();
            Self::apply(&mut s2, &d);
            s2.depth += 1;
            std::mem::swap(&mut s2, &mut self.st);
            self.add_cons(other);
            std::mem::swap(&mut s2, &mut self.st);
            self.stack.push(s2);
            self.stats.forks += 1;
            self.st.depth += 1;
            self.add_cons(mine);
        }
        b
    }
    pub fn conc_id(&mut self, e: Id) -> u64 {
        if let Some(v) = cx().cval(e) { return v as u64 }
        let v = cx().eval(e, &self.st.model);
        let w = cx().w(e);
        let k = cx().k(v, w);
        let c = cx().eq(e, k);
        let r = self.decide(c);
        debug_assert!(r);
        v as u64
    }
    pub fn conc(&mut self, v: &V) -> u64 { match v { C(x) => *x, E(i) => self.conc_id(*i), _ => panic!("conc agg") } }

    fn new_var(&mut self, w: u32) -> Id {
        let st = &mut self.st;
        let idx = st.varw.len() as u32;
        st.varw.push(w as u8);
        st.model.push(0);
        st.dom.push(if w == 8 { [!0; 4] } else if w < 6 { [(1u64 << (1 << w)) - 1, 0, 0, 0] } else if w == 6 { [!0, 0, 0, 0] } else if w == 7 { [!0, !0, 0, 0] } else { [!0; 4] });
        st.pinned.push(false);
        st.group_of.push(u32::MAX);
        cx().var(idx, w)
    }

    // ---------- memory ----------
    fn alloc(&mut self, size: u64, align: u64, heap: bool) -> u64 {
        let o = Rc::new(Obj::new(size, align, heap));
        let st = &mut self.st;
        let idx = if let Some(i) = st.free.pop() { st.objs[i as usize] = o; i } else { st.objs.push(o); st.objs.len() as u32 - 1 };
        ((idx as u64) + self.nconst as u64 + 1) << 32
    }
    fn obj(&self, addr: u64) -> Option<(&Obj, u64)> {
        let id = addr >> 32;
        if id == 0 { return None }
        let id = id - 1;
        if id < self.nconst as u64 { return Some((&self.consts[id as usize], addr & 0xffff_ffff)) }
        let i = (id - self.nconst as u64) as usize;
        self.st.objs.get(i).map(|o| (&**o, addr & 0xffff_ffff))
    }
    fn obj_mut(&mut self, addr: u64) -> Option<(&mut Obj, u64)> {
        let id = addr >> 32;
        if id == 0 || id - 1 < self.nconst as u64 { return None }
        let i = (id - 1 - self.nconst as u64) as usize;
        self.st.objs.get_mut(i).map(|o| (Rc::make_mut(o), addr & 0xffff_ffff))
    }
    fn memerr(&self, what: &str, addr: u64, n: u64) -> Stop {
        let info = match self.obj(addr) { Some((o, off)) => format!("obj size {} alive {} off {}", o.size, o.alive, off), None => "no object".into() };
        Stop::Violation(format!("memory {}", what), format!("{} {:#x} len {} ({}) at {}", what, addr, n, info, self.where_()))
    }
    fn rd(&self, addr: u64, n: u64) -> R<(&Obj, usize)> {
        match self.obj(addr) { Some((o, off)) if o.alive && off + n <= o.size => Ok((o, off as usize)), _ => Err(self.memerr("read", addr, n)) }
    }
    fn wr(&mut self, addr: u64, n: u64) -> R<(&mut Obj, usize)> {
        let ok = match self.obj(addr) { Some((o, off)) => o.alive && off + n <= o.size, _ => false };
        if !ok || (addr >> 32) - 1 < self.nconst as u64 { return Err(self.memerr("write", addr, n)) }
        let (o, off) = self.obj_mut(addr).unwrap();
        o.grow((off + n) as usize);
        Ok((o, off as usize))
    }
    fn load_scalar(&mut self, addr: u64, bits: u32) -> R<V> {
        let n = ((bits + 7) / 8) as usize;
        let (o, off) = self.rd(addr, n as u64)?;
        let mut anysym = false;
        if !o.sym.is_empty() { for i in 0..n { if o.symb(off + i) != 0 { anysym = true; break } } }
        if !anysym {
            if n <= 8 {
                let mut v = 0u64;
                for i in 0..n { v |= (o.byte(off + i) as u64) << (8 * i) }
                if bits < 64 { v &= (1u64 << bits) - 1 }
                return Ok(C(v));
            }
            let mut v = 0u128;
            for i in 0..n { v |= (o.byte(off + i) as u128) << (8 * i) }
            return Ok(V::from128(v, bits));
        }
        let bs: Vec<(u32, u8)> = (0..n).map(|i| (o.symb(off + i), o.byte(off + i))).collect();
        let mut r: Option<Id> = None;
        for (s, b) in bs.iter() {
            let x = if *s != 0 { *s - 1 } else { cx().k(*b as u128, 8) };
            r = Some(match r { None => x, Some(l) => cx().concat(x, l) });
        }
        let r = r.unwrap();
        let r = if bits % 8 != 0 { cx().extract(r, 0, bits) } else { r };
        Ok(V::of(r))
    }
    fn store_scalar(&mut self, addr: u64, bits: u32, v: &V) -> R<()> {
        let n = ((bits + 7) / 8) as usize;
        match v {
            C(x) => {
                let x = *x;
                let (o, off) = self.wr(addr, n as u64)?;
                for i in 0..n { o.set(off + i, if i < 8 { (x >> (8 * i)) as u8 } else { 0 }) }
            }
            E(id) => {
                let mut id = *id;
                if bits % 8 != 0 { id = cx().zext(id, n as u32 * 8) }
                let bytes: Vec<Id> = (0..n).map(|i| cx().byte_of(id, i as u32)).collect();
                let (o, off) = self.wr(addr, n as u64)?;
                for (i, b) in bytes.iter().enumerate() {
                    match cx().cval(*b) { Some(k) => o.set(off + i, k as u8), None => o.set_sym(off + i, *b + 1) }
                }
            }
            Agg(_) => panic!("store agg scalar"),
        }
        Ok(())
    }
    fn load_ty(&mut self, addr: u64, t: TyId) -> R<V> {
        match self.m.tys[t as usize].clone() {
            Ty::Int(b) => self.load_scalar(addr, b),
            Ty::Ptr => self.load_scalar(addr, 64),
            Ty::Struct(fs, _) => { let mut r = vec![]; for i in 0..fs.len() { let (o, ft) = self.m.field_off(t, i as u64); r.push(self.load_ty(addr + o, ft)?); } Ok(Agg(Rc::new(r))) }
            Ty::Arr(n, e) => { let s = self.m.lay[e as usize].size; let mut r = vec![]; for i in 0..n { r.push(self.load_ty(addr + i * s, e)?); } Ok(Agg(Rc::new(r))) }
            Ty::Vec(n, e) => {
                let b = self.m.lay[e as usize].bits;
                if b % 8 != 0 { let tot = self.load_scalar(addr, b * n as u32)?; return Ok(self.unpack(&tot, b, n as usize)) }
                let mut r = vec![]; for i in 0..n { r.push(self.load_scalar(addr + i * (b as u64 / 8), b)?); } Ok(Agg(Rc::new(r)))
            }
            _ => Err(Stop::Error("load type".into())),
        }
    }
    fn store_ty(&mut self, addr: u64, t: TyId, v: &V) -> R<()> {
        match self.m.tys[t as usize].clone() {
            Ty::Int(b) => self.store_scalar(addr, b, v),
            Ty::Ptr => self.store_scalar(addr, 64, v),
            Ty::Struct(fs, _) => { if let Agg(a) = v { for i in 0..fs.len() { let (o, ft) = self.m.field_off(t, i as u64); self.store_ty(addr + o, ft, &a[i])?; } } Ok(()) }
            Ty::Arr(n, e) => { let s = self.m.lay[e as usize].size; if let Agg(a) = v { for i in 0..n { self.store_ty(addr + i * s, e, &a[i as usize])?; } } Ok(()) }
            Ty::Vec(n, e) => {
                let b = self.m.lay[e as usize].bits;
                if b % 8 != 0 { let p = self.pack(v, b); return self.store_scalar(addr, b * n as u32, &p) }
                if let Agg(a) = v { for i in 0..n { self.store_scalar(addr + i * (b as u64 / 8), b, &a[i as usize])?; } }
                Ok(())
            }
            _ => Err(Stop::Error("store type".into())),
        }
    }
    fn pack(&self, v: &V, b: u32) -> V {
        let a = match v { Agg(a) => a, x => return x.clone() };
        let mut r: Option<Id> = None;
        for x in a.iter() { let i = x.id(b); r = Some(match r { None => i, Some(l) => cx().concat(i, l) }) }
        V::of(r.unwrap())
    }
    fn unpack(&self, v: &V, b: u32, n: usize) -> V {
        let i = v.id(b * n as u32);
        Agg(Rc::new((0..n).map(|k| V::of(cx().extract(i, k as u32 * b, b))).collect()))
    }

    fn copy_bytes(&mut self, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()) }
        let (o, off) = self.rd(src, n)?;
        let n = n as usize;
        let mut d = vec![0u8; n];
        let have = o.data.len().saturating_sub(off).min(n);
        if have > 0 { d[..have].copy_from_slice(&o.data[off..off + have]) }
        let mut s: Vec<u32> = vec![];
        if off < o.sym.len() {
            let h = (o.sym.len() - off).min(n);
            if o.sym[off..off + h].iter().any(|x| *x != 0) { s = vec![0; n]; s[..h].copy_from_slice(&o.sym[off..off + h]); }
        }
        let (o, off) = self.wr(dst, n as u64)?;
        o.data[off..off + n].copy_from_slice(&d);
        if !s.is_empty() {
            if o.sym.len() < o.data.len() { let l = o.data.len(); o.sym.resize(l, 0) }
            o.sym[off..off + n].copy_from_slice(&s);
        } else if off < o.sym.len() {
            let h = (o.sym.len() - off).min(n);
            for x in o.sym[off..off + h].iter_mut() { *x = 0 }
        }
        Ok(())
    }
    fn byte_id(&self, addr: u64) -> R<Id> {
        let (o, off) = self.rd(addr, 1)?;
        let s = o.symb(off);
        Ok(if s != 0 { s - 1 } else { cx().k(o.byte(off) as u128, 8) })
    }
    /// try to enumerate a symbolic address that stays within one small object; None -> concretize
    fn sym_load(&mut self, a: Id, t: TyId) -> R<Option<V>> {
        let lay = self.m.lay[t as usize];
        if lay.bits == 0 || lay.bits > 64 || matches!(self.m.tys[t as usize], Ty::Vec(..)) { return Ok(None) }
        let inf = cx().info[a as usize];
        let (min, max) = (inf.min as u64, inf.max as u64);
        if min >> 32 != max >> 32 || min >> 32 == 0 { return Ok(None) }
        let isconst = (min >> 32) - 1 < self.nconst as u64;
        let (size, alive) = match self.obj(min) { Some((o, _)) => (o.size, o.alive), None => return Ok(None) };
        if !alive { return Ok(None) }
        // step from known zero bits
        let tz = ((!inf.kz) as u64 | (1 << 31)).trailing_zeros().min(6);
        let step = 1u64 << tz;
        let base = min & !0xffff_ffff;
        let lo = (min - base + step - 1) / step * step;
        let n = ((lay.bits + 7) / 8) as u64;
        let hi = (max - base).min(size.saturating_sub(n));
        if hi < lo { return Ok(None) }
        let cnt = (hi - lo) / step + 1;
        if cnt > if isconst { 4096 } else { self.cfg.heap_ite } { return Ok(None) }
        let mut runs: Vec<(u64, V)> = vec![]; // (last address of run, value)
        let mut o = lo;
        while o <= hi {
            let v = self.load_scalar(base + o, lay.bits)?;
            let same = match (runs.last(), &v) { (Some((_, C(x))), C(y)) => x == y, (Some((_, E(x))), E(y)) => x == y, _ => false };
            if same { runs.last_mut().unwrap().0 = base + o } else { runs.push((base + o, v)) }
            o += step;
        }
        if runs.len() > 600 { return Ok(None) }
        let mut r = runs.last().unwrap().1.id(lay.bits);
        for (end, v) in runs.iter().rev().skip(1) {
            let k = cx().k(*end as u128 + 1, 64);
            let c = cx().ult(a, k);
            let vi = v.id(lay.bits);
            r = cx().ite(c, vi, r);
        }
        Ok(Some(V::of(r)))
    }

    // ---------- reporting ----------
    pub fn where_(&self) -> String {
        let mut out = vec![];
        for fr in self.st.th[self.st.cur].frames.iter().rev() {
            let f = &self.m.funcs[fr.f as usize];
            let mut d = f.code.get(fr.pc as usize).map(|i| i.dbg).unwrap_or(0);
            while d != 0 {
                let l = match self.m.dbg.locs.get(&d) { Some(l) => *l, None => break };
                let sp = self.scope_sp(l.scope);
                if let Some((n, _, file, _)) = sp.and_then(|s| self.m.dbg.sps.get(&s)) {
                    let fl = self.m.dbg.files.get(file).cloned().unwrap_or_default();
                    if fl.contains("/repo/src") || fl.starts_with("/repo") { out.push(format!("{} {}:{}", n, fl.trim_start_matches("/repo/"), l.line)); }
                }
                d = l.inlined;
            }
            if out.len() > 6 { break }
        }
        if out.is_empty() { if let Some(fr) = self.st.th[self.st.cur].frames.last() { out.push(self.m.funcs[fr.f as usize].demangled.clone()) } }
        out.join(" < ")
    }
    pub fn backtrace(&self) -> String {
        self.st.th[self.st.cur].frames.iter().rev().map(|f| { let x = &self.m.funcs[f.f as usize]; format!("{}@{}", if x.demangled.is_empty() { &x.name } else { &x.demangled }, f.pc) }).collect::<Vec<_>>().join("\n    ")
    }
    pub fn scope_sp(&self, mut s: u32) -> Option<u32> {
        for _ in 0..64 {
            if self.m.dbg.sps.contains_key(&s) { return Some(s) }
            s = self.m.dbg.scopes.get(&s)?.0;
        }
        None
    }
    fn str_at(&self, p: u64, n: u64) -> Option<String> {
        let (o, off) = self.rd(p, n).ok()?;
        Some((0..n as usize).map(|i| o.byte(off + i) as char).collect())
    }
    fn panic_loc(&mut self, arg: Option<u64>) -> String {
        if let Some(a) = arg {
            if let (Ok(C(p)), Ok(C(n)), Ok(C(l))) = (self.load_scalar(a, 64), self.load_scalar(a + 8, 64), self.load_scalar(a + 16, 32)) {
                if n < 300 { if let Some(s) = self.str_at(p, n) { if s.contains(".rs") { return format!("{}:{}", s.trim_end_matches('\0'), l) } } }
            }
        }
        String::new()
    }
    fn stream(&self) -> Vec<u64> { self.st.model.clone() }

    fn finish_path(&mut self, r: Stop) {
        self.stats.instrs += self.st.instrs;
        match r {
            Stop::Infeasible => { self.stats.infeasible += 1 }
            Stop::End(o) => {
                self.stats.paths += 1;
                *self.stats.outcomes.entry(o.clone()).or_insert(0) += 1;
                for c in &self.st.covers { *self.stats.covers.entry(c.to_string()).or_insert(0) += 1 }
                self.stats.max_vars = self.stats.max_vars.max(self.st.varw.len() as u64);
                self.stats.max_depth = self.stats.max_depth.max(self.st.depth as u64);
                // reservoir sampling of completed paths
                self.stats.nsamples_seen += 1;
                let k = self.cfg.samples;
                let seen = self.stats.nsamples_seen;
                let slot = if self.stats.samples.len() < k { Some(self.stats.samples.len()) } else { let r = self.rand() % seen; if (r as usize) < k { Some(r as usize) } else { None } };
                if let Some(sl) = slot {
                    cx().new_epoch();
                    let log = self.st.log.iter().map(|v| match v { C(x) => *x, E(i) => cx().ev(*i, &self.st.model) as u64, _ => 0 }).collect();
                    let s = Sample { outcome: o, stream: self.stream(), log, covers: self.st.covers.iter().map(|c| c.to_string()).collect() };
                    if sl == self.stats.samples.len() { self.stats.samples.push(s) } else { self.stats.samples[sl] = s }
                }
            }
            Stop::Violation(key, detail) => {
                self.stats.paths += 1;
                *self.stats.outcomes.entry(format!("VIOLATION {}", key)).or_insert(0) += 1;
                let same = self.stats.violations.iter().filter(|v| v.key == key).count();
                if same < 3 { let s = self.stream(); self.stats.violations.push(Viol { key: key.clone(), detail, stream: s }); }
                if !self.cfg.known.iter().any(|k| key.contains(k.as_str())) { self.stop = true }
            }
            Stop::Error(e) => { self.stats.paths += 1; let w = self.where_(); *self.stats.errors.entry(format!("{} [{}]", e, w)).or_insert(0) += 1; if std::env::var("RSX_BT").is_ok() { eprintln!("ERR {} \n    {}", e, self.backtrace()) } }
        }
    }

    /// Explore until the local stack is empty or `poll` asks to stop.
    pub fn explore(&mut self, poll: &mut dyn FnMut(&mut Exec) -> bool) {
        loop {
            let r = loop {
                self.steps_since_check += 1;
                if self.steps_since_check >= 20000 { self.steps_since_check = 0; if poll(self) { return } }
                if let Err(e) = self.step() { break e }
                if self.st.instrs > self.cfg.max_instr {
                    let w = self.where_();
                    let k = w.split(" < ").next().unwrap_or("").split(' ').next().unwrap_or("").to_string();
                    break Stop::Violation(format!("hang {}", k), format!("path exceeds {} instructions in {}", self.cfg.max_instr, w));
                }
            };
            self.finish_path(r);
            if self.stop { return }
            match self.stack.pop() { Some(s) => self.st = s, None => return }
            if poll(self) { self.stack.push(self.st.clone()); return }
        }
    }

    // ---------- instruction execution ----------
    #[inline]
    fn fr(&mut self) -> &mut Frame { let c = self.st.cur; self.st.th[c].frames.last_mut().unwrap() }
    #[inline]
    fn val(&self, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => { let c = self.st.cur; self.st.th[c].frames.last().unwrap().regs[*r as usize].clone() }
            Opd::C(v) => C(*v),
            Opd::V(i) => self.kv[*i as usize].clone(),
            Opd::K(..) => unreachable!(),
        }
    }
    fn goto(&mut self, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => { let v = self.val(&e.moves[0].1); self.fr().regs[e.moves[0].0 as usize] = v; }
            _ => { let vs: Vec<V> = e.moves.iter().map(|(_, o)| self.val(o)).collect(); let fr = self.fr(); for ((d, _), v) in e.moves.iter().zip(vs) { fr.regs[*d as usize] = v } }
        }
        self.fr().pc = e.to;
    }

    pub fn step(&mut self) -> R<()> {
        let cur = self.st.cur;
        let (f, pc) = { let fr = self.st.th[cur].frames.last().unwrap(); (fr.f, fr.pc) };
        self.st.instrs += 1;
        self.hit[f as usize][pc as usize] = true;
        // the module is never mutated while executing
        let ins: &'static Instr = unsafe { &*(&self.m.funcs[f as usize].code[pc as usize] as *const Instr) };
        let mut out: Option<V> = None;
        match &ins.i {
            I::Bin(op, t, a, b) => { let (a, b) = (self.val(a), self.val(b)); out = Some(self.bin(*op, *t, &a, &b)?) }
            I::Icmp(p, t, a, b) => { let (a, b) = (self.val(a), self.val(b)); out = Some(self.icmp(*p, *t, &a, &b)) }
            I::Select(ct, t, c, a, b) => {
                let c = self.val(c);
                out = Some(match &c {
                    C(x) => if *x & 1 == 1 { self.val(a) } else { self.val(b) },
                    E(ci) => { let (a, b) = (self.val(a), self.val(b)); self.ite_v(*ci, *t, &a, &b) }
                    Agg(cs) => {
                        let (a, b) = (self.val(a), self.val(b));
                        let et = match self.m.tys[*t as usize] { Ty::Vec(_, e) => e, _ => { let _ = ct; return Err(Stop::Error("select".into())) } };
                        match (&a, &b) { (Agg(x), Agg(y)) => Agg(Rc::new(cs.iter().enumerate().map(|(i, c)| match c { C(k) => if *k == 1 { x[i].clone() } else { y[i].clone() }, E(ci) => self.ite_v(*ci, et, &x[i], &y[i]), _ => panic!() }).collect())), _ => panic!() }
                    }
                });
            }
            I::Cast(op, ft, a, tt) => { let a = self.val(a); out = Some(self.cast(*op, *ft, &a, *tt)) }
            I::Gep(base, off, dyns) => {
                let b = self.val(base);
                let mut conc = 0u64;
                let mut sym: Option<Id> = None;
                match &b { C(x) => conc = *x, E(i) => sym = Some(*i), _ => return Err(Stop::Error("vector gep".into())) }
                conc = conc.wrapping_add(*off as u64);
                for (o, t, sc) in dyns {
                    let w = self.m.lay[*t as usize].bits;
                    match self.val(o) {
                        C(x) => conc = conc.wrapping_add((sx(x as u128, w)).wrapping_mul(*sc) as u64),
                        E(i) => { let i = cx().sext(i, 64); let k = cx().k(*sc as u64 as u128, 64); let p = cx().mul(i, k); sym = Some(match sym { None => p, Some(s) => cx().add(s, p) }) }
                        _ => return Err(Stop::Error("vector gep".into())),
                    }
                }
                out = Some(match sym { None => C(conc), Some(s) => { let k = cx().k(conc as u128, 64); V::of(cx().add(s, k)) } });
            }
            I::Load(t, a) => {
                let a = self.val(a);
                let addr = match &a { C(x) => *x, E(i) => { let i2 = self.subst(*i); match self.sym_load(i2, *t)? { Some(v) => { out = Some(v); 0 } None => self.conc_id(i2) } } _ => return Err(Stop::Error("load".into())) };
                if out.is_none() { out = Some(self.load_ty(addr, *t)?) }
            }
            I::Store(t, v, a) => { let v = self.val(v); let a = self.val(a); let addr = self.conc(&a); self.store_ty(addr, *t, &v)?; }
            I::Alloca(size, al) => { let a = self.alloc(*size, *al, false); let fr = self.fr(); fr.allocas.push((a >> 32) as u32); out = Some(C(a)); }
            I::Call(rt, callee, args) => return self.call(f, pc, *rt, callee, args, ins.dst),
            I::Br(e) => { self.goto(e); return Ok(()) }
            I::CondBr(c, a, b) => {
                let b_ = match self.val(c) { C(x) => x & 1 == 1, E(i) => self.decide(i), _ => panic!() };
                self.goto(if b_ { a } else { b });
                return Ok(());
            }
            I::Switch(t, v, cs, d) => {
                let v = self.val(v);
                match v {
                    C(x) => { let e = cs.iter().find(|(k, _)| *k == x as u128).map(|c| &c.1).unwrap_or(d); self.goto(e); return Ok(()) }
                    E(i) => {
                        let i = self.subst(i);
                        let w = self.m.lay[*t as usize].bits;
                        let mut done = vec![false; cs.len()];
                        for k in 0..cs.len() {
                            if done[k] { continue }
                            // group cases with the same target and no phi moves
                            let mut cond: Option<Id> = None;
                            for j in k..cs.len() {
                                if done[j] { continue }
                                if j == k || (cs[j].1.to == cs[k].1.to && cs[j].1.moves.is_empty() && cs[k].1.moves.is_empty()) {
                                    done[j] = true;
                                    let kk = cx().k(cs[j].0, w);
                                    let e = cx().eq(i, kk);
                                    cond = Some(match cond { None => e, Some(c) => cx().or(c, e) });
                                }
                            }
                            if self.decide(cond.unwrap()) { self.goto(&cs[k].1); return Ok(()) }
                        }
                        self.goto(d);
                        return Ok(());
                    }
                    _ => panic!(),
                }
            }
            I::Ret(_, v) => { let v = v.as_ref().map(|v| self.val(v)); return self.ret(v) }
            I::Fp(op, ft, args, tt) => {
                let (fw, tw) = (self.m.lay[*ft as usize].bits, self.m.lay[*tt as usize].bits);
                let mut v = vec![];
                for a in args { match self.val(a) { C(x) => v.push(x), _ => return Err(Stop::Error(format!("floating point on a symbolic value at {}", self.where_()))) } }
                match fp(*op, fw, &v, tw) { Some(x) => out = Some(C(x)), None => return Err(Stop::Error(format!("floating point operation {:?} {} {}", op, fw, tw))) }
            }
            I::Unsupported(t) => return Err(Stop::Error(format!("instruction {}", t))),
            I::Unreachable => return Err(Stop::Violation("unreachable".into(), format!("unreachable executed at {}", self.where_()))),
            I::ExtractValue(_, a, ix) => { let mut v = self.val(a); for i in ix { v = match &v { Agg(x) => x[*i as usize].clone(), _ => return Err(Stop::Error(format!("extractvalue of {:?} in {} pc {} {:?}", v, self.m.funcs[f as usize].name, pc, ins))) } } out = Some(v) }
            I::InsertValue(_, a, _, b, ix) => { let a = self.val(a); let b = self.val(b); fn ins_(v: &V, b: V, ix: &[u32]) -> V { if ix.is_empty() { return b } if let Agg(x) = v { let mut y = (**x).clone(); y[ix[0] as usize] = ins_(&x[ix[0] as usize], b, &ix[1..]); Agg(Rc::new(y)) } else { panic!("insertvalue") } } out = Some(ins_(&a, b, ix)) }
            I::ExtractElem(_, a, k) => { let k = self.val(k); let k = self.conc(&k); if let Agg(x) = self.val(a) { out = Some(x[k as usize].clone()) } }
            I::InsertElem(_, a, b, k) => { let k = self.val(k); let k = self.conc(&k); if let Agg(x) = self.val(a) { let mut y = (*x).clone(); y[k as usize] = self.val(b); out = Some(Agg(Rc::new(y))) } }
            I::Shuffle(_, a, b, mk, _) => { if let (Agg(x), Agg(y)) = (self.val(a), self.val(b)) { let n = x.len() as i64; out = Some(Agg(Rc::new(mk.iter().map(|k| if *k < 0 { x[0].clone() } else if *k < n { x[*k as usize].clone() } else { y[(*k - n) as usize].clone() }).collect()))) } }
            I::Rmw(op, t, a, v) => {
                let a = self.val(a); let addr = self.conc(&a); let v = self.val(v);
                let old = self.load_ty(addr, *t)?;
                let w = self.m.lay[*t as usize].bits;
                let (x, y) = (old.id(w), v.id(w));
                let r = match op {
                    RmwOp::Xchg => y, RmwOp::Add => cx().add(x, y), RmwOp::Sub => cx().sub(x, y), RmwOp::And => cx().and(x, y), RmwOp::Or => cx().or(x, y), RmwOp::Xor => cx().xor(x, y),
                    RmwOp::Nand => { let t = cx().and(x, y); cx().not(t) }
                    RmwOp::Max => { let c = cx().slt(x, y); cx().ite(c, y, x) } RmwOp::Min => { let c = cx().slt(x, y); cx().ite(c, x, y) }
                    RmwOp::UMax => { let c = cx().ult(x, y); cx().ite(c, y, x) } RmwOp::UMin => { let c = cx().ult(x, y); cx().ite(c, x, y) }
                };
                self.store_ty(addr, *t, &V::of(r))?;
                out = Some(old);
            }
            I::CmpXchg(t, a, c, n) => {
                let a = self.val(a); let addr = self.conc(&a);
                let (c, n) = (self.val(c), self.val(n));
                let old = self.load_ty(addr, *t)?;
                let w = self.m.lay[*t as usize].bits;
                let e = cx().eq(old.id(w), c.id(w));
                let ok = self.decide(e);
                if ok { self.store_ty(addr, *t, &n)? }
                out = Some(Agg(Rc::new(vec![old, C(ok as u64)])));
            }
            I::Fence => {}
            I::Copy(a) => out = Some(self.val(a)),
            I::Trap(w) => return Err(Stop::Error(format!("trap {}", w))),
        }
        let dst = ins.dst;
        let fr = self.fr();
        if let Some(v) = out { if dst != NOREG { fr.regs[dst as usize] = v } }
        fr.pc += 1;
        Ok(())
    }

    fn ite_v(&mut self, c: Id, t: TyId, a: &V, b: &V) -> V {
        match (a, b) {
            (Agg(x), Agg(y)) => {
                let r = (0..x.len()).map(|i| { let (_, ft) = match self.m.tys[t as usize] { Ty::Vec(_, e) => (0, e), _ => self.m.field_off(t, i as u64) }; self.ite_v(c, ft, &x[i], &y[i]) }).collect();
                Agg(Rc::new(r))
            }
            _ => { let w = self.m.lay[t as usize].bits; V::of(cx().ite(c, a.id(w), b.id(w))) }
        }
    }
    fn ret(&mut self, v: Option<V>) -> R<()> {
        let cur = self.st.cur;
        let fr = self.st.th[cur].frames.pop().unwrap();
        let nc = self.nconst;
        for id in &fr.allocas { let i = *id - 1 - nc; Rc::make_mut(&mut self.st.objs[i as usize]).alive = false; self.st.objs[i as usize] = dead_obj(); self.st.free.push(i); }
        match self.st.th[cur].frames.last_mut() {
            None => {
                if cur == 0 { return Err(Stop::End("ok".into())) }
                Err(Stop::Error("a thread's entry function returned".into()))
            }
            Some(p) => { if fr.ret != NOREG { if let Some(v) = v { p.regs[fr.ret as usize] = v } } Ok(()) }
        }
    }

    fn lanes(&self, t: TyId) -> Option<(usize, TyId)> { match self.m.tys[t as usize] { Ty::Vec(n, e) => Some((n as usize, e)), _ => None } }

    fn bin(&mut self, op: BinOp, t: TyId, a: &V, b: &V) -> R<V> {
        if let Some((n, et)) = self.lanes(t) {
            if let (Agg(x), Agg(y)) = (a, b) { let mut r = Vec::with_capacity(n); for i in 0..n { r.push(self.bin(op, et, &x[i], &y[i])?) } return Ok(Agg(Rc::new(r))) }
        }
        let w = self.m.lay[t as usize].bits;
        if let (C(x), C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let mk = if w >= 64 { !0u64 } else { (1u64 << w) - 1 };
            let r = match op {
                BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u64 { 0 } else { x << y }, BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                BinOp::AShr => (sx(x as u128, w) >> y.min(63).min(w as u64 - 1)) as u64,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if y == 0 { return Err(Stop::Error("div by zero".into())) }
                    match op { BinOp::UDiv => x / y, BinOp::URem => x % y, BinOp::SDiv => sx(x as u128, w).wrapping_div(sx(y as u128, w)) as u64, _ => sx(x as u128, w).wrapping_rem(sx(y as u128, w)) as u64 }
                }
            };
            return Ok(C(r & mk));
        }
        let (x, y) = (a.id(w), b.id(w));
        let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr };
        Ok(V::of(cx().bin(o, x, y)))
    }
    fn icmp(&mut self, p: Pred, t: TyId, a: &V, b: &V) -> V {
        if let Some((n, et)) = self.lanes(t) {
            if let (Agg(x), Agg(y)) = (a, b) { return Agg(Rc::new((0..n).map(|i| self.icmp(p, et, &x[i], &y[i])).collect())) }
        }
        let w = self.m.lay[t as usize].bits;
        if let (C(x), C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (s, u) = (sx(x as u128, w), sx(y as u128, w));
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => s > u, Pred::Sge => s >= u, Pred::Slt => s < u, Pred::Sle => s <= u };
            return C(r as u64);
        }
        let (x, y) = (a.id(w), b.id(w));
        let c = cx();
        V::of(match p {
            Pred::Eq => c.eq(x, y), Pred::Ne => { let e = c.eq(x, y); c.not(e) }
            Pred::Ugt => c.ult(y, x), Pred::Uge => c.ule(y, x), Pred::Ult => c.ult(x, y), Pred::Ule => c.ule(x, y),
            Pred::Sgt => c.slt(y, x), Pred::Sge => c.sle(y, x), Pred::Slt => c.slt(x, y), Pred::Sle => c.sle(x, y),
        })
    }
    fn cast(&mut self, op: CastOp, ft: TyId, a: &V, tt: TyId) -> V {
        let (fl, tl) = (self.lanes(ft), self.lanes(tt));
        if op == CastOp::Bit {
            return match (fl, tl) {
                (None, None) => a.clone(),
                (Some((_, e)), None) => { let b = self.m.lay[e as usize].bits; self.pack(a, b) }
                (None, Some((n, e))) => { let b = self.m.lay[e as usize].bits; self.unpack(a, b, n) }
                (Some((n1, e1)), Some((n2, e2))) => {
                    if n1 == n2 { return a.clone() }
                    let (b1, b2) = (self.m.lay[e1 as usize].bits, self.m.lay[e2 as usize].bits);
                    let p = self.pack(a, b1);
                    self.unpack(&p, b2, n2)
                }
            };
        }
        if let (Some((n, e1)), Some((_, e2))) = (fl, tl) { if let Agg(x) = a { return Agg(Rc::new((0..n).map(|i| self.cast(op, e1, &x[i], e2)).collect())) } }
        let (fw, tw) = (self.m.lay[ft as usize].bits, self.m.lay[tt as usize].bits);
        if let C(x) = a {
            if tw <= 64 {
                return match op { CastOp::Trunc => C(if tw >= 64 { *x } else { x & ((1u64 << tw) - 1) }), CastOp::ZExt => C(*x), _ => C((sx(*x as u128, fw) as u64) & mask(tw) as u64) };
            }
        }
        let i = a.id(fw);
        V::of(match op { CastOp::Trunc => cx().extract(i, 0, tw), CastOp::ZExt => cx().zext(i, tw), _ => cx().sext(i, tw) })
    }

    fn call(&mut self, f: u32, pc: u32, rt: TyId, callee: &Callee, args: &[(TyId, Opd)], dst: u32) -> R<()> {
        let target = match callee {
            Callee::Name(n) => { let t = self.callee[f as usize][pc as usize]; if t == u32::MAX { return Err(Stop::Error(format!("unknown function {}", n))) } t }
            Callee::Reg(r) => {
                let v = self.fr().regs[*r as usize].clone();
                let a = self.conc(&v);
                if a < FBASE || (a - FBASE) / 16 >= self.m.funcs.len() as u64 { return Err(Stop::Error(format!("indirect call to {:#x}", a))) }
                ((a - FBASE) / 16) as u32
            }
            Callee::Asm(what) => {
                // No processor features.
                if *what == "cpuid" { let n = match &self.m.tys[rt as usize] { Ty::Struct(fs, _) => fs.len(), _ => 0 }; self.fr().regs[dst as usize] = Agg(Rc::new(vec![C(0); n])); }
                else if dst != NOREG { return Err(Stop::Error(format!("assembler code at {}", self.where_()))) }
                self.fr().pc += 1;
                return Ok(());
            }
        };
        let b = self.bi[target as usize];
        if b == Bi::None {
            let fun = &self.m.funcs[target as usize];
            if !fun.defined { return Err(Stop::Error(format!("external function {}", fun.name))) }
            let mut fr = self.frame(target, dst);
            for (i, (_, o)) in args.iter().enumerate() { if i < self.m.funcs[target as usize].params.len() { let v = self.val(o); let p = self.m.funcs[target as usize].params[i]; fr.regs[p as usize] = v; } }
            let cur = self.st.cur;
            self.fr().pc += 1;
            if self.st.th[cur].frames.len() > 3000 { return Err(Stop::Violation("stack overflow".into(), format!("call depth > 3000 at {}", self.where_()))) }
            self.st.th[cur].frames.push(fr);
            return Ok(());
        }
        let a: Vec<V> = args.iter().map(|(_, o)| self.val(o)).collect();
        if b == Bi::SymSwitch {
            let t = self.conc(&a[0]) as usize;
            self.fr().pc += 1;
            self.st.cur = t;
            return Ok(());
        }
        let r = self.builtin(b, target, rt, args, &a)?;
        let fr = self.fr();
        if let Some(v) = r { if dst != NOREG { fr.regs[dst as usize] = v } }
        fr.pc += 1;
        Ok(())
    }

    fn builtin(&mut self, b: Bi, target: u32, rt: TyId, args: &[(TyId, Opd)], a: &[V]) -> R<Option<V>> {
        let w0 = if a.is_empty() { 0 } else { self.m.lay[args[0].0 as usize].bits };
        // vector forms of scalar intrinsics
        if let Some((n, et)) = args.first().and_then(|x| self.lanes(x.0)) {
            if matches!(b, Bi::Umin | Bi::Umax | Bi::Smin | Bi::Smax | Bi::Abs | Bi::Ctpop | Bi::Cttz | Bi::Ctlz | Bi::Bswap | Bi::UaddSat | Bi::UsubSat | Bi::Fshl | Bi::Fshr | Bi::Bitrev) {
                let mut out = vec![];
                for i in 0..n {
                    let la: Vec<V> = a.iter().map(|v| match v { Agg(x) => x[i].clone(), x => x.clone() }).collect();
                    let largs: Vec<(TyId, Opd)> = args.iter().map(|(t, _)| (if self.lanes(*t).is_some() { et } else { *t }, Opd::C(0))).collect();
                    out.push(self.builtin(b, target, et, &largs, &la)?.unwrap());
                }
                return Ok(Some(Agg(Rc::new(out))));
            }
        }
        let c1 = |v: u64| Ok(Some(C(v)));
        match b {
            Bi::None => unreachable!(),
            Bi::Utf8 => self.utf8(a),
            Bi::SymParam => { let i = self.conc(&a[0]); let d = self.conc(&a[1]); c1(self.cfg.params.get(i as usize).copied().unwrap_or(d)) }
            Bi::Nop => Ok(None),
            Bi::RetC(v) => c1(v),
            Bi::RetArg0 | Bi::Expect => Ok(Some(a[0].clone())),
            Bi::Panic | Bi::Abort | Bi::Trap => {
                let last = a.last().and_then(|v| match v { C(x) => Some(*x), _ => None });
                let loc = self.panic_loc(last);
                let w = self.where_();
                let name = { let f = &self.m.funcs[target as usize]; if f.demangled.is_empty() { f.name.clone() } else { f.demangled.clone() } };
                let short = name.rsplit("::").next().unwrap_or("").to_string();
                let inner = w.split(" < ").next().unwrap_or("").split(' ').next().unwrap_or("").to_string();
                if self.st.panic_ok { return Err(Stop::End("panic-ok".into())) }
                if std::env::var("RSX_BT").is_ok() { eprintln!("PANIC {} {}\n    {}", name, loc, self.backtrace()) }
                Err(Stop::Violation(format!("panic in {} ({})", inner, short), format!("{} at {} stack: {}", name, loc, w)))
            }
            Bi::SymVar => { let w = self.conc(&a[0]) as u32; let v = self.new_var(w); Ok(Some(V::of(cx().zext(v, 64)))) }
            Bi::SymAssume => {
                match &a[0] {
                    C(x) => if *x & 1 == 1 { Ok(None) } else { Err(Stop::Infeasible) },
                    E(c) => {
                        let c = self.subst(*c);
                        match cx().cval(c) { Some(1) => return Ok(None), Some(_) => return Err(Stop::Infeasible), None => {} }
                        if cx().eval(c, &self.st.model) != 1 {
                            match self.check_side(c, false) { Some(d) => Self::apply(&mut self.st, &d), None => return Err(Stop::Infeasible) }
                        }
                        self.add_cons(c);
                        Ok(None)
                    }
                    _ => panic!(),
                }
            }
            Bi::SymAssert => {
                self.stats.asserts += 1;
                let (p, n) = (self.conc(&a[1]), self.conc(&a[2]));
                let msg = self.str_at(p, n).unwrap_or_default();
                match &a[0] {
                    C(x) => { self.stats.asserts_const += 1; if *x & 1 == 1 { return Ok(None) } }
                    E(c) => {
                        let c = self.subst(*c);
                        match cx().cval(c) {
                            Some(1) => { self.stats.asserts_const += 1; return Ok(None) }
                            Some(_) => {}
                            None => {
                                let nc = cx().not(c);
                                self.stats.assert_queries += 1;
                                match self.check_side(nc, true) { None => { return Ok(None) } Some(d) => { Self::apply(&mut self.st, &d); } }
                            }
                        }
                    }
                    _ => panic!(),
                }
                let w = self.where_();
                Err(Stop::Violation(format!("assert {}", msg), format!("assertion '{}' fails {}", msg, w)))
            }
            Bi::SymCover => { let (p, n) = (self.conc(&a[0]), self.conc(&a[1])); let s = self.str_at(p, n).unwrap_or_default(); self.st.covers.insert(s.into()); Ok(None) }
            Bi::SymLog => { self.st.log.push(a[0].clone()); Ok(None) }
            Bi::SymConc => { let v = self.conc(&a[0]); c1(v) }
            Bi::SymSel => { let (c, x, y) = (a[0].id(1), a[1].id(64), a[2].id(64)); Ok(Some(V::of(cx().ite(c, x, y)))) }
            Bi::SymAnd => { let (x, y) = (a[0].id(1), a[1].id(1)); Ok(Some(V::of(cx().and(x, y)))) }
            Bi::SymOr => { let (x, y) = (a[0].id(1), a[1].id(1)); Ok(Some(V::of(cx().or(x, y)))) }
            Bi::SymPanicOk => { let v = self.conc(&a[0]); self.st.panic_ok = v != 0; Ok(None) }
            Bi::SymBytesEq | Bi::Bcmp => {
                let n = self.conc(&a[2]);
                let (p, q) = (self.conc(&a[0]), self.conc(&a[1]));
                let mut r = cx().t();
                for i in 0..n { let (x, y) = (self.byte_id(p + i)?, self.byte_id(q + i)?); let e = cx().eq(x, y); r = cx().and(e, r); if cx().cval(r) == Some(0) { break } }
                if b == Bi::Bcmp { let nr = cx().not(r); Ok(Some(V::of(cx().zext(nr, 32)))) } else { Ok(Some(V::of(r))) }
            }
            Bi::Memcmp => {
                let n = self.conc(&a[2]);
                let (p, q) = (self.conc(&a[0]), self.conc(&a[1]));
                let mut r = cx().k(0, 32);
                for i in (0..n).rev() {
                    let (x, y) = (self.byte_id(p + i)?, self.byte_id(q + i)?);
                    let e = cx().eq(x, y);
                    let l = cx().ult(x, y);
                    let (m1, p1) = (cx().k(!0, 32), cx().k(1, 32));
                    let d = cx().ite(l, m1, p1);
                    r = cx().ite(e, r, d);
                }
                Ok(Some(V::of(r)))
            }
            Bi::Malloc | Bi::Calloc | Bi::Memalign => {
                let szv = match b { Bi::Malloc => a[0].clone(), Bi::Memalign => a[2].clone(), _ => { let (x, y) = (a[0].id(64), a[1].id(64)); V::of(cx().mul(x, y)) } };
                let size = match &szv {
                    C(x) => *x,
                    E(i) => { let i = self.subst(*i); let m = cx().info[i as usize].max; if m < (1 << 31) { m as u64 } else { self.conc_id(i) } }
                    _ => panic!(),
                };
                if size >= 1 << 31 { if b == Bi::Memalign { return c1(12) } return c1(0) }
                if b == Bi::Memalign {
                    let p = self.conc(&a[0]); let al = self.conc(&a[1]);
                    let o = self.alloc(size, al, true);
                    self.store_scalar(p, 64, &C(o))?;
                    return c1(0);
                }
                let o = self.alloc(size, 16, true);
                c1(o)
            }
            Bi::Realloc => {
                let p = self.conc(&a[0]);
                let size = match &a[1] { C(x) => *x, E(i) => { let i = self.subst(*i); let m = cx().info[i as usize].max; if m < (1 << 31) { m as u64 } else { self.conc_id(i) } } _ => panic!() };
                if size >= 1 << 31 { return c1(0) }
                let q = self.alloc(size, 16, true);
                if p != 0 {
                    let osz = match self.obj(p) { Some((o, 0)) if o.alive => o.size, _ => return Err(self.memerr("realloc", p, size)) };
                    let n = osz.min(size);
                    // copy only materialized bytes
                    let have = self.obj(p).unwrap().0.data.len() as u64;
                    self.copy_bytes(q, p, n.min(have))?;
                    self.free_obj(p)?;
                }
                c1(q)
            }
            Bi::Free => { let p = self.conc(&a[0]); if p != 0 { self.free_obj(p)? } Ok(None) }
            Bi::Memcpy => {
                let n = self.conc(&a[2]);
                let (d, s) = (self.conc(&a[0]), self.conc(&a[1]));
                self.copy_bytes(d, s, n)?;
                Ok(Some(a[0].clone()))
            }
            Bi::Memset => {
                let n = self.conc(&a[2]);
                let d = self.conc(&a[0]);
                if n > 0 {
                    let wv = self.m.lay[args[1].0 as usize].bits;
                    let v = a[1].id(wv); let v = cx().extract(v, 0, 8);
                    let (o, off) = self.wr(d, n)?;
                    match cx().cval(v) { Some(k) => for i in 0..n as usize { o.set(off + i, k as u8) }, None => for i in 0..n as usize { o.set_sym(off + i, v + 1) } }
                }
                Ok(Some(a[0].clone()))
            }
            Bi::Strlen => {
                let p = self.conc(&a[0]);
                let mut n = 0;
                loop { let x = self.byte_id(p + n)?; let z = cx().k(0, 8); let e = cx().eq(x, z); if self.decide(e) { return c1(n) } n += 1; }
            }
            Bi::MemchrN => Err(Stop::Error("memchr".into())),
            Bi::Errno => {
                if self.st.errno == 0 { let o = self.alloc(4, 4, true); self.st.errno = o; }
                c1(self.st.errno)
            }
            Bi::ThreadLocal => {
                let g = self.conc(&a[0]);
                if self.st.cur == 0 { return c1(g) }
                let cur = self.st.cur;
                let key = (g >> 32) as u32;
                if let Some(o) = self.st.th[cur].tls.get(&key) { return c1((*o as u64) << 32) }
                // fresh copy of the initializer
                let gi = self.gaddr.iter().position(|x| *x == g).unwrap();
                let gl = &self.m.globals[gi];
                let lay = self.m.lay[gl.ty as usize];
                let mut data = vec![0u8; lay.size as usize];
                if let Some(init) = &gl.init { write_const(&self.m, &self.gaddr, &mut data, 0, gl.ty, init); }
                let o = self.alloc(lay.size, gl.align, false);
                { let (ob, _) = self.obj_mut(o).unwrap(); ob.data = data; }
                self.st.th[cur].tls.insert(key, (o >> 32) as u32);
                c1(o)
            }
            Bi::Cttz | Bi::Ctlz => {
                if let Some(x) = a[0].cv() { let r = if b == Bi::Cttz { if x == 0 { w0 } else { x.trailing_zeros() } } else { if x == 0 { w0 } else { x.leading_zeros() - (128 - w0) } }; return Ok(Some(V::from128(r as u128, w0))) }
                let x = a[0].id(w0);
                let mut r = cx().k(w0 as u128, w0);
                let it: Vec<u32> = if b == Bi::Cttz { (0..w0).rev().collect() } else { (0..w0).collect() };
                for i in it { let bit = cx().extract(x, i, 1); let k = cx().k(if b == Bi::Cttz { i } else { w0 - 1 - i } as u128, w0); r = cx().ite(bit, k, r); }
                Ok(Some(V::of(r)))
            }
            Bi::Ctpop => {
                let x = a[0].id(w0);
                let mut r = cx().k(0, w0);
                for i in 0..w0 { let bit = cx().extract(x, i, 1); let z = cx().zext(bit, w0); r = cx().add(r, z); }
                Ok(Some(V::of(r)))
            }
            Bi::Bswap => { let x = a[0].id(w0); let mut r: Option<Id> = None; for i in 0..w0 / 8 { let e = cx().extract(x, i * 8, 8); r = Some(match r { None => e, Some(h) => cx().concat(h, e) }) } Ok(Some(V::of(r.unwrap()))) }
            Bi::Bitrev => { let x = a[0].id(w0); let mut r: Option<Id> = None; for i in 0..w0 { let e = cx().extract(x, i, 1); r = Some(match r { None => e, Some(h) => cx().concat(h, e) }) } Ok(Some(V::of(r.unwrap()))) }
            Bi::Fshl | Bi::Fshr => {
                let s = match a[2].cv() { Some(s) => (s % w0 as u128) as u32, None => (self.conc(&a[2]) % w0 as u64) as u32 };
                let (x, y) = (a[0].id(w0), a[1].id(w0));
                let s = if b == Bi::Fshl { s } else { if s == 0 { return Ok(Some(a[1].clone())) } w0 - s };
                if s == 0 { return Ok(Some(a[0].clone())) }
                let h = cx().extract(x, 0, w0 - s); let l = cx().extract(y, w0 - s, s);
                Ok(Some(V::of(cx().concat(h, l))))
            }
            Bi::Umin | Bi::Umax | Bi::Smin | Bi::Smax => {
                let (x, y) = (a[0].id(w0), a[1].id(w0));
                let c = if matches!(b, Bi::Umin | Bi::Umax) { cx().ult(x, y) } else { cx().slt(x, y) };
                Ok(Some(V::of(if matches!(b, Bi::Umin | Bi::Smin) { cx().ite(c, x, y) } else { cx().ite(c, y, x) })))
            }
            Bi::Abs => { let x = a[0].id(w0); let n = cx().neg(x); let s = cx().extract(x, w0 - 1, 1); Ok(Some(V::of(cx().ite(s, n, x)))) }
            Bi::Ucmp | Bi::Scmp => {
                let rw = self.m.lay[rt as usize].bits;
                let (x, y) = (a[0].id(w0), a[1].id(w0));
                let (l, g) = if b == Bi::Ucmp { (cx().ult(x, y), cx().ult(y, x)) } else { (cx().slt(x, y), cx().slt(y, x)) };
                let (m1, p1, z) = (cx().k(!0, rw), cx().k(1, rw), cx().k(0, rw));
                let t = cx().ite(g, p1, z);
                Ok(Some(V::of(cx().ite(l, m1, t))))
            }
            Bi::UaddSat => { let (x, y) = (a[0].id(w0), a[1].id(w0)); let s = cx().add(x, y); let o = cx().ult(s, x); let m = cx().k(!0, w0); Ok(Some(V::of(cx().ite(o, m, s)))) }
            Bi::UsubSat => { let (x, y) = (a[0].id(w0), a[1].id(w0)); let s = cx().sub(x, y); let o = cx().ult(x, y); let m = cx().k(0, w0); Ok(Some(V::of(cx().ite(o, m, s)))) }
            Bi::UaddOv | Bi::UsubOv | Bi::SaddOv | Bi::SsubOv | Bi::UmulOv | Bi::SmulOv => {
                let (x, y) = (a[0].id(w0), a[1].id(w0));
                let (r, o) = match b {
                    Bi::UaddOv => { let s = cx().add(x, y); (s, cx().ult(s, x)) }
                    Bi::UsubOv => { let s = cx().sub(x, y); (s, cx().ult(x, y)) }
                    Bi::SaddOv | Bi::SsubOv => {
                        let (x1, y1) = (cx().sext(x, w0 + 1), cx().sext(y, w0 + 1));
                        let s1 = if b == Bi::SaddOv { cx().add(x1, y1) } else { cx().sub(x1, y1) };
                        let s = cx().extract(s1, 0, w0);
                        let (t, u) = (cx().extract(s1, w0, 1), cx().extract(s1, w0 - 1, 1));
                        (s, cx().xor(t, u))
                    }
                    _ => {
                        let (x1, y1) = if b == Bi::UmulOv { (cx().zext(x, 2 * w0), cx().zext(y, 2 * w0)) } else { (cx().sext(x, 2 * w0), cx().sext(y, 2 * w0)) };
                        let p = cx().mul(x1, y1);
                        let s = cx().mul(x, y);
                        let back = if b == Bi::UmulOv { cx().zext(s, 2 * w0) } else { cx().sext(s, 2 * w0) };
                        let e = cx().eq(p, back);
                        (s, cx().not(e))
                    }
                };
                Ok(Some(Agg(Rc::new(vec![V::of(r), V::of(o)]))))
            }
            Bi::IsConst => c1(0),
            Bi::LoadRel => { let p = self.conc(&a[0]); let o = self.conc(&a[1]); match RELTAB.with(|r| r.borrow().get(&p.wrapping_add(o)).copied()) { Some(v) => c1(v), None => Err(Stop::Error("load.relative outside a known table".into())) } }
            Bi::Ptrmask => { let (x, y) = (a[0].id(64), a[1].id(64)); Ok(Some(V::of(cx().and(x, y)))) }
            Bi::VecReduce(k) => {
                let (_, et) = self.lanes(args[0].0).unwrap();
                let w = self.m.lay[et as usize].bits;
                if let Agg(x) = &a[0] {
                    let mut r = x[0].id(w);
                    for v in x.iter().skip(1) { let i = v.id(w); r = match k { 0 => cx().or(r, i), 1 => cx().and(r, i), 2 => cx().add(r, i), 3 => cx().xor(r, i), 4 => { let c = cx().ult(r, i); cx().ite(c, i, r) } _ => { let c = cx().ult(r, i); cx().ite(c, r, i) } } }
                    return Ok(Some(V::of(r)));
                }
                panic!()
            }
            Bi::Redirect(k) => {
                let kind = self.cfg.redirects[k as usize].1.clone();
                if let Some(v) = kind.strip_prefix("const:") { return c1(v.parse().unwrap()) }
                if kind == "empty_string" { let p = self.conc(&a[0]); self.store_scalar(p, 64, &C(0))?; self.store_scalar(p + 8, 64, &C(1))?; self.store_scalar(p + 16, 64, &C(0))?; return Ok(None) }
                if kind == "nop" { return Ok(None) }
                // fill:<argument>:<bytes>: some fixed non-repeating content
                if let Some(v) = kind.strip_prefix("fill:") {
                    let (k, n) = v.split_once(':').unwrap();
                    let (p, n): (u64, u64) = (self.conc(&a[k.parse::<usize>().unwrap()]), n.parse().unwrap());
                    let (o, off) = self.wr(p, n)?;
                    for i in 0..n as usize { o.set(off + i, (i * 73 + 41) as u8) }
                    return Ok(None);
                }
                Err(Stop::Error(format!("redirect {}", kind)))
            }
            Bi::GetRandom => {
                let (p, n) = (self.conc(&a[0]), self.conc(&a[1]));
                if n > 0 { let (o, off) = self.wr(p, n)?; for i in 0..n as usize { o.set(off + i, (i * 37 + 11) as u8) } }
                c1(n)
            }
            Bi::Syscall => {
                let nr = self.conc(&a[0]);
                match nr {
                    318 => { let (p, n) = (self.conc(&a[1]), self.conc(&a[2])); if n > 0 { let (o, off) = self.wr(p, n)?; for i in 0..n as usize { o.set(off + i, (i * 37 + 11) as u8) } } c1(n) }
                    186 => c1(1000 + self.st.cur as u64),
                    332 => { let e = self.errno_obj(); self.store_scalar(e, 32, &C(38))?; c1(!0) }
                    _ => Err(Stop::Error(format!("syscall {}", nr))),
                }
            }
            // Threads are coroutines: the harness's scheduler says who runs.
            Bi::SymSpawn => {
                let (f, arg) = (self.conc(&a[0]), self.conc(&a[1]));
                let fid = ((f - FBASE) / 16) as u32;
                let mut fr = self.frame(fid, NOREG);
                let p0 = self.m.funcs[fid as usize].params[0];
                fr.regs[p0 as usize] = C(arg);
                self.st.th.push(Thread { frames: vec![fr], tls: BTreeMap::new() });
                c1(self.st.th.len() as u64 - 1)
            }
            Bi::SymSelf => c1(self.st.cur as u64),
            Bi::SymSwitch => unreachable!(),
        }
    }
    fn errno_obj(&mut self) -> u64 { if self.st.errno == 0 { let o = self.alloc(4, 4, true); self.st.errno = o; } self.st.errno }
    fn free_obj(&mut self, p: u64) -> R<()> {
        match self.obj(p) { Some((o, 0)) if o.alive && o.heap => {} _ => return Err(self.memerr("free", p, 0)) }
        let i = ((p >> 32) - 1 - self.nconst as u64) as usize;
        self.st.objs[i] = dead_obj();
        self.st.free.push(i as u32);
        Ok(())
    }

}

thread_local! { static RELTAB: std::cell::RefCell<HashMap<u64, u64>> = Default::default(); }
thread_local! { static DEAD: Rc<Obj> = { let mut o = Obj::new(0, 1, false); o.alive = false; Rc::new(o) }; }
fn dead_obj() -> Rc<Obj> { DEAD.with(|d| d.clone()) }

fn glob_addr(m: &Module, gaddr: &[u64], n: &str) -> u64 {
    if let Some(&g) = m.gmap.get(n) { let gl = &m.globals[g as usize]; if gl.init.is_none() { return 0 } return gaddr[g as usize] }
    if let Some(&f) = m.fmap.get(n) { return FBASE + f as u64 * 16 }
    0
}
fn const_num(m: &Module, gaddr: &[u64], c: &Const) -> u64 {
    match c {
        Const::Int(v) => *v as u64,
        Const::Zero | Const::Undef => 0,
        Const::Glob(n, o) => glob_addr(m, gaddr, n).wrapping_add(*o as u64),
        Const::Arith(sub, b) => { let (x, y) = (const_num(m, gaddr, &b.0), const_num(m, gaddr, &b.1)); if *sub { x.wrapping_sub(y) } else { x.wrapping_add(y) } }
        _ => panic!("const_num {:?}", c),
    }
}
fn const_v(m: &Module, gaddr: &[u64], t: TyId, c: &Const) -> V {
    let lay = m.lay[t as usize];
    match (&m.tys[t as usize], c) {
        (Ty::Int(_) | Ty::Ptr, Const::Int(v)) => V::from128(*v, lay.bits),
        (Ty::Int(_) | Ty::Ptr, Const::Undef | Const::Zero) => V::from128(0, lay.bits),
        (_, Const::Arith(..)) => V::from128(const_num(m, gaddr, c) as u128, lay.bits),
        (_, Const::Glob(n, o)) => C(glob_addr(m, gaddr, n).wrapping_add(*o as u64)),
        (Ty::Struct(fs, _), Const::Zero | Const::Undef) => Agg(Rc::new(fs.iter().map(|f| const_v(m, gaddr, *f, c)).collect())),
        (Ty::Arr(n, e) | Ty::Vec(n, e), Const::Zero | Const::Undef) => Agg(Rc::new((0..*n).map(|_| const_v(m, gaddr, *e, c)).collect())),
        (Ty::Vec(n, e), Const::Splat(b)) => Agg(Rc::new((0..*n).map(|_| const_v(m, gaddr, *e, &b.1)).collect())),
        (_, Const::Agg(v)) => Agg(Rc::new(v.iter().map(|(t, c)| const_v(m, gaddr, *t, c)).collect())),
        (Ty::Arr(_, _) | Ty::Vec(..), Const::Bytes(b)) => Agg(Rc::new(b.iter().map(|x| C(*x as u64)).collect())),
        (Ty::Other, _) => C(0),
        (t, c) => panic!("const_v {:?} {:?}", t, c),
    }
}
fn write_const(m: &Module, gaddr: &[u64], d: &mut [u8], off: usize, t: TyId, c: &Const) {
    let lay = m.lay[t as usize];
    match c {
        Const::Undef | Const::Zero => {}
        Const::Int(v) => { let n = ((lay.bits + 7) / 8) as usize; for i in 0..n { d[off + i] = (v >> (8 * i)) as u8 } }
        // Globals are spaced wider than 32 bits: relative tables keep their targets aside.
        Const::Arith(true, b) if lay.bits == 32 => match (&b.0, &b.1) {
            (Const::Glob(..), Const::Glob(..)) => { let k = const_num(m, gaddr, &b.1).wrapping_add(off as u64); let v = const_num(m, gaddr, &b.0); RELTAB.with(|r| r.borrow_mut().insert(k, v)); }
            _ => panic!("relative constant {:?}", c),
        },
        Const::Arith(..) => { let v = const_num(m, gaddr, c); let n = ((lay.bits + 7) / 8) as usize; for i in 0..n { d[off + i] = (v >> (8 * i)) as u8 } }
        Const::Bytes(b) => d[off..off + b.len()].copy_from_slice(b),
        Const::Glob(n, o) => { let a = glob_addr(m, gaddr, n).wrapping_add(*o as u64); d[off..off + 8].copy_from_slice(&a.to_le_bytes()) }
        Const::Agg(v) => for (i, (ft, fc)) in v.iter().enumerate() { let (o, _) = m.field_off(t, i as u64); write_const(m, gaddr, d, off + o as usize, *ft, fc) },
        Const::Splat(b) => { if let Ty::Vec(n, e) = m.tys[t as usize] { let s = m.lay[e as usize].size as usize; for i in 0..n as usize { write_const(m, gaddr, d, off + i * s, b.0, &b.1) } } }
    }
}

fn classify(f: &Func, cfg: &Cfg) -> Bi {
    let n = f.name.as_str();
    let d = f.demangled.as_str();
    if f.defined {
        for (i, (pat, _)) in cfg.redirects.iter().enumerate() { if pat.split('&').all(|p| d.contains(p)) { return Bi::Redirect(i as u32) } }
        if d.starts_with("core::panicking::panic_nounwind") || d.starts_with("core::panicking::panic") || d.starts_with("core::panicking::assert_failed") || d.contains("::handle_alloc_error") || d.starts_with("std::process::abort") || d.starts_with("core::panicking::unreachable_display") { return Bi::Panic }
        if n.ends_with("4core3str8converts9from_utf8") && f.params.len() == 3 { return Bi::Utf8 }
        if n == "rust_eh_personality" { return Bi::Nop }
        return Bi::None;
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return if p("memcpy") || p("memmove") { Bi::Memcpy } else if p("memset") { Bi::Memset } else if p("threadlocal") { Bi::ThreadLocal }
        else if p("cttz") { Bi::Cttz } else if p("ctlz") { Bi::Ctlz } else if p("ctpop") { Bi::Ctpop } else if p("bswap") { Bi::Bswap } else if p("bitreverse") { Bi::Bitrev }
        else if p("fshl") { Bi::Fshl } else if p("fshr") { Bi::Fshr } else if p("umin") { Bi::Umin } else if p("umax") { Bi::Umax } else if p("smin") { Bi::Smin } else if p("smax") { Bi::Smax }
        else if p("abs") { Bi::Abs } else if p("ucmp") { Bi::Ucmp } else if p("scmp") { Bi::Scmp } else if p("uadd.sat") { Bi::UaddSat } else if p("usub.sat") { Bi::UsubSat }
        else if p("uadd.with") { Bi::UaddOv } else if p("usub.with") { Bi::UsubOv } else if p("sadd.with") { Bi::SaddOv } else if p("ssub.with") { Bi::SsubOv } else if p("umul.with") { Bi::UmulOv } else if p("smul.with") { Bi::SmulOv }
        else if p("is.constant") { Bi::IsConst } else if p("trap") || p("ubsantrap") { Bi::Trap } else if p("expect") { Bi::Expect } else if p("ptrmask") { Bi::Ptrmask } else if p("load.relative") { Bi::LoadRel }
        else if p("vector.reduce.or") { Bi::VecReduce(0) } else if p("vector.reduce.and") { Bi::VecReduce(1) } else if p("vector.reduce.add") { Bi::VecReduce(2) } else if p("vector.reduce.xor") { Bi::VecReduce(3) } else if p("vector.reduce.umax") { Bi::VecReduce(4) } else if p("vector.reduce.umin") { Bi::VecReduce(5) }
        else if p("x86.sse2.pause") || p("prefetch") || p("donothing") || p("stackrestore") || p("invariant") || p("sideeffect") || p("va_") { Bi::Nop } else if p("launder") || p("strip") { Bi::RetArg0 } else { Bi::None };
    }
    match n {
        "sym_param" => Bi::SymParam, "sym_var" => Bi::SymVar, "sym_assume" => Bi::SymAssume, "sym_assert" => Bi::SymAssert, "sym_cover" => Bi::SymCover, "sym_log" => Bi::SymLog, "sym_concretize" => Bi::SymConc,
        "sym_select" => Bi::SymSel, "sym_and" => Bi::SymAnd, "sym_or" => Bi::SymOr, "sym_panic_ok" => Bi::SymPanicOk, "sym_bytes_eq" => Bi::SymBytesEq,
        "malloc" => Bi::Malloc, "calloc" => Bi::Calloc, "realloc" => Bi::Realloc, "free" => Bi::Free, "posix_memalign" => Bi::Memalign,
        "memcpy" | "memmove" => Bi::Memcpy, "memset" => Bi::Memset, "bcmp" => Bi::Bcmp, "memcmp" => Bi::Memcmp, "strlen" => Bi::Strlen,
        "__errno_location" => Bi::Errno, "getenv" => Bi::RetC(0), "getrandom" => Bi::GetRandom, "abort" | "_exit" | "exit" => Bi::Abort,
        "__cxa_thread_atexit_impl" | "pthread_atfork" | "sigaltstack" | "sigaction" | "pthread_key_create" | "pthread_setspecific" | "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_detach" | "pthread_setname_np" => Bi::RetC(0),
        "gettid" | "getpid" => Bi::RetC(1000), "pthread_self" => Bi::RetC(0x7000_0000), "write" | "writev" => Bi::RetC(1),
        "syscall" => Bi::Syscall, "sym_spawn" => Bi::SymSpawn, "sym_switch" => Bi::SymSwitch, "sym_self" => Bi::SymSelf, "sched_yield" | "dlsym" | "sym_exhausted" => Bi::RetC(0),
        "sysconf" => Bi::RetC(4096), "pthread_getspecific" => Bi::RetC(0),
        "__rust_no_alloc_shim_is_unstable_v2" => Bi::Nop,
        _ => Bi::None,
    }
}

/// A floating-point operation on values given as bits (32: float, 64: double).
fn fp(op: FpOp, fw: u32, v: &[u64], tw: u32) -> Option<u64> {
    let get = |x: u64| if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
    let put = |d: f64| if tw == 32 { (d as f32).to_bits() as u64 } else { d.to_bits() };
    let m = mask(tw) as u64;
    match op {
        FpOp::FromU | FpOp::FromS => {
            if fw > 64 || (tw != 32 && tw != 64) { return None }
            let s = sx(v[0] as u128, fw);
            return Some(match (op, tw) {
                (FpOp::FromU, 32) => (v[0] as f32).to_bits() as u64,
                (FpOp::FromU, _) => (v[0] as f64).to_bits(),
                (_, 32) => (s as f32).to_bits() as u64,
                _ => (s as f64).to_bits(),
            });
        }
        _ => {}
    }
    if fw != 32 && fw != 64 { return None }
    let a = get(v[0]);
    let b = if v.len() > 1 { get(v[1]) } else { 0.0 };
    // The results on doubles of operations on floats, rounded to float, are those of the operations on floats.
    Some(match op {
        FpOp::Neg => if fw == 32 { v[0] ^ (1 << 31) } else { v[0] ^ (1 << 63) },
        FpOp::Add => put(a + b),
        FpOp::Sub => put(a - b),
        FpOp::Mul => put(a * b),
        FpOp::Div => put(a / b),
        FpOp::Rem => put(a % b),
        FpOp::Conv => put(a),
        FpOp::ToU => { if tw > 64 { return None } (a as u64) & m }
        FpOp::ToS => { if tw > 64 { return None } (a as i64 as u64) & m }
        FpOp::Cmp(p) => {
            let un = a.is_nan() || b.is_nan();
            let r = match p { "false" => false, "true" => true, "ord" => !un, "uno" => un, _ => {
                let c = match &p[1..] { "eq" => a == b, "gt" => a > b, "ge" => a >= b, "lt" => a < b, "le" => a <= b, _ => a < b || a > b };
                if &p[..1] == "u" { un || c } else { !un && c }
            } };
            r as u64
        }
        _ => return None,
    })
}
