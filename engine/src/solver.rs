//! Z3 back end: translation of expression DAGs and satisfiability queries.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
}

extern "C" fn on_err(_: P, e: c_uint) {
    eprintln!("z3 error {}", e);
    std::process::abort();
}

pub struct Solver {
    c: P,
    memo: Vec<P>,  // bv or bool ast per node (bool when width 1)
    params: P,
    cache: FxMap<Vec<u32>, Option<Vec<(u32, u64)>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub unknowns: u64,
    slow: f64,
    pub max_time: f64,
    pub models: Vec<std::rc::Rc<Vec<(u32, u64)>>>,
}

pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = CString::new("rlimit").unwrap();
            let sym = Z3_mk_string_symbol(c, k.as_ptr());
            Z3_params_set_uint(c, params, sym, 400_000_000);
            Solver { c, memo: vec![], params, cache: Default::default(), queries: 0, cache_hits: 0, time: 0.0, unknowns: 0, max_time: 0.0, models: vec![], slow: std::env::var("RSX_SLOW").ok().and_then(|v| v.parse().ok()).unwrap_or(0.0) }
        }
    }
    fn numeral(&self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 { let s = Z3_mk_bv_sort(self.c, w); Z3_mk_unsigned_int64(self.c, v as u64, s) }
            else {
                let sh = Z3_mk_bv_sort(self.c, w - 64);
                let sl = Z3_mk_bv_sort(self.c, 64);
                let h = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, sh);
                Z3_inc_ref(self.c, h);
                let l = Z3_mk_unsigned_int64(self.c, v as u64, sl);
                Z3_inc_ref(self.c, l);
                Z3_mk_concat(self.c, h, l)
            }
        }
    }
    /// bit-vector sorted ast
    fn bv(&mut self, e: Id) -> P {
        let a = self.tr(e);
        if cx().w(e) == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, 1);
                let one = Z3_mk_unsigned_int64(self.c, 1, s); Z3_inc_ref(self.c, one);
                let zero = Z3_mk_unsigned_int64(self.c, 0, s); Z3_inc_ref(self.c, zero);
                let r = Z3_mk_ite(self.c, a, one, zero);
                Z3_inc_ref(self.c, r);
                r
            }
        } else { a }
    }
    /// ast: Bool for width 1, bit-vector otherwise
    fn tr(&mut self, e: Id) -> P {
        if self.memo.len() <= e as usize { self.memo.resize(cx().nodes.len().max(e as usize + 1), std::ptr::null_mut()) }
        let m = self.memo[e as usize];
        if !m.is_null() { return m }
        let n = cx().n(e);
        let w = n.w as u32;
        let c = self.c;
        unsafe {
            let r = match n.op {
                Op::Const => { let v = cx().cval(e).unwrap(); if w == 1 { if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.numeral(v, w) } }
                Op::Var => {
                    let s = Z3_mk_bv_sort(c, w);
                    let v = Z3_mk_const(c, Z3_mk_int_symbol(c, (n.a * 128 + w) as c_int), s);
                    Z3_inc_ref(c, v);
                    if w == 1 { let one = self.numeral(1, 1); Z3_mk_eq(c, v, one) } else { v }
                }
                Op::Not => { let a = self.tr(n.a); if w == 1 { Z3_mk_not(c, a) } else { Z3_mk_bvnot(c, a) } }
                Op::Extract => { let a = self.bv(n.a); let x = Z3_mk_extract(c, n.b + w - 1, n.b, a); if w == 1 { Z3_inc_ref(c, x); let one = self.numeral(1, 1); Z3_mk_eq(c, x, one) } else { x } }
                Op::ZExt => { let a = self.bv(n.a); Z3_mk_zero_ext(c, w - cx().w(n.a), a) }
                Op::SExt => { let a = self.bv(n.a); Z3_mk_sign_ext(c, w - cx().w(n.a), a) }
                Op::Concat => { let a = self.bv(n.a); let b = self.bv(n.b); Z3_mk_concat(c, a, b) }
                Op::Ite => { let a = self.tr(n.a); let b = self.tr(n.b); let d = self.tr(n.c); Z3_mk_ite(c, a, b, d) }
                Op::Eq => { let a = self.tr(n.a); let b = self.tr(n.b); Z3_mk_eq(c, a, b) }
                Op::Ult => { let a = self.bv(n.a); let b = self.bv(n.b); Z3_mk_bvult(c, a, b) }
                Op::Slt => { let a = self.bv(n.a); let b = self.bv(n.b); Z3_mk_bvslt(c, a, b) }
                Op::And | Op::Or | Op::Xor if w == 1 => {
                    let a = self.tr(n.a); let b = self.tr(n.b); let ab = [a, b];
                    match n.op { Op::And => Z3_mk_and(c, 2, ab.as_ptr()), Op::Or => Z3_mk_or(c, 2, ab.as_ptr()), _ => Z3_mk_xor(c, a, b) }
                }
                op => {
                    let a = self.bv(n.a); let b = self.bv(n.b);
                    let x = match op {
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b), Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b), Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b), Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    };
                    if w == 1 { Z3_inc_ref(c, x); let one = self.numeral(1, 1); Z3_mk_eq(c, x, one) } else { x }
                }
            };
            Z3_inc_ref(c, r);
            self.memo[e as usize] = r;
            r
        }
    }

    /// Is the conjunction of `cons` satisfiable? Returns values of the variables it mentions.
    pub fn check(&mut self, cons: &[Id], vars: &[(u32, u32)]) -> Res {
        let mut key: Vec<u32> = cons.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat };
        }
        let t0 = Instant::now();
        self.queries += 1;
        let c = self.c;
        let mut out = Res::Unknown;
        unsafe {
            // wide variables: the bit-vector tactic with its preprocessing right away
            let wide = vars.iter().any(|(_, w)| *w > 16);
            for attempt in (wide as usize)..2 {
                let s = if attempt == 0 && !wide { Z3_mk_simple_solver(c) } else { let l = CString::new("QF_BV").unwrap(); Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())) };
                Z3_solver_inc_ref(c, s);
                if attempt == 0 && !wide {
                    let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
                    let k = CString::new("rlimit").unwrap();
                    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 3_000_000);
                    Z3_solver_set_params(c, s, p);
                } else { Z3_solver_set_params(c, s, self.params); }
                for e in &key { let a = self.tr(*e); Z3_solver_assert(c, s, a); }
                let ta = Instant::now();
                let r = Z3_solver_check(c, s);
                if self.slow > 0.0 && ta.elapsed().as_secs_f64() > self.slow { eprintln!("; attempt {} r {} {:.2}s\n{}", attempt, r, ta.elapsed().as_secs_f64(), std::ffi::CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy()); }
                if r == 1 {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut vals = vec![];
                    for (v, w) in vars {
                        let sort = Z3_mk_bv_sort(c, *w);
                        let a = Z3_mk_const(c, Z3_mk_int_symbol(c, (v * 128 + w) as c_int), sort);
                        Z3_inc_ref(c, a);
                        let mut o: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(c, m, a, true, &mut o);
                        assert!(ok);
                        Z3_inc_ref(c, o);
                        let mut x = 0u64;
                        assert!(Z3_get_numeral_uint64(c, o, &mut x));
                        vals.push((*v, x));
                    }
                    Z3_model_dec_ref(c, m);
                    out = Res::Sat(vals);
                } else if r == -1 { out = Res::Unsat }
                Z3_solver_dec_ref(c, s);
                if r != 0 { break }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt }
        match &out {
            Res::Sat(m) => { self.cache.insert(key, Some(m.clone())); }
            Res::Unsat => { self.cache.insert(key, None); }
            Res::Unknown => self.unknowns += 1,
        }
        out
    }
}
