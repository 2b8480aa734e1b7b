//! Hash-consed bit-vector expressions with a strong local simplifier.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Not, Shl, LShr, AShr, Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u8, pub a: u32, pub b: u32, pub c: u32 }

#[derive(Clone, Copy)]
pub struct Info { pub min: u128, pub max: u128, pub kz: u128, pub vs: u32 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: FxMap<Node, Id>,
    pub consts: Vec<u128>,
    cmap: FxMap<u128, u32>,
    pub vsets: Vec<Box<[u32]>>,
    vsmap: HashMap<Box<[u32]>, u32, BuildHasherDefault<Fx>>,
    vsun: FxMap<(u32, u32), u32>,
    memo: Vec<u128>,
    memo_ep: Vec<u32>,
    ep: u32,
    pub truth: FxMap<Id, [u64; 4]>,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
fn sext128(v: u128, w: u32) -> i128 { let s = 128 - w; ((v << s) as i128) >> s }

static mut CTX: *mut Ctx = std::ptr::null_mut();
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_null() {
            CTX = Box::into_raw(Box::new(Ctx {
                nodes: vec![], info: vec![], map: Default::default(), consts: vec![], cmap: Default::default(),
                vsets: vec![Box::new([])], vsmap: Default::default(), vsun: Default::default(), memo: vec![], memo_ep: vec![], ep: 0, truth: Default::default(),
            }));
            (*CTX).vsmap.insert(Box::new([]), 0);
        }
        &mut *CTX
    }
}

impl Ctx {
    pub fn w(&self, a: Id) -> u32 { self.nodes[a as usize].w as u32 }
    pub fn op(&self, a: Id) -> Op { self.nodes[a as usize].op }
    pub fn n(&self, a: Id) -> Node { self.nodes[a as usize] }
    pub fn cval(&self, a: Id) -> Option<u128> {
        let n = self.nodes[a as usize];
        if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None }
    }
    pub fn vars(&self, a: Id) -> &[u32] { &self.vsets[self.info[a as usize].vs as usize] }
    pub fn vs_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a }
        if a == 0 { return b }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.vsun.get(&k) { return r }
        let mut v: Vec<u32> = self.vsets[a as usize].iter().chain(self.vsets[b as usize].iter()).cloned().collect();
        v.sort_unstable();
        v.dedup();
        let r = self.vs_intern(v);
        self.vsun.insert(k, r);
        r
    }
    fn vs_intern(&mut self, v: Vec<u32>) -> u32 {
        let v = v.into_boxed_slice();
        if let Some(&r) = self.vsmap.get(&v) { return r }
        let r = self.vsets.len() as u32;
        self.vsets.push(v.clone());
        self.vsmap.insert(v, r);
        r
    }

    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> Id {
        let n = Node { op, w: w as u8, a, b, c };
        if let Some(&i) = self.map.get(&n) { return i }
        let inf = self.infer(&n);
        // fully determined by range
        if op != Op::Const && inf.min == inf.max { let v = inf.min; return self.k(v, w) }
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        self.info.push(inf);
        self.memo.push(0);
        self.memo_ep.push(0);
        self.map.insert(n, id);
        id
    }

    fn infer(&mut self, n: &Node) -> Info {
        let w = n.w as u32;
        let m = mask(w);
        let (mut min, mut max, mut kz) = (0u128, m, !m);
        let mut vs = 0;
        let ia = |s: &Ctx, x: u32| s.info[x as usize];
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; return Info { min: v, max: v, kz: !v, vs: 0 } }
            Op::Var => { vs = self.vs_intern(vec![n.a]); }
            Op::Not | Op::ZExt | Op::SExt | Op::Extract => vs = ia(self, n.a).vs,
            Op::Ite => { let (x, y, z) = (ia(self, n.a).vs, ia(self, n.b).vs, ia(self, n.c).vs); let t = self.vs_union(x, y); vs = self.vs_union(t, z); }
            _ => { let (x, y) = (ia(self, n.a).vs, ia(self, n.b).vs); vs = self.vs_union(x, y); }
        }
        match n.op {
            Op::Add => {
                let (x, y) = (ia(self, n.a), ia(self, n.b));
                if w < 127 && x.max + y.max <= m { min = x.min + y.min; max = x.max + y.max; }
                let tz = (!(x.kz)).trailing_zeros().min((!(y.kz)).trailing_zeros());
                if tz > 0 { kz |= mask(tz) }
            }
            Op::Sub => { let (x, y) = (ia(self, n.a), ia(self, n.b)); if x.min >= y.max { min = x.min - y.max; max = x.max - y.min; } }
            Op::Mul => {
                let (x, y) = (ia(self, n.a), ia(self, n.b));
                if w <= 64 && x.max.checked_mul(y.max).map_or(false, |p| p <= m) { min = x.min * y.min; max = x.max * y.max; }
                let tz = (!(x.kz)).trailing_zeros().min(w) + (!(y.kz)).trailing_zeros().min(w);
                if tz > 0 { kz |= mask(tz.min(w)) }
            }
            Op::UDiv => { let (x, y) = (ia(self, n.a), ia(self, n.b)); if y.min > 0 { min = x.min / y.max; max = x.max / y.min; } }
            Op::URem => { let (x, y) = (ia(self, n.a), ia(self, n.b)); if y.min > 0 { max = x.max.min(y.max - 1); } }
            Op::And => { let (x, y) = (ia(self, n.a), ia(self, n.b)); max = x.max.min(y.max); kz = x.kz | y.kz; }
            Op::Or => { let (x, y) = (ia(self, n.a), ia(self, n.b)); kz = x.kz & y.kz; min = x.min.max(y.min); }
            Op::Xor => { let (x, y) = (ia(self, n.a), ia(self, n.b)); kz = x.kz & y.kz; }
            Op::Shl => {}
            Op::LShr => { let x = ia(self, n.a); max = x.max; }
            Op::Concat => { let (x, y) = (ia(self, n.a), ia(self, n.b)); let lw = self.w(n.b); min = (x.min << lw) | y.min; max = (x.max << lw) | y.max; kz = (x.kz << lw) | (y.kz & mask(lw)); }
            Op::Extract => {
                let x = ia(self, n.a); let lo = n.b;
                kz = (x.kz >> lo) | !m;
                if x.max >> lo <= m { min = x.min >> lo; max = x.max >> lo; }
            }
            Op::ZExt => { let x = ia(self, n.a); min = x.min; max = x.max; kz = x.kz; }
            Op::SExt => { let x = ia(self, n.a); let ow = self.w(n.a); if x.max < (1u128 << (ow - 1)) { min = x.min; max = x.max; kz = x.kz; } }
            Op::Ite => { let (x, y) = (ia(self, n.b), ia(self, n.c)); min = x.min.min(y.min); max = x.max.max(y.max); kz = x.kz & y.kz; }
            _ => {}
        }
        kz |= !m;
        let lim = !kz; // possible one bits
        if lim < max { max = lim }
        if max < m { let hb = 128 - max.leading_zeros(); kz |= !mask(hb); }
        if min > max { min = max }
        Info { min, max, kz, vs }
    }

    pub fn k(&mut self, v: u128, w: u32) -> Id {
        let v = v & mask(w);
        let ci = match self.cmap.get(&v) { Some(&c) => c, None => { let c = self.consts.len() as u32; self.consts.push(v); self.cmap.insert(v, c); c } };
        self.mk(Op::Const, w, ci, 0, 0)
    }
    pub fn var(&mut self, idx: u32, w: u32) -> Id { self.mk(Op::Var, w, idx, 0, 0) }
    pub fn t(&mut self) -> Id { self.k(1, 1) }
    pub fn f(&mut self) -> Id { self.k(0, 1) }

    pub fn add(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        if self.cval(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let Some(y) = self.cval(b) {
            if y == 0 { return a }
            if let Some(x) = self.cval(a) { return self.k(x.wrapping_add(y), w) }
            let n = self.n(a);
            if n.op == Op::Add { if let Some(c1) = self.cval(n.b) { let c = self.k(c1.wrapping_add(y), w); return self.add(n.a, c) } }
            if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() { let t = self.add(n.b, b); let e = self.add(n.c, b); return self.ite(n.a, t, e) }
            // zext(x)+c with no overflow in narrower width stays as is
        } else {
            // pull constants outward
            let na = self.n(a);
            if na.op == Op::Add && self.cval(na.b).is_some() { let t = self.add(na.a, b); return self.add(t, na.b) }
            let nb = self.n(b);
            if nb.op == Op::Add && self.cval(nb.b).is_some() { let t = self.add(a, nb.a); return self.add(t, nb.b) }
            if na.op == Op::Sub && na.b == b { return na.a }
            if nb.op == Op::Sub && nb.b == a { return nb.a }
        }
        // disjoint bits -> or
        let (ia, ib) = (self.info[a as usize].kz, self.info[b as usize].kz);
        if (ia | ib) == !0 && w > 1 && self.cval(b).is_none() { return self.or(a, b) }
        if w == 1 { return self.xor(a, b) }
        if self.cval(b).is_none() && a > b { std::mem::swap(&mut a, &mut b) }
        self.mk(Op::Add, w, a, b, 0)
    }
    pub fn neg(&mut self, a: Id) -> Id { let w = self.w(a); let z = self.k(0, w); self.sub(z, a) }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b { return self.k(0, w) }
        if let Some(y) = self.cval(b) { let c = self.k((!y).wrapping_add(1), w); return self.add(a, c) }
        if w == 1 { return self.xor(a, b) }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Add {
            if na.a == b { return na.b }
            if na.b == b { return na.a }
            if self.cval(na.b).is_some() { let t = self.sub(na.a, b); return self.add(t, na.b) }
        }
        if nb.op == Op::Add && self.cval(nb.b).is_some() { let t = self.sub(a, nb.a); let c = self.cval(nb.b).unwrap(); let c = self.k((!c).wrapping_add(1), w); return self.add(t, c) }
        self.mk(Op::Sub, w, a, b, 0)
    }
    pub fn mul(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        if self.cval(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) { return self.k(x.wrapping_mul(y), w) }
            if y == 0 { return b }
            if y == 1 { return a }
            if y.is_power_of_two() { let s = self.k(y.trailing_zeros() as u128, w); return self.shl(a, s) }
        } else if a > b { std::mem::swap(&mut a, &mut b) }
        self.mk(Op::Mul, w, a, b, 0)
    }
    pub fn udiv(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y != 0 {
                if let Some(x) = self.cval(a) { return self.k(x / y, w) }
                if y == 1 { return a }
                if y.is_power_of_two() { let s = self.k(y.trailing_zeros() as u128, w); return self.lshr(a, s) }
            }
        }
        self.mk(Op::UDiv, w, a, b, 0)
    }
    pub fn urem(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y != 0 {
                if let Some(x) = self.cval(a) { return self.k(x % y, w) }
                if y.is_power_of_two() { let m = self.k(y - 1, w); return self.and(a, m) }
                if self.info[a as usize].max < y { return a }
            }
        }
        self.mk(Op::URem, w, a, b, 0)
    }
    pub fn sdiv(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { if y != 0 { return self.k(sext128(x, w).wrapping_div(sext128(y, w)) as u128, w) } }
        let h = 1u128 << (w - 1);
        if self.info[a as usize].max < h && self.info[b as usize].max < h { return self.udiv(a, b) }
        self.mk(Op::SDiv, w, a, b, 0)
    }
    pub fn srem(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { if y != 0 { return self.k(sext128(x, w).wrapping_rem(sext128(y, w)) as u128, w) } }
        let h = 1u128 << (w - 1);
        if self.info[a as usize].max < h && self.info[b as usize].max < h { return self.urem(a, b) }
        self.mk(Op::SRem, w, a, b, 0)
    }

    /// list of (width, Some(id)|None for zero) from high to low
    fn segs(&self, a: Id, out: &mut Vec<(u32, Option<Id>)>) {
        let n = self.n(a);
        match n.op {
            Op::Concat => { self.segs(n.a, out); self.segs(n.b, out) }
            Op::ZExt => { let iw = self.w(n.a); out.push((n.w as u32 - iw, None)); self.segs(n.a, out) }
            Op::Const if self.consts[n.a as usize] == 0 => out.push((n.w as u32, None)),
            _ => out.push((n.w as u32, Some(a))),
        }
    }
    fn from_segs(&mut self, segs: &[(u32, Option<Id>)]) -> Id {
        let mut r: Option<Id> = None;
        for (w, s) in segs {
            let x = match s { Some(i) => *i, None => self.k(0, *w) };
            r = Some(match r { None => x, Some(h) => self.concat(h, x) });
        }
        r.unwrap()
    }
    fn merge_segs(&mut self, a: Id, b: Id) -> Option<Id> {
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        if sa.len() == 1 && sb.len() == 1 { return None }
        let mut out = vec![];
        let (mut i, mut j) = (0, 0);
        let (mut ca, mut cb) = (sa[0], sb[0]);
        loop {
            let w = ca.0.min(cb.0);
            let pa = match ca.1 { None => None, Some(x) => Some(if ca.0 == w { x } else { self.extract(x, ca.0 - w, w) }) };
            let pb = match cb.1 { None => None, Some(x) => Some(if cb.0 == w { x } else { self.extract(x, cb.0 - w, w) }) };
            let pa = pa.filter(|x| self.cval(*x) != Some(0));
            let pb = pb.filter(|x| self.cval(*x) != Some(0));
            let s = match (pa, pb) { (None, y) => y, (x, None) => x, _ => return None };
            out.push((w, s));
            ca = if ca.0 == w { i += 1; if i < sa.len() { sa[i] } else { (0, None) } } else { let x = match ca.1 { None => None, Some(x) => Some(self.extract(x, 0, ca.0 - w)) }; (ca.0 - w, x) };
            cb = if cb.0 == w { j += 1; if j < sb.len() { sb[j] } else { (0, None) } } else { let x = match cb.1 { None => None, Some(x) => Some(self.extract(x, 0, cb.0 - w)) }; (cb.0 - w, x) };
            if ca.0 == 0 || cb.0 == 0 { break }
        }
        Some(self.from_segs(&out))
    }

    pub fn and(&mut self, mut a: Id, mut b: Id) -> Id {
        if a == b { return a }
        let w = self.w(a);
        if self.cval(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let Some(y) = self.cval(b) {
            if y == 0 { return b }
            if y == mask(w) { return a }
            if let Some(x) = self.cval(a) { return self.k(x & y, w) }
            // mask irrelevant bits
            let kz = self.info[a as usize].kz;
            if (!kz) & !y == 0 { return a }
            // contiguous mask -> concat(0, extract, 0)
            let lo = y.trailing_zeros();
            let sh = y >> lo;
            if (sh + 1).is_power_of_two() {
                let len = sh.trailing_ones();
                let e = self.extract(a, lo, len);
                let e = if lo > 0 { let z = self.k(0, lo); self.concat(e, z) } else { e };
                return self.zext(e, w);
            }
            let n = self.n(a);
            if n.op == Op::And { if let Some(c) = self.cval(n.b) { let c = self.k(c & y, w); return self.and(n.a, c) } }
            if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() { let t = self.and(n.b, b); let e = self.and(n.c, b); return self.ite(n.a, t, e) }
        } else {
            if w == 1 {
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::Not && na.a == b { return self.f() }
                if nb.op == Op::Not && nb.a == a { return self.f() }
                if na.op == Op::And && (na.a == b || na.b == b) { return a }
                if nb.op == Op::And && (nb.a == a || nb.b == a) { return b }
                // (x == c1) & (x == c2)
                if na.op == Op::Eq && nb.op == Op::Eq && na.a == nb.a && self.cval(na.b).is_some() && self.cval(nb.b).is_some() { return self.f() }
            }
            let (ka, kb) = (self.info[a as usize].kz, self.info[b as usize].kz);
            if (ka | kb) == !0 { return self.k(0, w) }
            // push through equal-boundary zext
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let t = self.and(na.a, nb.a); return self.zext(t, w) }
            if na.op == Op::ZExt { let iw = self.w(na.a); let e = self.extract(b, 0, iw); let t = self.and(na.a, e); return self.zext(t, w) }
            if nb.op == Op::ZExt { let iw = self.w(nb.a); let e = self.extract(a, 0, iw); let t = self.and(nb.a, e); return self.zext(t, w) }
            if a > b { std::mem::swap(&mut a, &mut b) }
        }
        self.mk(Op::And, w, a, b, 0)
    }
    pub fn or(&mut self, mut a: Id, mut b: Id) -> Id {
        if a == b { return a }
        let w = self.w(a);
        if self.cval(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if w == 1 {
            if let Some(y) = self.cval(b) { return if y == 1 { b } else { a } }
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::Not && na.a == b { return self.t() }
            if nb.op == Op::Not && nb.a == a { return self.t() }
            if na.op == Op::Or && (na.a == b || na.b == b) { return a }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b }
            if a > b { std::mem::swap(&mut a, &mut b) }
            return self.mk(Op::Or, 1, a, b, 0);
        }
        if let Some(y) = self.cval(b) {
            if y == 0 { return a }
            if y == mask(w) { return b }
            if let Some(x) = self.cval(a) { return self.k(x | y, w) }
            let n = self.n(a);
            if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() { let t = self.or(n.b, b); let e = self.or(n.c, b); return self.ite(n.a, t, e) }
            // constant split: known segments
            // y as runs: build concat of runs (ones or pass-through)
            let mut out: Vec<(u32, Option<Id>)> = vec![];
            let mut pos = w as i32 - 1;
            let mut runs = 0;
            while pos >= 0 && runs <= 6 {
                let bit = (y >> pos) & 1;
                let mut len = 1;
                while pos - len >= 0 && (y >> (pos - len)) & 1 == bit { len += 1 }
                let lo = pos - len + 1;
                if bit == 1 { let k = self.k(mask(len as u32), len as u32); out.push((len as u32, Some(k))) }
                else { let e = self.extract(a, lo as u32, len as u32); out.push((len as u32, Some(e))) }
                pos = lo - 1;
                runs += 1;
            }
            if pos < 0 { return self.from_segs(&out) }
        } else {
            let (ka, kb) = (self.info[a as usize].kz, self.info[b as usize].kz);
            if (ka | kb) == !0 {
                if let Some(r) = self.merge_segs(a, b) { return r }
            }
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let iw = self.w(na.a).max(self.w(nb.a));
                let x = self.zext(na.a, iw); let y = self.zext(nb.a, iw);
                let t = self.or(x, y); return self.zext(t, w)
            }
            if a > b { std::mem::swap(&mut a, &mut b) }
        }
        self.mk(Op::Or, w, a, b, 0)
    }
    pub fn xor(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        if a == b { return self.k(0, w) }
        if self.cval(a).is_some() { std::mem::swap(&mut a, &mut b) }
        if let Some(y) = self.cval(b) {
            if y == 0 { return a }
            if y == mask(w) { return self.not(a) }
            if let Some(x) = self.cval(a) { return self.k(x ^ y, w) }
            let n = self.n(a);
            if n.op == Op::Xor { if let Some(c) = self.cval(n.b) { let c = self.k(c ^ y, w); return self.xor(n.a, c) } }
            if n.op == Op::ZExt && y <= mask(self.w(n.a)) { let iw = self.w(n.a); let c = self.k(y, iw); let t = self.xor(n.a, c); return self.zext(t, w) }
            if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() { let t = self.xor(n.b, b); let e = self.xor(n.c, b); return self.ite(n.a, t, e) }
        } else {
            if w > 1 {
                let (ka, kb) = (self.info[a as usize].kz, self.info[b as usize].kz);
                if (ka | kb) == !0 { return self.or(a, b) }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::ZExt && nb.op == Op::ZExt {
                    let iw = self.w(na.a).max(self.w(nb.a));
                    let x = self.zext(na.a, iw); let y = self.zext(nb.a, iw);
                    let t = self.xor(x, y); return self.zext(t, w)
                }
                if na.op == Op::Xor && self.cval(na.b).is_some() { let t = self.xor(na.a, b); return self.xor(t, na.b) }
                if nb.op == Op::Xor && self.cval(nb.b).is_some() { let t = self.xor(nb.a, a); return self.xor(t, nb.b) }
            } else {
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::Not { let t = self.xor(na.a, b); return self.not(t) }
                if nb.op == Op::Not { let t = self.xor(a, nb.a); return self.not(t) }
            }
            if a > b { std::mem::swap(&mut a, &mut b) }
        }
        self.mk(Op::Xor, w, a, b, 0)
    }
    pub fn not(&mut self, a: Id) -> Id {
        let w = self.w(a);
        if let Some(x) = self.cval(a) { return self.k(!x, w) }
        let n = self.n(a);
        match n.op {
            Op::Not => return n.a,
            Op::Ite if w == 1 || (self.cval(n.b).is_some() && self.cval(n.c).is_some()) => { let t = self.not(n.b); let e = self.not(n.c); return self.ite(n.a, t, e) }
            _ => {}
        }
        self.mk(Op::Not, w, a, 0, 0)
    }
    pub fn shl(&mut self, a: Id, s: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.cval(s) {
            if k == 0 { return a }
            if k >= w as u128 { return self.k(0, w) }
            if let Some(x) = self.cval(a) { return self.k(x << k, w) }
            let e = self.extract(a, 0, w - k as u32);
            let z = self.k(0, k as u32);
            return self.concat(e, z);
        }
        if self.cval(a) == Some(0) { return a }
        self.mk(Op::Shl, w, a, s, 0)
    }
    pub fn lshr(&mut self, a: Id, s: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.cval(s) {
            if k == 0 { return a }
            if k >= w as u128 { return self.k(0, w) }
            if let Some(x) = self.cval(a) { return self.k(x >> k, w) }
            let e = self.extract(a, k as u32, w - k as u32);
            return self.zext(e, w);
        }
        if self.cval(a) == Some(0) { return a }
        self.mk(Op::LShr, w, a, s, 0)
    }
    pub fn ashr(&mut self, a: Id, s: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.cval(s) {
            if k == 0 { return a }
            let k = (k as u32).min(w - 1);
            if let Some(x) = self.cval(a) { return self.k((sext128(x, w) >> k) as u128, w) }
            let e = self.extract(a, k, w - k);
            return self.sext(e, w);
        }
        if self.info[a as usize].max < (1u128 << (w - 1)) { return self.lshr(a, s) }
        self.mk(Op::AShr, w, a, s, 0)
    }
    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        assert!(w <= 128, "concat too wide");
        if let Some(x) = self.cval(a) {
            if let Some(y) = self.cval(b) { return self.k((x << wb) | y, w) }
            if x == 0 { return self.zext(b, w) }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.b == nb.b + wb { return self.rejoin(na.a, nb.b, w) }
        // right-assoc fusion: concat(concat(x, e1), e2) ; concat(e1, concat(e2, y))
        if nb.op == Op::Concat {
            let x = nb.a;
            let nx = self.n(x);
            if na.op == Op::Extract && nx.op == Op::Extract && na.a == nx.a && na.b == nx.b + nx.w as u32 { let e = self.rejoin(na.a, nx.b, wa + nx.w as u32); return self.concat(e, nb.b) }
            if let (Some(ca), Some(cx_)) = (self.cval(a), self.cval(x)) { let k = self.k((ca << nx.w) | cx_, wa + nx.w as u32); return self.concat(k, nb.b) }
        }
        if na.op == Op::Concat { let t = self.concat(na.b, b); return self.concat(na.a, t) }
        if na.op == Op::ZExt { let iw = self.w(na.a); let t = self.concat(na.a, b); debug_assert!(iw > 0); return self.zext(t, w) }
        // same condition ites
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let t = self.concat(na.b, nb.b); let e = self.concat(na.c, nb.c); return self.ite(na.a, t, e)
        }
        if nb.op == Op::ZExt {
            // a ++ 0 ++ x : make explicit zero segment
            let iw = self.w(nb.a);
            let z = self.k(0, wb - iw);
            let t = self.mk(Op::Concat, wb, z, nb.a, 0);
            // keep canonical: concat(a, concat(0, x))
            return self.mk(Op::Concat, w, a, t, 0);
        }
        self.mk(Op::Concat, w, a, b, 0)
    }
    /// One byte of a stored scalar. Sums stay whole, so that loading them again gives them back.
    pub fn byte_of(&mut self, a: Id, i: u32) -> Id {
        let n = self.n(a);
        if n.w > 8 && matches!(n.op, Op::Add | Op::Sub | Op::Mul) && (self.info[a as usize].kz >> (8 * i)) & 0xff != 0xff { return self.mk(Op::Extract, 8, a, 8 * i, 0) }
        if n.w > 8 && n.op == Op::Extract && n.b == 0 && i == 0 && matches!(self.n(n.a).op, Op::Add | Op::Sub | Op::Mul) { return self.mk(Op::Extract, 8, n.a, 0, 0) }
        self.extract(a, 8 * i, 8)
    }
    fn rejoin(&mut self, a: Id, lo: u32, len: u32) -> Id {
        if lo == 0 && len < self.w(a) && matches!(self.n(a).op, Op::Add | Op::Sub | Op::Mul) { return self.mk(Op::Extract, len, a, 0, 0) }
        self.extract(a, lo, len)
    }
    pub fn extract(&mut self, a: Id, lo: u32, len: u32) -> Id {
        let w = self.w(a);
        debug_assert!(lo + len <= w);
        if lo == 0 && len == w { return a }
        if let Some(x) = self.cval(a) { return self.k(x >> lo, len) }
        let inf = self.info[a as usize];
        if (inf.kz >> lo) & mask(len) == mask(len) { return self.k(0, len) }
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, len),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { return self.extract(n.a, lo - lw, len) }
                if lo + len <= lw { return self.extract(n.b, lo, len) }
                let h = self.extract(n.a, 0, lo + len - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.k(0, len) }
                if lo + len <= iw { return self.extract(n.a, lo, len) }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, len);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + len <= iw { return self.extract(n.a, lo, len) }
                if lo < iw { let e = self.extract(n.a, lo, iw - lo); return self.sext(e, len) }
                let e = self.extract(n.a, iw - 1, 1);
                return self.sext(e, len);
            }
            Op::And => { let x = self.extract(n.a, lo, len); let y = self.extract(n.b, lo, len); return self.and(x, y) }
            Op::Or => { let x = self.extract(n.a, lo, len); let y = self.extract(n.b, lo, len); return self.or(x, y) }
            Op::Xor => { let x = self.extract(n.a, lo, len); let y = self.extract(n.b, lo, len); return self.xor(x, y) }
            Op::Not => { let x = self.extract(n.a, lo, len); return self.not(x) }
            Op::Ite => { let x = self.extract(n.b, lo, len); let y = self.extract(n.c, lo, len); return self.ite(n.a, x, y) }
            Op::Add if lo == 0 => { let x = self.extract(n.a, 0, len); let y = self.extract(n.b, 0, len); return self.add(x, y) }
            Op::Sub if lo == 0 => { let x = self.extract(n.a, 0, len); let y = self.extract(n.b, 0, len); return self.sub(x, y) }
            Op::Mul if lo == 0 => { let x = self.extract(n.a, 0, len); let y = self.extract(n.b, 0, len); return self.mul(x, y) }
            _ => {}
        }
        self.mk(Op::Extract, len, a, lo, 0)
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let iw = self.w(a);
        let na = self.n(a);
        if na.op == Op::Extract && na.b == 0 && self.w(na.a) == w && self.info[na.a as usize].kz >> iw == mask(w) >> iw && w <= 64 { return na.a }
        if iw == w { return a }
        if let Some(x) = self.cval(a) { return self.k(x, w) }
        let n = self.n(a);
        if n.op == Op::ZExt { return self.zext(n.a, w) }
        if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() { let t = self.zext(n.b, w); let e = self.zext(n.c, w); return self.ite(n.a, t, e) }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let iw = self.w(a);
        if iw == w { return a }
        if let Some(x) = self.cval(a) { return self.k(sext128(x, iw) as u128, w) }
        if self.info[a as usize].max < (1u128 << (iw - 1)) { return self.zext(a, w) }
        let n = self.n(a);
        if n.op == Op::SExt { return self.sext(n.a, w) }
        if iw == 1 { let t = self.k(!0, w); let e = self.k(0, w); return self.ite(a, t, e) }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(x) = self.cval(c) { return if x == 1 { a } else { b } }
        if a == b { return a }
        let w = self.w(a);
        let nc = self.n(c);
        if nc.op == Op::Not { return self.ite(nc.a, b, a) }
        let (ka, kb) = (self.cval(a), self.cval(b));
        if w == 1 {
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => { let n = self.not(c); return self.and(n, b) }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => { let n = self.not(c); return self.or(n, a) }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b) }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c) }
        // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a { let d = self.or(c, nb.a); return self.ite(d, a, nb.c) }
        if nb.op == Op::Ite && nb.c == a { let nd = self.not(nb.a); let d = self.or(c, nd); return self.ite(d, a, nb.b) }
        if na.op == Op::Ite && na.c == b { let d = self.and(c, na.a); return self.ite(d, na.b, b) }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let t = self.ite(c, na.a, nb.a); return self.zext(t, w) }
        // x==k ? k : x  -> x
        if nc.op == Op::Eq && nc.a == b && nc.b == a { return b }
        self.mk(Op::Ite, w, c, a, b)
    }
    pub fn eq(&mut self, mut a: Id, mut b: Id) -> Id {
        if a == b { return self.t() }
        let w = self.w(a);
        if self.cval(a).is_some() { std::mem::swap(&mut a, &mut b) }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.max < ib.min || ib.max < ia.min { return self.f() }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) { return if x == y { self.t() } else { self.f() } }
            if w == 1 { return if y == 1 { a } else { self.not(a) } }
            if y & ia.kz & mask(w) != 0 { return self.f() }
            let n = self.n(a);
            match n.op {
                Op::Concat => {
                    let lw = self.w(n.b);
                    let kh = self.k(y >> lw, w - lw); let kl = self.k(y, lw);
                    let h = self.eq(n.a, kh); if self.cval(h) == Some(0) { return h }
                    let l = self.eq(n.b, kl);
                    return self.and(h, l);
                }
                Op::ZExt => { let iw = self.w(n.a); let k = self.k(y, iw); return self.eq(n.a, k) }
                Op::SExt => {
                    let iw = self.w(n.a);
                    if sext128(y & mask(iw), iw) as u128 & mask(w) != y { return self.f() }
                    let k = self.k(y, iw); return self.eq(n.a, k)
                }
                Op::Add => if let Some(c) = self.cval(n.b) { let k = self.k(y.wrapping_sub(c), w); return self.eq(n.a, k) },
                Op::Xor => if let Some(c) = self.cval(n.b) { let k = self.k(y ^ c, w); return self.eq(n.a, k) },
                Op::Not => { let k = self.k(!y, w); return self.eq(n.a, k) }
                Op::Sub if y == 0 => return self.eq(n.a, n.b),
                Op::Sub => if let Some(c) = self.cval(n.a) { let k = self.k(c.wrapping_sub(y), w); return self.eq(n.b, k) },
                Op::Ite => {
                    let (kb, kc) = (self.cval(n.b), self.cval(n.c));
                    if kb.is_some() || kc.is_some() {
                        let t = self.eq(n.b, b); let e = self.eq(n.c, b);
                        if self.cval(t).is_some() || self.cval(e).is_some() { return self.ite(n.a, t, e) }
                    } else {
                        // nested ite of constants
                        let t = self.eq(n.b, b); let e = self.eq(n.c, b);
                        if self.cval(t).is_some() || self.cval(e).is_some() { return self.ite(n.a, t, e) }
                    }
                }
                Op::Or if y == 0 => { let z = self.k(0, w); let t = self.eq(n.a, z); let e = self.eq(n.b, z); return self.and(t, e) }
                Op::Xor if y == 0 => return self.eq(n.a, n.b),
                _ => {}
            }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            if w == 1 { let x = self.xor(a, b); return self.not(x) }
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let iw = self.w(na.a).max(self.w(nb.a));
                let x = self.zext(na.a, iw); let y = self.zext(nb.a, iw);
                if iw < w { return self.eq(x, y) }
            }
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a) }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a); if self.cval(h) == Some(0) { return h }
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            }
            if na.op == Op::Concat && nb.op == Op::ZExt {
                let lw = self.w(na.b);
                let (x, y) = (self.extract(b, lw, w - lw), self.extract(b, 0, lw));
                let h = self.eq(na.a, x); if self.cval(h) == Some(0) { return h }
                let l = self.eq(na.b, y);
                return self.and(h, l);
            }
            if nb.op == Op::Concat && na.op == Op::ZExt { return self.eq(b, a) }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.eq(na.a, nb.a) }
            if na.op == Op::Add && na.a == b { let z = self.k(0, w); return self.eq(na.b, z) }
            if na.op == Op::Add && na.b == b { let z = self.k(0, w); return self.eq(na.a, z) }
            if nb.op == Op::Add && nb.a == a { let z = self.k(0, w); return self.eq(nb.b, z) }
            if nb.op == Op::Add && nb.b == a { let z = self.k(0, w); return self.eq(nb.a, z) }
            if a > b { std::mem::swap(&mut a, &mut b) }
        }
        self.mk(Op::Eq, 1, a, b, 0)
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.f() }
        let w = self.w(a);
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.max < ib.min { return self.t() }
        if ia.min >= ib.max { return self.f() }
        if w == 1 { let na = self.not(a); return self.and(na, b) }
        let (na, nb) = (self.n(a), self.n(b));
        if let Some(y) = self.cval(b) {
            if y == 1 { let z = self.k(0, w); return self.eq(a, z) }
            if na.op == Op::ZExt { let iw = self.w(na.a); let k = self.k(y, iw); return self.ult(na.a, k) } // y <= max of a here
            if y == ia.max { let e = self.eq(a, b); return self.not(e) }
            if na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() { let t = self.ult(na.b, b); let e = self.ult(na.c, b); return self.ite(na.a, t, e) }
            // low bits zero: concat(x, 0_k) < c  -> x < ceil(c / 2^k)
            if na.op == Op::Concat && self.cval(na.b) == Some(0) {
                let k = self.w(na.b);
                let c = (y + mask(k)) >> k;
                if c <= mask(w - k) { let kk = self.k(c, w - k); return self.ult(na.a, kk) }
                return self.t();
            }
            if na.op == Op::Concat {
                // compare high part when decisive: (h:l) < y
                let lw = self.w(na.b);
                if y & mask(lw) == 0 { let kk = self.k(y >> lw, w - lw); return self.ult(na.a, kk) }
            }
        } else if let Some(x) = self.cval(a) {
            if x == 0 { let e = self.eq(b, a); return self.not(e) }
            if nb.op == Op::ZExt { let iw = self.w(nb.a); let k = self.k(x, iw); return self.ult(k, nb.a) }
            if x == ib.min { let e = self.eq(b, a); return self.not(e) }
            if nb.op == Op::Ite && self.cval(nb.b).is_some() && self.cval(nb.c).is_some() { let t = self.ult(a, nb.b); let e = self.ult(a, nb.c); return self.ite(nb.a, t, e) }
            if nb.op == Op::Concat && self.cval(nb.b) == Some(0) {
                let k = self.w(nb.b);
                let kk = self.k(x >> k, w - k);
                return self.ult(kk, nb.a);
            }
        } else {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let iw = self.w(na.a).max(self.w(nb.a));
                if iw < w { let x = self.zext(na.a, iw); let y = self.zext(nb.a, iw); return self.ult(x, y) }
            }
        }
        self.mk(Op::Ult, 1, a, b, 0)
    }
    pub fn ule(&mut self, a: Id, b: Id) -> Id { let t = self.ult(b, a); self.not(t) }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.f() }
        let w = self.w(a);
        let h = 1u128 << (w - 1);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return if sext128(x, w) < sext128(y, w) { self.t() } else { self.f() } }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        let (pa, pb) = (ia.max < h, ib.max < h);
        let (ma, mb) = (ia.min >= h, ib.min >= h);
        if (pa || ma) && (pb || mb) {
            if pa && mb { return self.f() }
            if ma && pb { return self.t() }
            return self.ult(a, b);
        }
        if self.cval(b) == Some(0) { return self.extract(a, w - 1, 1) }
        if self.cval(a) == Some(mask(w)) { let s = self.extract(b, w - 1, 1); return self.not(s) }
        self.mk(Op::Slt, 1, a, b, 0)
    }
    pub fn sle(&mut self, a: Id, b: Id) -> Id { let t = self.slt(b, a); self.not(t) }

    /// Rebuild `e` with variables replaced by `f(idx,w)`.
    pub fn subst(&mut self, e: Id, f: &dyn Fn(u32) -> Option<u64>, memo: &mut FxMap<Id, Id>) -> Id {
        if self.info[e as usize].vs == 0 { return e }
        if let Some(&r) = memo.get(&e) { return r }
        let n = self.n(e);
        let w = n.w as u32;
        if !self.vars(e).iter().any(|v| f(*v).is_some()) { return e }
        let r = match n.op {
            Op::Const => e,
            Op::Var => match f(n.a) { Some(v) => self.k(v as u128, w), None => e },
            Op::Extract => { let a = self.subst(n.a, f, memo); self.extract(a, n.b, w) }
            Op::ZExt => { let a = self.subst(n.a, f, memo); self.zext(a, w) }
            Op::SExt => { let a = self.subst(n.a, f, memo); self.sext(a, w) }
            Op::Not => { let a = self.subst(n.a, f, memo); self.not(a) }
            Op::Ite => { let a = self.subst(n.a, f, memo); match self.cval(a) { Some(1) => self.subst(n.b, f, memo), Some(_) => self.subst(n.c, f, memo), None => { let b = self.subst(n.b, f, memo); let c = self.subst(n.c, f, memo); self.ite(a, b, c) } } }
            op => { let a = self.subst(n.a, f, memo); let b = self.subst(n.b, f, memo); self.bin(op, a, b) }
        };
        memo.insert(e, r);
        r
    }
    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        match op {
            Op::Add => self.add(a, b), Op::Sub => self.sub(a, b), Op::Mul => self.mul(a, b), Op::UDiv => self.udiv(a, b), Op::SDiv => self.sdiv(a, b),
            Op::URem => self.urem(a, b), Op::SRem => self.srem(a, b), Op::And => self.and(a, b), Op::Or => self.or(a, b), Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b), Op::LShr => self.lshr(a, b), Op::AShr => self.ashr(a, b), Op::Concat => self.concat(a, b),
            Op::Eq => self.eq(a, b), Op::Ult => self.ult(a, b), Op::Slt => self.slt(a, b),
            _ => panic!("bin"),
        }
    }

    pub fn new_epoch(&mut self) { self.ep += 1; if self.ep == u32::MAX { self.ep = 1; for x in self.memo_ep.iter_mut() { *x = 0 } } }
    pub fn eval(&mut self, e: Id, m: &[u64]) -> u128 { self.new_epoch(); self.ev(e, m) }
    /// several evaluations under the same model share one epoch
    pub fn ev(&mut self, e: Id, m: &[u64]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return m.get(n.a as usize).copied().unwrap_or(0) as u128 & mask(n.w as u32),
            _ => {}
        }
        if self.memo_ep[e as usize] == self.ep { return self.memo[e as usize] }
        let w = n.w as u32;
        let r = match n.op {
            Op::Ite => if self.ev(n.a, m) == 1 { self.ev(n.b, m) } else { self.ev(n.c, m) },
            Op::Extract => self.ev(n.a, m) >> n.b,
            Op::ZExt => self.ev(n.a, m),
            Op::SExt => { let iw = self.w(n.a); sext128(self.ev(n.a, m), iw) as u128 }
            Op::Not => !self.ev(n.a, m),
            op => {
                let x = self.ev(n.a, m);
                let y = self.ev(n.b, m);
                let aw = self.w(n.a);
                match op {
                    Op::Add => x.wrapping_add(y), Op::Sub => x.wrapping_sub(y), Op::Mul => x.wrapping_mul(y),
                    Op::UDiv => if y == 0 { !0 } else { x / y },
                    Op::URem => if y == 0 { x } else { x % y },
                    Op::SDiv => { let (p, q) = (sext128(x, aw), sext128(y, aw)); if q == 0 { if p < 0 { 1 } else { !0 } } else { p.wrapping_div(q) as u128 } }
                    Op::SRem => { let (p, q) = (sext128(x, aw), sext128(y, aw)); if q == 0 { x } else { p.wrapping_rem(q) as u128 } }
                    Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                    Op::Shl => if y >= w as u128 { 0 } else { x << y },
                    Op::LShr => if y >= w as u128 { 0 } else { x >> y },
                    Op::AShr => { let s = if y >= w as u128 { w - 1 } else { y as u32 }; (sext128(x, w) >> s) as u128 }
                    Op::Concat => { let bw = self.w(n.b); (x << bw) | y }
                    Op::Eq => (x == y) as u128,
                    Op::Ult => (x < y) as u128,
                    Op::Slt => (sext128(x, aw) < sext128(y, aw)) as u128,
                    _ => unreachable!(),
                }
            }
        } & mask(w);
        self.memo[e as usize] = r;
        self.memo_ep[e as usize] = self.ep;
        r
    }

    /// For a 1-bit expression over exactly one variable of width <= 8: its truth table.
    pub fn truth_table(&mut self, e: Id, var: u32, w: u32, scratch: &mut Vec<u64>) -> [u64; 4] {
        if let Some(t) = self.truth.get(&e) { return *t }
        let mut t = [0u64; 4];
        if scratch.len() <= var as usize { scratch.resize(var as usize + 1, 0) }
        for v in 0..(1u64 << w) {
            scratch[var as usize] = v;
            self.new_epoch();
            if self.ev(e, scratch) == 1 { t[(v >> 6) as usize] |= 1 << (v & 63) }
        }
        self.truth.insert(e, t);
        t
    }

    pub fn show(&self, e: Id, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}", self.consts[n.a as usize]),
            Op::Var => format!("v{}:{}", n.a, n.w),
            _ if depth == 0 => "..".into(),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.b, n.w),
            Op::ZExt => format!("z{}({})", n.w, self.show(n.a, depth - 1)),
            Op::SExt => format!("s{}({})", n.w, self.show(n.a, depth - 1)),
            Op::Not => format!("~({})", self.show(n.a, depth - 1)),
            Op::Ite => format!("ite({}, {}, {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            op => format!("{:?}({}, {})", op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
