//! Parser for the textual LLVM IR that rustc emits (post-LTO whole program).
use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u64, TyId),
    Other,
}

#[derive(Clone, Copy, Debug)]
pub struct Lay {
    pub size: u64,
    pub align: u64,
    pub bits: u32, // for scalars and vectors, 0 for aggregates
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Bytes(Vec<u8>),
    Glob(String, i64),
    Agg(Vec<(TyId, Const)>),
    Splat(Box<(TyId, Const)>),
    /// a - b or a + b over constants (relative tables)
    Arith(bool, Box<(Const, Const)>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(TyId, Const),
    C(u64),
    V(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, Bit }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32, // block label id while parsing, code index afterwards
    pub moves: Vec<(u32, Opd)>,
    pub from: u32,
}

#[derive(Clone, Debug)]
pub enum Callee { Name(String), Reg(u32), Asm(&'static str) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FpOp { Neg, Add, Sub, Mul, Div, Rem, Cmp(&'static str), FromU, FromS, ToU, ToS, Conv }

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, TyId, Opd, Opd),
    Icmp(Pred, TyId, Opd, Opd),
    Select(TyId, TyId, Opd, Opd, Opd),
    Cast(CastOp, TyId, Opd, TyId),
    Gep(Opd, i64, Vec<(Opd, TyId, i64)>),
    Load(TyId, Opd),
    Store(TyId, Opd, Opd),
    Alloca(u64, u64),
    Call(TyId, Callee, Vec<(TyId, Opd)>),
    Br(Edge),
    CondBr(Opd, Edge, Edge),
    Switch(TyId, Opd, Vec<(u128, Edge)>, Edge),
    Ret(TyId, Option<Opd>),
    Unreachable,
    Unsupported(String),
    /// Floating point: executed on concrete operands only.
    Fp(FpOp, TyId, Vec<Opd>, TyId),
    ExtractValue(TyId, Opd, Vec<u32>),
    InsertValue(TyId, Opd, TyId, Opd, Vec<u32>),
    ExtractElem(TyId, Opd, Opd),
    InsertElem(TyId, Opd, Opd, Opd),
    Shuffle(TyId, Opd, Opd, Vec<i64>, TyId),
    Rmw(RmwOp, TyId, Opd, Opd),
    CmpXchg(TyId, Opd, Opd, Opd),
    Fence,
    Copy(Opd),
    Trap(&'static str),
}

#[derive(Clone, Debug)]
pub struct Instr {
    pub i: I,
    pub dst: u32,
    pub dbg: u32,
}
pub const NOREG: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub demangled: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub code: Vec<Instr>,
    pub defined: bool,
    pub sp: u32,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<Const>,
    pub constant: bool,
    pub tls: bool,
    pub align: u64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct DbgLoc {
    pub line: u32,
    pub scope: u32,
    pub inlined: u32,
}

#[derive(Default)]
pub struct Dbg {
    pub locs: HashMap<u32, DbgLoc>,
    pub scopes: HashMap<u32, (u32, u32)>, // lexical block -> (parent scope, file)
    pub sps: HashMap<u32, (String, String, u32, u32)>, // name, linkage, file, scope
    pub files: HashMap<u32, String>,
    pub ns: HashMap<u32, (String, u32)>,
}

pub struct Module {
    pub tys: Vec<Ty>,
    pub lay: Vec<Lay>,
    tymap: HashMap<Ty, TyId>,
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub gmap: HashMap<String, u32>,
    pub aliases: Vec<(String, String)>,
    pub dbg: Dbg,
}

struct P<'a> {
    s: &'a [u8],
    p: usize,
}

impl<'a> P<'a> {
    fn new(s: &'a str) -> Self { P { s: s.as_bytes(), p: 0 } }
    fn ws(&mut self) { while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') { self.p += 1 } }
    fn peek(&mut self) -> u8 { self.ws(); if self.p < self.s.len() { self.s[self.p] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.p += 1; true } else { false } }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) { panic!("parse: expected '{}' at {} in: {}", c as char, self.p, String::from_utf8_lossy(self.s)) }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' { self.p += 1 } else { break }
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.p]) }
    }
    fn peek_word(&mut self) -> &'a str { let q = self.p; let w = self.word(); self.p = q; w }
    fn try_word(&mut self, w: &str) -> bool { let q = self.p; if self.word() == w { true } else { self.p = q; false } }
    /// identifier after % or @, possibly quoted
    fn ident(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let st = self.p + 1;
            let mut q = st;
            while self.s[q] != b'"' { q += 1 }
            self.p = q + 1;
            String::from_utf8_lossy(&self.s[st..q]).into_owned()
        } else { self.word().to_string() }
    }
    fn skip_balanced(&mut self) {
        // at '(' '{' '[' '<'
        let mut d = 0;
        while self.p < self.s.len() {
            match self.s[self.p] {
                b'"' => { self.p += 1; while self.s[self.p] != b'"' { self.p += 1 } }
                b'(' | b'{' | b'[' | b'<' => d += 1,
                b')' | b'}' | b']' | b'>' => { d -= 1; if d == 0 { self.p += 1; return } }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let neg = if self.s[self.p] == b'-' { self.p += 1; true } else { false };
        let mut v: i128 = 0;
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() { v = v.wrapping_mul(10).wrapping_add((self.s[self.p] - b'0') as i128); self.p += 1 }
        if neg { v.wrapping_neg() } else { v }
    }
    fn rest(&self) -> &'a str { unsafe { std::str::from_utf8_unchecked(&self.s[self.p..]) } }
    fn end(&mut self) -> bool { self.ws(); self.p >= self.s.len() }
}

fn is_type_word(w: &str) -> bool {
    w == "ptr" || w == "void" || w == "float" || w == "double" || w == "label" || w == "metadata" || w == "token" || w == "half" || w == "fp128" || w == "x86_fp80"
        || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: String) -> u32 { let l = self.regs.len() as u32; *self.regs.entry(n).or_insert(l) }
    fn label(&mut self, n: String) -> u32 { let l = self.labels.len() as u32; *self.labels.entry(n).or_insert(l) }
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) { return i }
        let l = match &t {
            Ty::Void | Ty::Other => Lay { size: 0, align: 1, bits: 0 },
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                let sz = (b + a - 1) / a * a;
                Lay { size: sz, align: a, bits: *n }
            }
            Ty::Ptr => Lay { size: 8, align: 8, bits: 64 },
            Ty::Arr(n, e) => { let el = self.lay[*e as usize]; Lay { size: n * el.size, align: el.align, bits: 0 } }
            Ty::Vec(n, e) => {
                let el = self.lay[*e as usize];
                let bits = *n as u32 * el.bits;
                let sz = ((bits as u64) + 7) / 8;
                Lay { size: sz, align: sz.next_power_of_two(), bits }
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0; let mut al = 1;
                for f in fs { let fl = self.lay[*f as usize]; let a = if *packed { 1 } else { fl.align }; off = (off + a - 1) / a * a; off += fl.size; al = al.max(a); }
                off = (off + al - 1) / al * al;
                Lay { size: off, align: al, bits: 0 }
            }
        };
        let id = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.lay.push(l);
        self.tymap.insert(t, id);
        id
    }
    pub fn field_off(&self, t: TyId, idx: u64) -> (u64, TyId) {
        match &self.tys[t as usize] {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (i, f) in fs.iter().enumerate() {
                    let fl = self.lay[*f as usize];
                    let a = if *packed { 1 } else { fl.align };
                    off = (off + a - 1) / a * a;
                    if i as u64 == idx { return (off, *f) }
                    off += fl.size;
                }
                panic!("field idx")
            }
            Ty::Arr(_, e) => (idx * self.lay[*e as usize].size, *e),
            Ty::Vec(_, e) => (idx * self.lay[*e as usize].size, *e),
            _ => panic!("field_off"),
        }
    }

    fn p_type(&mut self, p: &mut P) -> TyId {
        match p.peek() {
            b'{' => { p.p += 1; let mut fs = vec![]; if !p.eat(b'}') { loop { fs.push(self.p_type(p)); if p.eat(b'}') { break } p.expect(b',') } } self.ty(Ty::Struct(fs, false)) }
            b'[' => { p.p += 1; let n = p.num() as u64; assert!(p.try_word("x")); let e = self.p_type(p); p.expect(b']'); self.ty(Ty::Arr(n, e)) }
            b'<' => {
                p.p += 1;
                if p.peek() == b'{' {
                    p.p += 1; let mut fs = vec![];
                    if !p.eat(b'}') { loop { fs.push(self.p_type(p)); if p.eat(b'}') { break } p.expect(b',') } }
                    p.expect(b'>');
                    self.ty(Ty::Struct(fs, true))
                } else {
                    let n = p.num() as u64; assert!(p.try_word("x")); let e = self.p_type(p); p.expect(b'>'); self.ty(Ty::Vec(n, e))
                }
            }
            _ => {
                let w = p.word();
                match w {
                    "ptr" => self.ty(Ty::Ptr),
                    "void" => self.ty(Ty::Void),
                    "float" => self.ty(Ty::Int(32)),
                    "double" => self.ty(Ty::Int(64)),
                    "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" => self.ty(Ty::Other),
                    _ if is_type_word(w) => self.ty(Ty::Int(w[1..].parse().unwrap())),
                    _ => panic!("type? '{}' in {}", w, String::from_utf8_lossy(p.s)),
                }
            }
        }
    }

    fn skip_attrs(&mut self, p: &mut P) {
        loop {
            let c = p.peek();
            if c == b'{' || c == b'[' || c == b'<' || c == b'%' || c == b'@' || c == b'!' || c == 0 || c == b',' || c == b')' { return }
            if c == b'"' { p.p += 1; while p.s[p.p] != b'"' { p.p += 1 } p.p += 1; if p.eat(b'=') { p.expect(b'"'); while p.s[p.p] != b'"' { p.p += 1 } p.p += 1 } continue }
            if c == b'#' { p.p += 1; p.num(); continue }
            let w = p.peek_word();
            if is_type_word(w) { return }
            match w {
                "noundef" | "noalias" | "nofree" | "nonnull" | "readonly" | "writeonly" | "readnone" | "zeroext" | "signext" | "returned" | "immarg" | "inreg" | "nocapture" | "nest" | "swiftself" | "allocptr" | "allocalign"
                | "fastcc" | "coldcc" | "ccc" | "tailcc" | "dead_on_unwind" | "dead_on_return" | "writable" | "dso_local" | "unnamed_addr" | "local_unnamed_addr" | "nounwind" | "noreturn" | "cold" | "samesign" | "noext"
                | "hidden" | "internal" | "private" | "weak" | "linkonce_odr" | "protected" | "preserve_mostcc" => { p.word(); }
                "align" => { p.word(); if p.eat(b'(') { p.num(); p.eat(b')'); } else { p.num(); } }
                "dereferenceable" | "dereferenceable_or_null" | "range" | "captures" | "sret" | "byval" | "initializes" | "nofpclass" | "memory" | "elementtype" | "allocsize" | "addrspace" => { p.word(); if p.peek() == b'(' { p.skip_balanced() } }
                _ => return,
            }
        }
    }

    fn p_const(&mut self, p: &mut P, ty: TyId) -> Const {
        match p.peek() {
            b'@' => { p.p += 1; Const::Glob(p.ident(), 0) }
            b'c' if p.s.get(p.p + 1) == Some(&b'"') => {
                p.p += 2;
                let mut v = vec![];
                while p.s[p.p] != b'"' {
                    if p.s[p.p] == b'\\' {
                        if p.s[p.p + 1] == b'\\' { v.push(b'\\'); p.p += 2; continue }
                        let h = std::str::from_utf8(&p.s[p.p + 1..p.p + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        p.p += 3;
                    } else { v.push(p.s[p.p]); p.p += 1 }
                }
                p.p += 1;
                Const::Bytes(v)
            }
            b'{' => { p.p += 1; let r = self.p_list(p, b'}'); Const::Agg(r) }
            b'[' => { p.p += 1; let r = self.p_list(p, b']'); Const::Agg(r) }
            b'<' => {
                p.p += 1;
                if p.peek() == b'{' { p.p += 1; let r = self.p_list(p, b'}'); p.expect(b'>'); Const::Agg(r) }
                else { let r = self.p_list(p, b'>'); Const::Agg(r) }
            }
            _ => {
                let w = p.peek_word();
                match w {
                    "true" => { p.word(); Const::Int(1) }
                    "false" => { p.word(); Const::Int(0) }
                    "null" | "none" => { p.word(); Const::Int(0) }
                    "undef" | "poison" => { p.word(); Const::Undef }
                    "zeroinitializer" => { p.word(); Const::Zero }
                    "splat" => { p.word(); p.expect(b'('); let t = self.p_type(p); let c = self.p_const(p, t); p.expect(b')'); Const::Splat(Box::new((t, c))) }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                        p.word(); p.expect(b'(');
                        let t = self.p_type(p); let c = self.p_const(p, t);
                        assert!(p.try_word("to")); self.p_type(p); p.expect(b')'); c
                    }
                    "sub" | "add" => {
                        let sub = w == "sub";
                        p.word(); while p.peek() != b'(' { p.word(); }
                        p.expect(b'(');
                        let t = self.p_type(p); let a = self.p_const(p, t);
                        p.expect(b',');
                        let t = self.p_type(p); let b = self.p_const(p, t);
                        p.expect(b')');
                        Const::Arith(sub, Box::new((a, b)))
                    }
                    "getelementptr" => {
                        p.word();
                        while p.peek() != b'(' { let w = p.word(); if w == "inrange" { p.skip_balanced() } }
                        p.expect(b'(');
                        let t = self.p_type(p); p.expect(b',');
                        let pt = self.p_type(p);
                        let base = self.p_const(p, pt);
                        let mut off = 0i64; let mut cur = t; let mut first = true;
                        while p.eat(b',') {
                            let it = self.p_type(p);
                            let k = match self.p_const(p, it) { Const::Int(v) => sx(v, self.lay[it as usize].bits), Const::Zero => 0, _ => panic!("gep const idx") };
                            if first { off += k * self.lay[cur as usize].size as i64; first = false }
                            else { let (o, nt) = self.field_off(cur, k as u64); off += o as i64; cur = nt; }
                        }
                        p.expect(b')');
                        match base { Const::Glob(n, o) => Const::Glob(n, o + off), Const::Int(v) => Const::Int((v as i64).wrapping_add(off) as u64 as u128), _ => panic!("gep base") }
                    }
                    _ => {
                        let c = p.peek();
                        let lit = p.rest(); let lit = &lit[..lit.find(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '+' || c == '-')).unwrap_or(lit.len())];
                        let named = match lit { "+inf" => Some(f64::INFINITY), "-inf" => Some(f64::NEG_INFINITY), "+qnan" => Some(f64::NAN), "-qnan" => Some(-f64::NAN), _ => None };
                        if let Some(d) = named {
                            p.p += lit.len();
                            Const::Int(if self.lay[ty as usize].bits == 32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 })
                        } else if let Some(h) = lit.strip_prefix("f0x") {
                            p.p += lit.len();
                            Const::Int(u128::from_str_radix(h, 16).unwrap())
                        } else if lit.starts_with("0x") || (lit.contains('.') && (c == b'-' || c == b'+' || c.is_ascii_digit())) {
                            let d = match lit.strip_prefix("0x") { Some(h) => f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float {}", lit))), None => lit.parse().unwrap_or_else(|_| panic!("float {}", lit)) };
                            p.p += lit.len();
                            Const::Int(if self.lay[ty as usize].bits == 32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 })
                        } else if c == b'-' || c.is_ascii_digit() {
                            let v = p.num();
                            let bits = self.lay[ty as usize].bits;
                            Const::Int(mask128(v as u128, bits))
                        } else { panic!("const? '{}' in {}", w, String::from_utf8_lossy(p.s)) }
                    }
                }
            }
        }
    }
    fn p_list(&mut self, p: &mut P, end: u8) -> Vec<(TyId, Const)> {
        let mut r = vec![];
        if p.eat(end) { return r }
        loop {
            let t = self.p_type(p);
            let c = self.p_const(p, t);
            r.push((t, c));
            if p.eat(end) { break }
            p.expect(b',');
        }
        r
    }
    fn p_val(&mut self, p: &mut P, ty: TyId, f: &mut FnCtx) -> Opd {
        if p.peek() == b'%' { p.p += 1; Opd::Reg(f.reg(p.ident())) } else { Opd::K(ty, self.p_const(p, ty)) }
    }
    fn p_tyval(&mut self, p: &mut P, f: &mut FnCtx) -> (TyId, Opd) {
        let t = self.p_type(p);
        self.skip_attrs(p);
        let v = self.p_val(p, t, f);
        (t, v)
    }
    fn p_label(&mut self, p: &mut P, f: &mut FnCtx) -> u32 {
        assert!(p.try_word("label"), "label in {}", String::from_utf8_lossy(p.s));
        p.expect(b'%');
        f.label(p.ident())
    }

    pub fn parse(src: &str) -> Module {
        let mut m = Module { tys: vec![], lay: vec![], tymap: HashMap::new(), globals: vec![], funcs: vec![], fmap: HashMap::new(), gmap: HashMap::new(), aliases: vec![], dbg: Dbg::default() };
        m.ty(Ty::Void);
        let lines: Vec<&str> = src.lines().collect();
        let mut i = 0;
        let mut last_comment = "";
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with('@') { m.p_global(l); }
            else if l.starts_with("define ") { i = m.p_func(&lines, i, last_comment); last_comment = ""; }
            else if l.starts_with("declare ") { m.p_decl(l, last_comment); last_comment = ""; }
            else if l.starts_with("; ") { if !l.starts_with("; Function Attrs") { last_comment = &l[2..] } }
            else if l.starts_with('!') { m.p_meta(l) }
            else if l.is_empty() { last_comment = "" }
            i += 1;
        }
        m
    }

    fn p_meta(&mut self, l: &str) {
        // !N = [distinct ]!DIxxx(...)
        let b = l.as_bytes();
        let mut q = 1;
        let mut id = 0u32;
        if !b.get(1).map_or(false, |c| c.is_ascii_digit()) { return }
        while q < b.len() && b[q].is_ascii_digit() { id = id * 10 + (b[q] - b'0') as u32; q += 1 }
        let rest = &l[q..];
        let rest = match rest.strip_prefix(" = ") { Some(r) => r, None => return };
        let rest = rest.strip_prefix("distinct ").unwrap_or(rest);
        fn field<'a>(r: &'a str, k: &str) -> Option<&'a str> {
            let mut st = 0;
            loop {
                let i = r[st..].find(k)? + st;
                let prev = r.as_bytes()[i - 1];
                if prev == b'(' || prev == b' ' { let v = &r[i + k.len()..]; return Some(v.trim_start_matches(' ')) }
                st = i + 1;
            }
        }
        fn refn(v: Option<&str>) -> u32 { v.and_then(|v| v.strip_prefix('!')).map(|v| v.bytes().take_while(|c| c.is_ascii_digit()).fold(0u32, |a, c| a * 10 + (c - b'0') as u32)).unwrap_or(0) }
        fn strv(v: Option<&str>) -> String { v.and_then(|v| v.strip_prefix('"')).map(|v| v[..v.find('"').unwrap_or(0)].to_string()).unwrap_or_default() }
        if rest.starts_with("!DILocation(") {
            let line = field(rest, "line:").map(|v| v.bytes().take_while(|c| c.is_ascii_digit()).fold(0u32, |a, c| a * 10 + (c - b'0') as u32)).unwrap_or(0);
            self.dbg.locs.insert(id, DbgLoc { line, scope: refn(field(rest, "scope:")), inlined: refn(field(rest, "inlinedAt:")) });
        } else if rest.starts_with("!DILexicalBlock") {
            self.dbg.scopes.insert(id, (refn(field(rest, "scope:")), refn(field(rest, "file:"))));
        } else if rest.starts_with("!DISubprogram(") {
            self.dbg.sps.insert(id, (strv(field(rest, "name:")), strv(field(rest, "linkageName:")), refn(field(rest, "file:")), refn(field(rest, "scope:"))));
        } else if rest.starts_with("!DIFile(") {
            let f = strv(field(rest, "filename:"));
            let d = strv(field(rest, "directory:"));
            self.dbg.files.insert(id, if f.starts_with('/') || d.is_empty() { f } else { format!("{}/{}", d, f) });
        } else if rest.starts_with("!DINamespace(") {
            self.dbg.ns.insert(id, (strv(field(rest, "name:")), refn(field(rest, "scope:"))));
        }
    }

    fn p_global(&mut self, l: &str) {
        let mut p = P::new(l);
        p.expect(b'@');
        let name = p.ident();
        p.expect(b'=');
        let mut tls = false;
        let mut constant = false;
        let mut external = false;
        loop {
            if p.peek() == b'(' { p.skip_balanced(); continue }
            let w = p.word();
            match w {
                "thread_local" => { tls = true; if p.peek() == b'(' { p.skip_balanced() } }
                "constant" => { constant = true; break }
                "global" => break,
                "external" | "extern_weak" => external = true,
                "alias" | "ifunc" => {
                    // A function type follows its return type with the parameters.
                    let _ = self.p_type(&mut p); if p.peek() == b'(' { p.skip_balanced() } p.expect(b',');
                    let t = self.p_type(&mut p);
                    if let Const::Glob(n, 0) = self.p_const(&mut p, t) { self.aliases.push((name, n)); }
                    return;
                }
                "" => panic!("global: {}", l),
                _ => {}
            }
        }
        let ty = self.p_type(&mut p);
        let mut init = None;
        if !external && !p.end() && p.peek() != b',' { init = Some(self.p_const(&mut p, ty)); }
        let mut align = self.lay[ty as usize].align;
        if let Some(k) = p.rest().find(", align ") { align = p.rest()[k + 8..].bytes().take_while(|c| c.is_ascii_digit()).fold(0u64, |a, c| a * 10 + (c - b'0') as u64); }
        let id = self.globals.len() as u32;
        self.gmap.insert(name.clone(), id);
        self.globals.push(Global { name, ty, init, constant, tls, align });
    }

    fn p_decl(&mut self, l: &str, comment: &str) {
        if let Some(a) = l.find('@') {
            let mut p = P::new(l); p.p = a + 1;
            let name = p.ident();
            self.add_func(Func { name, demangled: comment.to_string(), params: vec![], nregs: 0, code: vec![], defined: false, sp: 0 });
        }
    }
    fn add_func(&mut self, f: Func) {
        let id = self.funcs.len() as u32;
        self.fmap.insert(f.name.clone(), id);
        self.funcs.push(f);
    }

    fn p_func(&mut self, lines: &[&str], mut i: usize, comment: &str) -> usize {
        let l = lines[i];
        let mut f = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        let mut p = P::new(l);
        p.word();
        loop {
            self.skip_attrs(&mut p);
            let c = p.peek();
            if c == b'{' || c == b'[' || c == b'<' || is_type_word(p.peek_word()) { break }
            p.word();
        }
        self.p_type(&mut p);
        self.skip_attrs(&mut p);
        p.expect(b'@');
        let name = p.ident();
        p.expect(b'(');
        let mut params = vec![];
        let mut next_unnamed = 0u32;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' { p.p += 3; p.expect(b')'); break }
                self.p_type(&mut p);
                self.skip_attrs(&mut p);
                if p.eat(b'%') { let n = p.ident(); if n.bytes().all(|c| c.is_ascii_digit()) { next_unnamed += 1 } params.push(f.reg(n)); }
                else { params.push(f.reg(format!("{}", next_unnamed))); next_unnamed += 1; }
                if p.eat(b')') { break }
                p.expect(b',');
            }
        }
        let sp = dbg_of(l);
        // body
        let mut code: Vec<Instr> = vec![];
        // block label id -> (code index, phis)
        let mut blocks: HashMap<u32, (u32, Vec<(u32, Vec<(u32, Opd)>)>)> = HashMap::new();
        i += 1;
        // entry block label
        let mut cur: u32;
        {
            let l0 = lines[i];
            if !l0.starts_with(' ') && l0.contains(':') { cur = 0 } else { cur = f.label(format!("{}", next_unnamed)); blocks.insert(cur, (0, vec![])); }
        }
        while lines[i] != "}" {
            let l = lines[i];
            if l.is_empty() || l.starts_with("; ") { i += 1; continue }
            if !l.starts_with(' ') {
                // label
                let mut q = P::new(l);
                let n = if l.starts_with('"') { q.ident() } else { q.word().to_string() };
                cur = f.label(n);
                blocks.insert(cur, (code.len() as u32, vec![]));
                i += 1;
                continue;
            }
            let mut full: String;
            let mut text = l;
            if l.trim_start().starts_with("switch ") && !l.contains(']') {
                full = l.to_string();
                while !lines[i].contains(']') { i += 1; full.push(' '); full.push_str(lines[i]); }
                text = &full;
            } else if l.contains(" invoke ") || l.starts_with("  invoke ") {
                full = l.to_string();
                i += 1;
                full.push(' ');
                full.push_str(lines[i].trim_start());
                text = &full;
            } else if l.contains("= landingpad ") {
                while i + 1 < lines.len() && lines[i + 1].starts_with("          ") { i += 1 }
            }
            i += 1;
            let t = text.trim_start();
            if t.starts_with(';') { continue }
            if t.starts_with("#dbg") { continue }
            self.p_instr(t, &mut f, &mut code, &mut blocks, cur);
        }
        // resolve edges
        let bl = blocks;
        let fix = |e: &mut Edge| {
            let (idx, phis) = bl.get(&e.to).expect("block");
            for (dst, inc) in phis {
                let v = inc.iter().find(|(b, _)| *b == e.from).unwrap_or_else(|| panic!("phi incoming")).1.clone();
                e.moves.push((*dst, v));
            }
            e.to = *idx;
        };
        for c in code.iter_mut() {
            match &mut c.i {
                I::Br(e) => fix(e),
                I::CondBr(_, a, b) => { fix(a); fix(b) }
                I::Switch(_, _, cs, d) => { for (_, e) in cs.iter_mut() { fix(e) } fix(d) }
                _ => {}
            }
        }
        let nregs = f.regs.len() as u32;
        self.add_func(Func { name, demangled: comment.to_string(), params, nregs, code, defined: true, sp });
        i
    }

    fn p_instr(&mut self, t: &str, f: &mut FnCtx, code: &mut Vec<Instr>, blocks: &mut HashMap<u32, (u32, Vec<(u32, Vec<(u32, Opd)>)>)>, cur: u32) {
        let dbg = dbg_of(t);
        let mut p = P::new(t);
        let mut dst = NOREG;
        if p.peek() == b'%' {
            p.p += 1;
            dst = f.reg(p.ident());
            p.expect(b'=');
        }
        let mut op = p.word();
        if op == "tail" || op == "musttail" || op == "notail" { op = p.word(); }
        let mut push = |i: I| code.push(Instr { i, dst, dbg });
        let bin = |o: &str| -> Option<BinOp> {
            Some(match o { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, _ => return None })
        };
        if let Some(b) = bin(op) {
            loop { let w = p.peek_word(); if w == "nuw" || w == "nsw" || w == "exact" || w == "disjoint" { p.word(); } else { break } }
            let ty = self.p_type(&mut p);
            let a = self.p_val(&mut p, ty, f); p.expect(b',');
            let c = self.p_val(&mut p, ty, f);
            push(I::Bin(b, ty, a, c));
            return;
        }
        match op {
            "icmp" => {
                p.try_word("samesign");
                let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("pred {}", x) };
                let ty = self.p_type(&mut p);
                let a = self.p_val(&mut p, ty, f); p.expect(b',');
                let b = self.p_val(&mut p, ty, f);
                push(I::Icmp(pr, ty, a, b));
            }
            "select" => {
                let (ct, c) = self.p_tyval(&mut p, f); p.expect(b',');
                let (ty, a) = self.p_tyval(&mut p, f); p.expect(b',');
                let (_, b) = self.p_tyval(&mut p, f);
                push(I::Select(ct, ty, c, a, b));
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" => {
                loop { let w = p.peek_word(); if w == "nuw" || w == "nsw" || w == "nneg" { p.word(); } else { break } }
                let (ty, a) = self.p_tyval(&mut p, f);
                assert!(p.try_word("to"));
                let to = self.p_type(&mut p);
                let o = match op { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "ptrtoint" | "inttoptr" => { let (x, y) = (self.lay[ty as usize].bits, self.lay[to as usize].bits); if x > y { CastOp::Trunc } else if x < y { CastOp::ZExt } else { CastOp::Bit } } _ => CastOp::Bit };
                push(I::Cast(o, ty, a, to));
            }
            "getelementptr" => {
                loop { let w = p.peek_word(); if w == "inbounds" || w == "nuw" || w == "nusw" { p.word(); } else { break } }
                let t0 = self.p_type(&mut p); p.expect(b',');
                let (_, base) = self.p_tyval(&mut p, f);
                let mut off = 0i64; let mut dyns = vec![]; let mut curt = t0; let mut first = true;
                while p.peek() == b',' {
                    let save = p.p;
                    p.p += 1;
                    if p.peek() == b'!' { p.p = save; break }
                    let (it, v) = self.p_tyval(&mut p, f);
                    if first {
                        first = false;
                        let sc = self.lay[curt as usize].size as i64;
                        match &v { Opd::K(_, Const::Int(k)) => off += sx(*k, self.lay[it as usize].bits) * sc, Opd::K(_, Const::Zero) => {}, _ => dyns.push((v, it, sc)) }
                    } else {
                        match &self.tys[curt as usize] {
                            Ty::Struct(..) => { let k = match v { Opd::K(_, Const::Int(k)) => k as u64, _ => panic!("gep struct idx") }; let (o, nt) = self.field_off(curt, k); off += o as i64; curt = nt; }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => { let e = *e; let sc = self.lay[e as usize].size as i64; match &v { Opd::K(_, Const::Int(k)) => off += sx(*k, self.lay[it as usize].bits) * sc, _ => dyns.push((v, it, sc)) } curt = e; }
                            _ => panic!("gep type"),
                        }
                    }
                }
                push(I::Gep(base, off, dyns));
            }
            "load" => {
                loop { let w = p.peek_word(); if w == "atomic" || w == "volatile" { p.word(); } else { break } }
                let ty = self.p_type(&mut p); p.expect(b',');
                let (_, a) = self.p_tyval(&mut p, f);
                push(I::Load(ty, a));
            }
            "store" => {
                loop { let w = p.peek_word(); if w == "atomic" || w == "volatile" { p.word(); } else { break } }
                let (ty, v) = self.p_tyval(&mut p, f); p.expect(b',');
                let (_, a) = self.p_tyval(&mut p, f);
                push(I::Store(ty, v, a));
            }
            "alloca" => {
                let ty = self.p_type(&mut p);
                let mut al = self.lay[ty as usize].align;
                let mut n = 1;
                if let Some(k) = t.find(", align ") { al = t[k + 8..].bytes().take_while(|c| c.is_ascii_digit()).fold(0u64, |a, c| a * 10 + (c - b'0') as u64); }
                if p.eat(b',') { let w = p.peek_word(); if is_type_word(w) { let (_, v) = self.p_tyval(&mut p, f); if let Opd::K(_, Const::Int(k)) = v { n = k as u64 } else { panic!("dyn alloca") } } }
                push(I::Alloca(self.lay[ty as usize].size * n, al));
            }
            "phi" => {
                let ty = self.p_type(&mut p);
                let mut inc = vec![];
                loop {
                    p.expect(b'[');
                    let v = self.p_val(&mut p, ty, f); p.expect(b','); p.expect(b'%');
                    let b = f.label(p.ident()); p.expect(b']');
                    inc.push((b, v));
                    let save = p.p;
                    if p.eat(b',') && p.peek() == b'[' { continue }
                    p.p = save;
                    break;
                }
                blocks.get_mut(&cur).unwrap().1.push((dst, inc));
            }
            "br" => {
                if p.peek_word() == "label" { let to = self.p_label(&mut p, f); push(I::Br(Edge { to, moves: vec![], from: cur })); }
                else {
                    let (_, c) = self.p_tyval(&mut p, f); p.expect(b',');
                    let a = self.p_label(&mut p, f); p.expect(b',');
                    let b = self.p_label(&mut p, f);
                    push(I::CondBr(c, Edge { to: a, moves: vec![], from: cur }, Edge { to: b, moves: vec![], from: cur }));
                }
            }
            "switch" => {
                let (ty, v) = self.p_tyval(&mut p, f); p.expect(b',');
                let d = self.p_label(&mut p, f);
                p.expect(b'[');
                let mut cs = vec![];
                while !p.eat(b']') {
                    let t2 = self.p_type(&mut p);
                    let k = match self.p_const(&mut p, t2) { Const::Int(k) => k, _ => panic!("switch") };
                    p.expect(b',');
                    let l = self.p_label(&mut p, f);
                    cs.push((k, Edge { to: l, moves: vec![], from: cur }));
                }
                push(I::Switch(ty, v, cs, Edge { to: d, moves: vec![], from: cur }));
            }
            "ret" => {
                let ty = { self.skip_attrs(&mut p); self.p_type(&mut p) };
                if matches!(self.tys[ty as usize], Ty::Void) { push(I::Ret(ty, None)) } else { self.skip_attrs(&mut p); let v = self.p_val(&mut p, ty, f); push(I::Ret(ty, Some(v))) }
            }
            "unreachable" => push(I::Unreachable),
            "extractvalue" => {
                let (ty, v) = self.p_tyval(&mut p, f);
                let mut ix = vec![];
                while p.peek() == b',' { p.p += 1; if p.peek() == b'!' { break } ix.push(p.num() as u32) }
                push(I::ExtractValue(ty, v, ix));
            }
            "insertvalue" => {
                let (ty, v) = self.p_tyval(&mut p, f); p.expect(b',');
                let (t2, w) = self.p_tyval(&mut p, f);
                let mut ix = vec![];
                while p.peek() == b',' { p.p += 1; if p.peek() == b'!' { break } ix.push(p.num() as u32) }
                push(I::InsertValue(ty, v, t2, w, ix));
            }
            "extractelement" => { let (ty, v) = self.p_tyval(&mut p, f); p.expect(b','); let (_, k) = self.p_tyval(&mut p, f); push(I::ExtractElem(ty, v, k)); }
            "insertelement" => { let (ty, v) = self.p_tyval(&mut p, f); p.expect(b','); let (_, w) = self.p_tyval(&mut p, f); p.expect(b','); let (_, k) = self.p_tyval(&mut p, f); push(I::InsertElem(ty, v, w, k)); }
            "shufflevector" => {
                let (ty, a) = self.p_tyval(&mut p, f); p.expect(b',');
                let (_, b) = self.p_tyval(&mut p, f); p.expect(b',');
                let mt = self.p_type(&mut p);
                let n = match self.tys[mt as usize] { Ty::Vec(n, _) => n, _ => panic!() };
                let mask = match self.p_const(&mut p, mt) {
                    Const::Agg(v) => v.into_iter().map(|(_, c)| match c { Const::Int(k) => k as i64, _ => -1 }).collect(),
                    Const::Zero => vec![0; n as usize],
                    Const::Undef => vec![-1; n as usize],
                    Const::Splat(b) => match b.1 { Const::Int(k) => vec![k as i64; n as usize], _ => vec![-1; n as usize] },
                    _ => panic!("shuffle mask"),
                };
                push(I::Shuffle(ty, a, b, mask, mt));
            }
            "atomicrmw" => {
                p.try_word("volatile");
                let o = match p.word() { "xchg" => RmwOp::Xchg, "add" => RmwOp::Add, "sub" => RmwOp::Sub, "and" => RmwOp::And, "or" => RmwOp::Or, "xor" => RmwOp::Xor, "nand" => RmwOp::Nand, "max" => RmwOp::Max, "min" => RmwOp::Min, "umax" => RmwOp::UMax, "umin" => RmwOp::UMin, x => panic!("rmw {}", x) };
                let (_, a) = self.p_tyval(&mut p, f); p.expect(b',');
                let (ty, v) = self.p_tyval(&mut p, f);
                push(I::Rmw(o, ty, a, v));
            }
            "cmpxchg" => {
                loop { let w = p.peek_word(); if w == "weak" || w == "volatile" { p.word(); } else { break } }
                let (_, a) = self.p_tyval(&mut p, f); p.expect(b',');
                let (ty, c) = self.p_tyval(&mut p, f); p.expect(b',');
                let (_, n) = self.p_tyval(&mut p, f);
                push(I::CmpXchg(ty, a, c, n));
            }
            "fence" => push(I::Fence),
            "freeze" => { let (_, a) = self.p_tyval(&mut p, f); push(I::Copy(a)); }
            "landingpad" => push(I::Trap("landingpad")),
            "resume" => push(I::Trap("resume")),
            "call" | "invoke" => {
                // optional flags / cc / ret attrs
                self.skip_attrs(&mut p);
                loop { let c = p.peek(); if c == b'{' || c == b'[' || c == b'<' || is_type_word(p.peek_word()) { break } p.word(); self.skip_attrs(&mut p); }
                let rt = self.p_type(&mut p);
                self.skip_attrs(&mut p);
                if p.peek() == b'(' { p.skip_balanced() }
                let callee = match p.peek() {
                    b'@' => { p.p += 1; Callee::Name(p.ident()) }
                    b'%' => { p.p += 1; Callee::Reg(f.reg(p.ident())) }
                    _ => { if p.peek_word() == "asm" { Callee::Asm(if t.contains("cpuid") { "cpuid" } else { "" }) } else { panic!("callee {}", t) } }
                };
                // An empty assembler template that hides where a value comes from.
                if matches!(callee, Callee::Asm("")) && t.contains("*/\", \"=&r,0,") {
                    let k = t.find("\", \"=&r,0,").unwrap() + 5;
                    let k = k + t[k..].find("\"(").unwrap() + 2;
                    p.p = k;
                    let (_, a) = self.p_tyval(&mut p, f);
                    push(I::Copy(a));
                    return;
                }
                let mut args = vec![];
                if !matches!(callee, Callee::Asm(_)) {
                    let dead_intrinsic = matches!(&callee, Callee::Name(n) if n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg"));
                    p.expect(b'(');
                    if !dead_intrinsic && !p.eat(b')') {
                        loop {
                            let ty = self.p_type(&mut p);
                            self.skip_attrs(&mut p);
                            if p.peek() == b'!' { while p.peek() != b',' && p.peek() != b')' { p.p += 1 } args.push((ty, Opd::K(ty, Const::Undef))) }
                            else { let v = self.p_val(&mut p, ty, f); args.push((ty, v)); }
                            if p.eat(b')') { break }
                            p.expect(b',');
                        }
                    }
                    if dead_intrinsic { return }
                }
                if matches!(&callee, Callee::Name(n) if n == "llvm.fabs.f64") {
                    let m = Opd::K(rt, Const::Int((i64::MAX as u64) as u128));
                    push(I::Bin(BinOp::And, rt, args[0].1.clone(), m));
                    return;
                }
                push(I::Call(rt, callee, args));
                if op == "invoke" {
                    let k = t.find(" to label %").unwrap_or_else(|| panic!("invoke {}", t));
                    let mut q = P::new(t); q.p = k + 4;
                    let to = self.p_label(&mut q, f);
                    code.push(Instr { i: I::Br(Edge { to, moves: vec![], from: cur }), dst: NOREG, dbg });
                }
            }
            "fneg" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fcmp" => {
                let flags = |p: &mut P| while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { p.word(); };
                flags(&mut p);
                let o = match op {
                    "fneg" => FpOp::Neg, "fadd" => FpOp::Add, "fsub" => FpOp::Sub, "fmul" => FpOp::Mul, "fdiv" => FpOp::Div, "frem" => FpOp::Rem,
                    _ => { let w = p.word(); match ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"].iter().find(|x| **x == w) { Some(x) => FpOp::Cmp(x), None => panic!("fcmp {}", w) } }
                };
                flags(&mut p);
                let ty = self.p_type(&mut p);
                let mut v = vec![self.p_val(&mut p, ty, f)];
                if op != "fneg" { p.expect(b','); v.push(self.p_val(&mut p, ty, f)); }
                let to = if op == "fcmp" { self.ty(Ty::Int(1)) } else { ty };
                push(I::Fp(o, ty, v, to));
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                while matches!(p.peek_word(), "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { p.word(); }
                let (ty, a) = self.p_tyval(&mut p, f);
                assert!(p.try_word("to"));
                let to = self.p_type(&mut p);
                let o = match op { "uitofp" => FpOp::FromU, "sitofp" => FpOp::FromS, "fptoui" => FpOp::ToU, "fptosi" => FpOp::ToS, _ => FpOp::Conv };
                push(I::Fp(o, ty, vec![a], to));
            }
            // Anything else is an error only if it is executed.
            _ => push(I::Unsupported(t.to_string())),
        }
    }
}

pub fn map_opds(i: &mut I, f: &mut dyn FnMut(&mut Opd)) {
    fn edge(e: &mut Edge, f: &mut dyn FnMut(&mut Opd)) { for (_, o) in e.moves.iter_mut() { f(o) } }
    match i {
        I::Bin(_, _, a, b) | I::Icmp(_, _, a, b) | I::InsertValue(_, a, _, b, _) | I::ExtractElem(_, a, b) | I::Shuffle(_, a, b, _, _) | I::Rmw(_, _, a, b) | I::Store(_, a, b) => { f(a); f(b) }
        I::Select(_, _, a, b, c) | I::InsertElem(_, a, b, c) | I::CmpXchg(_, a, b, c) => { f(a); f(b); f(c) }
        I::Cast(_, _, a, _) | I::Load(_, a) | I::ExtractValue(_, a, _) | I::Copy(a) => f(a),
        I::Gep(a, _, d) => { f(a); for x in d { f(&mut x.0) } }
        I::Call(_, _, args) => for a in args { f(&mut a.1) },
        I::Fp(_, _, args, _) => for a in args { f(a) },
        I::Br(e) => edge(e, f),
        I::CondBr(c, a, b) => { f(c); edge(a, f); edge(b, f) }
        I::Switch(_, v, cs, d) => { f(v); for c in cs { edge(&mut c.1, f) } edge(d, f) }
        I::Ret(_, Some(v)) => f(v),
        _ => {}
    }
}

fn dbg_of(t: &str) -> u32 {
    match t.rfind("!dbg !") { None => 0, Some(k) => t[k + 6..].bytes().take_while(|c| c.is_ascii_digit()).fold(0u32, |a, c| a * 10 + (c - b'0') as u32) }
}
pub fn mask128(v: u128, bits: u32) -> u128 { if bits == 0 || bits >= 128 { v } else { v & ((1u128 << bits) - 1) } }
pub fn sx(v: u128, bits: u32) -> i64 {
    if bits >= 64 { v as i64 } else if bits == 0 { v as i64 } else { let s = 64 - bits; ((v as u64 as i64) << s) >> s }
}
