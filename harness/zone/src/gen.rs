//! Structured zone files, written along with what they mean (RFC 1035 section 5 and
//! the comments of the parser).
use crate::model::*;
use crate::wire::*;
use crate::*;

pub struct G {
    /// text of the main file and of the included one
    t: Vec<u8>,
    inc: Vec<u8>,
    zone: &'static [u8],
    origin: Vec<u8>,
    ttl: u32,
    min: u32,
    /// expected records: owner, type, wire form
    exp: Vec<(Vec<u8>, RecordType, Vec<u8>)>,
    bad: bool,
    included: u32,
}
pub const OWNERS: u64 = 8;
pub const TTLS: u64 = 5;
pub const KINDS: u64 = 8;
pub const STYLES: u64 = 4;
pub const RKINDS: u64 = 22;
pub const STEPS: u64 = 13;

fn rec(owner: &[u8], ty: u16, ttl: u32, rdata: &[u8]) -> Vec<u8> {
    let mut v = wire_name(owner);
    p16(&mut v, ty);
    p16(&mut v, 1);
    p32(&mut v, ttl);
    p16(&mut v, rdata.len() as u16);
    v.extend_from_slice(rdata);
    v
}
/// An arbitrary decimal digit.
fn digit(lo: u8) -> u8 {
    let d = u8v();
    assume(and(d >= b'0' + lo, d <= b'9'));
    d
}

impl G {
    /// In zone "z." or in the root zone.
    pub fn new(root: bool) -> G {
        let zone: &'static [u8] = if root { b"." } else { b"z." };
        let mut g = G { t: vec![], inc: vec![], zone, origin: zone.to_vec(), ttl: 70, min: 60, exp: vec![], bad: false, included: 0 };
        let (n, m) = (g.abs(b"n", zone), g.abs(b"m", zone));
        g.t.extend_from_slice(zone);
        g.t.extend_from_slice(b" IN 90 SOA n m 1 2 3 4 60\n@ 70 NS n\n");
        let mut d = wire_name(&n);
        d.extend_from_slice(&wire_name(&m));
        for x in [1, 2, 3, 4, 60] {
            p32(&mut d, x);
        }
        g.exp.push((zone.to_vec(), RecordType::SOA, rec(zone, 6, 90, &d)));
        g.exp.push((zone.to_vec(), RecordType::NS, rec(zone, 2, 70, &wire_name(&n))));
        g
    }
    fn abs(&self, label: &[u8], origin: &[u8]) -> Vec<u8> {
        let mut v = label.to_vec();
        v.push(b'.');
        if origin != b"." {
            v.extend_from_slice(origin);
        }
        v
    }
    fn put(&mut self, x: &[u8]) {
        self.t.extend_from_slice(x);
    }
    /// A name inside the zone, in absolute form.
    fn inside(&self, label: &[u8]) -> Vec<u8> {
        self.abs(label, self.zone)
    }
    pub fn context(&mut self, k: u64) {
        match k {
            0 => {}
            1 => {
                let o = self.inside(b"o");
                self.put(b"$ORIGIN ");
                self.t.extend_from_slice(&o);
                self.put(b"\n");
                self.origin = o;
            }
            2 => {
                let o = self.inside(b"o");
                self.put(b"\n  ; comment ( \"\n\t$ORIGIN ");
                // directives start in the first column only
                self.t.truncate(self.t.len() - 9);
                self.put(b"\n$ORIGIN\t ");
                self.t.extend_from_slice(&o);
                self.put(b" ; ) \n\n");
                self.origin = o;
            }
            _ => {
                self.put(b"c 77 A 9.9.9.9\n");
                let c = self.inside(b"c");
                self.exp.push((c.clone(), RecordType::A, rec(&c, 1, 77, &[9, 9, 9, 9])));
                self.ttl = 77;
            }
        }
    }
    /// Write the owner, returning its absolute name.
    fn owner(&mut self, k: u64) -> Vec<u8> {
        match k {
            0 => { let x = self.inside(b"b"); self.t.extend_from_slice(&x); x }
            1 => { self.put(b"b"); self.abs(b"b", &self.origin.clone()) }
            2 => { self.put(b"@"); self.origin.clone() }
            3 => self.origin.clone(),
            4 => { self.put(b"x.b"); self.abs(b"x.b", &self.origin.clone()) }
            5 => { let z = self.zone.to_vec(); self.t.extend_from_slice(&z); z }
            6 => { let x = self.abs(b"B", &self.zone.to_ascii_uppercase()); self.t.extend_from_slice(&x); x }
            _ => {
                // A label with arbitrary characters.
                let (x, y) = (u8v(), u8v());
                assume(and(and(x >= b'a', x <= b'z'), is_alnum(y)));
                self.put(&[x, y]);
                self.abs(&[x, y], &self.origin.clone())
            }
        }
    }
    /// Write TTL and class, returning the TTL of the record.
    fn ttl_class(&mut self, k: u64, sp: &[u8]) -> u32 {
        let t = if k == 0 || k == 2 {
            self.ttl
        } else {
            let (a, b) = (digit(0), if k == 5 { b'5' } else { digit(0) });
            let v = (a - b'0') as u32 * 10 + (b - b'0') as u32;
            if k == 4 { self.put(b"IN"); self.put(sp); }
            self.put(&[a, b]);
            self.put(sp);
            if k == 3 { self.put(b"IN"); self.put(sp); }
            v
        };
        if k == 2 { self.put(b"IN"); self.put(sp); }
        if t < self.min {
            cover("low TTL");
            self.bad = true;
        }
        t
    }
    /// One record. Style: 0 single blanks, 1 tabs and a trailing comment,
    /// 2 data in parentheses over several lines, 3 parentheses around everything but the owner.
    pub fn record(&mut self, owner: u64, tc: u64, kind: u64, style: u64, main: bool) {
        let sp: &[u8] = match style { 0 => b" ", 1 => b"\t \t", 2 => b"  ", _ => b"\n ; ) \"\n" };
        let own = self.owner(owner);
        self.put(b" ");
        if style == 3 { self.put(b"("); }
        let ttl = self.ttl_class(tc, sp);
        let org = self.origin.clone();
        let osp: &[u8] = if style == 2 { b" ;\\\n\t" } else { sp };
        let (ty, num, d) = match kind {
            0 => {
                self.put(b"A");
                self.put(sp);
                if style == 2 { self.put(b"("); }
                let (x, y) = (digit(0), if main { digit(1) } else { b'4' });
                self.put(&[b'1', b'0', b'.', x, b'.', y, x, b'.', b'2', b'5', b'5']);
                (RecordType::A, 1, vec![10, x - b'0', (y - b'0') * 10 + (x - b'0'), 255])
            }
            1 => {
                self.put(b"CNAME");
                self.put(sp);
                if style == 2 { self.put(b"(\n"); }
                self.put(b"@");
                (RecordType::CNAME, 5, wire_name(&org))
            }
            2 => {
                self.put(b"MX");
                self.put(sp);
                if style == 2 { self.put(b"("); }
                let (x, y) = (digit(0), digit(0));
                self.put(&[x, y]);
                self.put(osp);
                self.put(b"e");
                let mut d = vec![0, (x - b'0') * 10 + (y - b'0')];
                d.extend_from_slice(&wire_name(&self.abs(b"e", &org)));
                (RecordType::MX, 15, d)
            }
            3 => {
                self.put(b"PTR");
                self.put(sp);
                if style == 2 { self.put(b"("); }
                self.put(b"e.y.");
                (RecordType::PTR, 12, vec![1, b'e', 1, b'y', 0])
            }
            4 => {
                self.put(b"HINFO");
                self.put(sp);
                if style == 2 { self.put(b"("); }
                self.put(b"\"a ;)\"");
                self.put(osp);
                self.put(b"ab");
                (RecordType::HINFO, 13, vec![4, b'a', b' ', b';', b')', 2, b'a', b'b'])
            }
            5 => {
                self.put(b"TXT");
                self.put(sp);
                if style == 2 { self.put(b"("); }
                self.put(b"\"\"");
                self.put(osp);
                self.put(b"\"(\\\"\"");
                self.put(osp);
                self.put(b"c\\;");
                (RecordType::TXT, 16, vec![0, 2, b'(', b'"', 2, b'c', b';'])
            }
            6 => {
                self.put(b"NS");
                self.put(sp);
                if style == 2 { self.put(b"("); }
                self.put(b"e");
                // NS records are only allowed in the top node.
                if own != self.zone { self.bad = true; }
                (RecordType::NS, 2, wire_name(&self.abs(b"e", &org)))
            }
            _ => {
                self.put(b"SOA");
                self.put(sp);
                if style == 2 { self.put(b"("); }
                self.put(b"n m");
                self.put(osp);
                self.put(b"1 2 3 4 60");
                self.bad = true;
                (RecordType::SOA, 6, vec![])
            }
        };
        if style >= 2 { self.put(b"\n )"); }
        if style == 1 { self.put(b" ;( \" \\"); }
        if style == 2 { self.put(b" \t"); }
        self.put(b"\n");
        self.ttl = ttl;
        self.exp.push((own.clone(), ty, rec(&own, num, ttl, &d)));
        if main && !self.bad { cover("well-formed"); }
    }
    /// A record with a fixed owner and the given data.
    fn data(&mut self, ty: RecordType, d: Vec<u8>) {
        let own = self.abs(b"w", &self.origin.clone());
        let num = ty.to_num();
        let r = rec(&own, num, self.ttl, &d);
        self.exp.push((own, ty, r));
        self.put(b"\n");
    }
    pub fn rdata_variants(&mut self, k: u64) {
        let org = self.origin.clone();
        self.put(b"w ");
        match k {
            // Names: relative, absolute, two labels, the root.
            0..=11 => {
                let (ty, num): (RecordType, &[u8]) = match k / 4 {
                    0 => (RecordType::CNAME, b"CNAME "),
                    1 => (RecordType::MX, b"MX 7 "),
                    _ => (RecordType::PTR, b"PTR "),
                };
                self.put(num);
                let c = u8v();
                assume(is_alnum(c));
                // Numbers are not supported as names.
                if k % 4 == 0 { assume(c > b'9'); }
                let (txt, abs): (Vec<u8>, Vec<u8>) = match k % 4 {
                    0 => (vec![c], self.abs(&[c], &org)),
                    1 => (vec![c, b'.', b'q', b'.'], vec![c, b'.', b'q', b'.']),
                    2 => (vec![b'a', b'.', c], self.abs(&[b'a', b'.', c], &org)),
                    _ => (vec![b'.'], vec![b'.']),
                };
                self.put(&txt);
                let mut d = if ty == RecordType::MX { vec![0, 7] } else { vec![] };
                d.extend_from_slice(&wire_name(&abs));
                // Pointers have to be absolute.
                if ty == RecordType::PTR && k % 2 == 0 { self.bad = true; }
                self.data(ty, d);
            }
            12 => {
                self.put(b"MX 65535 e");
                let mut d = vec![255, 255];
                d.extend_from_slice(&wire_name(&self.abs(b"e", &org)));
                self.data(RecordType::MX, d);
            }
            13 => { self.put(b"MX 65536 e"); self.bad = true; self.data(RecordType::MX, vec![]); }
            14 => { self.put(b"WKS 10.0.0.1 TCP smtp ftp"); self.data(RecordType::WKS, vec![10, 0, 0, 1, 6]); }
            15 => { self.put(b"WKS 10.0.0.1 udp"); self.data(RecordType::WKS, vec![10, 0, 0, 1, 17]); }
            16 => { self.put(b"WKS 10.0.0.1 icmp"); self.bad = true; self.data(RecordType::WKS, vec![]); }
            17 => { self.put(b"HINFO \"\" \"b c\""); self.data(RecordType::HINFO, vec![0, 3, b'b', b' ', b'c']); }
            18 => { self.put(b"HINFO one"); self.bad = true; self.data(RecordType::HINFO, vec![]); }
            // Strings around the limit of a length byte.
            19 => {
                let n = 254 + choose(3) as usize;
                self.put(b"TXT \"");
                for _ in 0..n { self.put(b"x"); }
                self.put(b"\"");
                let mut d = vec![n as u8];
                for _ in 0..n { d.push(b'x'); }
                if n > 255 { self.bad = true; cover("string too long"); }
                self.data(RecordType::TXT, d);
            }
            20 => {
                let n = 254 + choose(3) as usize;
                self.put(b"HINFO a ");
                for _ in 0..n { self.put(b"x"); }
                let mut d = vec![1, b'a', n as u8];
                for _ in 0..n { d.push(b'x'); }
                if n > 255 { self.bad = true; }
                self.data(RecordType::HINFO, d);
            }
            _ => {
                // All the bytes an unquoted and a quoted string can have.
                let (x, y) = (u8v(), u8v());
                assume(and(and(x >= 32, x < 127), and(x != b'"', x != b'\\')));
                assume(and(and(y > 32, y < 127), and(and(y != b'(', y != b')'), and(y != b';', y != b'\\'))));
                self.put(&[b'T', b'X', b'T', b' ', b'"', x, b'"', b' ', b'a', y]);
                self.data(RecordType::TXT, vec![1, x, 2, b'a', y]);
            }
        }
    }
    /// One step of a history of directives and records.
    pub fn step(&mut self, k: u64) {
        match k {
            0 => self.record(1, 0, 0, 0, false),
            1 => self.record(3, 5, 0, 0, false),
            2 => self.record(2, 0, 1, 2, false),
            3 => {
                let o = self.inside(b"o");
                self.origin = o.clone();
                self.put(b"$ORIGIN ");
                self.put(&o);
                self.put(b"\n");
            }
            4 => {
                self.origin = self.zone.to_vec();
                self.put(b"$ORIGIN z. ;\n");
            }
            5 => {
                // Out of the zone.
                self.put(match choose(4) { 0 => b"$ORIGIN zz.\n", 1 => b"$ORIGIN y.\n", 2 => b"$ORIGIN .\n", _ => b"$ORIGIN az.\n" });
                self.bad = true;
            }
            6 => {
                self.put(b"$ORIGIN y.z.\n");
                self.origin = b"y.z.".to_vec();
            }
            7..=9 | 12 => {
                // An included file, at most once: with its own origin and TTL changes,
                // which end with it.
                if self.included > 0 { assume(false); }
                self.included += 1;
                self.put(b"$INCLUDE I");
                let (o, t) = (self.origin.clone(), self.ttl);
                if k == 8 { self.put(b" i"); self.origin = self.abs(b"i", &o); }
                if k == 9 { self.put(b"\ti.z. ;c"); self.origin = b"i.z.".to_vec(); }
                if k == 12 { self.put(b" z."); self.origin = b"z.".to_vec(); }
                self.put(b"\n");
                let main = std::mem::take(&mut self.t);
                self.record(1, 0, 0, 0, false);
                if boolv() { self.put(b"$ORIGIN q.z.\n"); self.origin = b"q.z.".to_vec(); }
                self.record(3, 5, 0, 0, false);
                if boolv() {
                    // Included files may include others.
                    self.put(b"$INCLUDE J\n");
                    let j = self.abs(b"j", &self.origin.clone());
                    self.exp.push((j.clone(), RecordType::A, rec(&j, 1, 88, &[9, 9, 9, 9])));
                }
                self.record(1, 0, 0, 0, false);
                self.inc = std::mem::replace(&mut self.t, main);
                if boolv() { self.inc.pop(); }
                self.origin = o;
                self.ttl = t;
                cover("include");
            }
            10 => {
                // An owner out of the zone.
                self.put(match choose(4) { 0 => b"y.", 1 => b".", 2 => b"zz.", _ => b"a.zz." });
                self.put(b" A 1.2.3.4\n");
                self.bad = true;
            }
            _ => {
                self.put(b"\n\t \n ; $ORIGIN q.z.\n;x\n");
            }
        }
    }
    /// Parse and compare.
    pub fn judge(&mut self) {
        let bad = self.bad;
        let mut f = std::mem::take(&mut self.t);
        if boolv() { f.pop(); }
        #[cfg(feature = "native")]
        if std::env::var("VP_SHOW").is_ok() { println!("---\n{}\n--- {}\n---", String::from_utf8_lossy(&f), String::from_utf8_lossy(&self.inc)); }
        files::add("F", f);
        files::add("J", b"j 88 A 9.9.9.9".to_vec());
        files::add("I", std::mem::take(&mut self.inc));
        let z = parse(self.zone, 75);
        if bad {
            cover("bad");
            check(z.is_none(), "a malformed entry is accepted");
            return;
        }
        let z = match z {
            None => {
                check(false, "a well-formed file is rejected");
                return;
            }
            Some(z) => z.auth_zone,
        };
        cover("good");
        self.compare(&z);
    }
    /// The zone holds exactly the expected records.
    fn compare(&self, z: &Zone) {
        for (i, (own, ty, _)) in self.exp.iter().enumerate() {
            if self.exp[..i].iter().any(|e| e.1 == *ty && e.0 == *own) { continue }
            let l = match z.get(&name_of(own), *ty) {
                None => {
                    check(false, "a record is missing");
                    return;
                }
                Some(l) => l,
            };
            let mut have = vec![];
            for r in l {
                have.push(ref_record(r));
                let mut b = ariadne_dns::shared::buffer::BitsBuf::new();
                check(r.encode_to_buf(&mut b).is_ok(), "an accepted record cannot be encoded");
            }
            for (o2, t2, w) in &self.exp {
                if *t2 != *ty || *o2 != *own { continue }
                let n = self.exp.iter().filter(|e| e.1 == *ty && e.2 == *w).count();
                check(have.iter().filter(|h| *h == w).count() == n, "a record differs from what the file says");
            }
        }
        let mut total = 0;
        for t in [RecordType::A, RecordType::NS, RecordType::CNAME, RecordType::SOA, RecordType::WKS, RecordType::PTR, RecordType::HINFO, RecordType::MX, RecordType::TXT] {
            total += z.get_all_of_type(t).len();
        }
        check(total == self.exp.len(), "records that the file does not have");
    }
}

/// Entries that have to be rejected.
pub const BAD: &[&[u8]] = &[
    b"a", b"a A", b"a A 1.2.3", b"a A 1.2.3.4.5", b"a A 1.2.3.256", b"a A 1.2.3.4 x", b"a A \"1.2.3.4\"", b"a 70 70 A 1.2.3.4",
    b"a IN IN A 1.2.3.4", b"a CH A 1.2.3.4", b"a HS A 1.2.3.4", b"a CS A 1.2.3.4", b"a * A 1.2.3.4", b"a 59 A 1.2.3.4", b"a 4294967296 A 1.2.3.4", b"a -1 A 1.2.3.4",
    b"a X 1.2.3.4", b"a AXFR x", b"a * x", b"a MD x", b"a NULL x", b"a MX e", b"a MX e 1", b"a MX 1 e f", b"a MX 65536 e", b"a CNAME", b"a CNAME e f", b"a CNAME e..f", b"a CNAME -e",
    b"a PTR e", b"a PTR", b"a HINFO a", b"a HINFO a b c", b"a HINFO", b"a TXT \"a", b"a TXT a)", b"a TXT", b"a TXT ;a", b"a TXT ()", b"a TXT (a", b"a TXT ((a))", b"a TXT \\",
    b"a WKS 1.2.3.4", b"a WKS tcp", b"a SOA n m 1 2 3 4 60", b"z. IN SOA n m 1 2 3 4 60", b"a NS n", b"b.z. NS n", b"$ORIGIN", b"$ORIGIN y.", b"$ORIGIN a.z. b", b"$ORIGIN \"a.z.\"", b"$INCLUDE",
    b"$INCLUDE I y.", b"$INCLUDE I a b", b"$TTLX 3", b"$", b"\"a\" A 1.2.3.4", b")", b"(", b"-a A 1.2.3.4", b"a_b A 1.2.3.4", b"a- A 1.2.3.4", b"a..b A 1.2.3.4", b".a A 1.2.3.4", b"y. A 1.2.3.4", b". A 1.2.3.4",
    b"zz. A 1.2.3.4", b"a.az. A 1.2.3.4", b"70 IN A", b"aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggg A 1.2.3.4", b"a TXT \xff", b"a \xc3\xa9 A 1.2.3.4", b"\xc3\xa9 A 1.2.3.4", b"a TXT \xc3\xa9",
];

/// Decimal fields with arbitrary digits.
pub fn numbers() {
    let k = choose(4);
    let n = 1 + choose(param(0, 4)) as usize;
    let lim: &[u8] = match choose(3) { 0 => b"", 1 => b"65", _ => b"42949672" };
    let mut ds = lim.to_vec();
    for _ in 0..n {
        ds.push(digit(0));
    }
    assume(ds.len() <= 11);
    let mut v: u64 = 0;
    for d in &ds {
        v = v * 10 + (*d - b'0') as u64;
    }
    let mut g = G::new(false);
    g.t.clear();
    g.exp.clear();
    let mut soa = [1u32, 2, 3, 4, 60];
    let mut soa_txt: Vec<Vec<u8>> = vec![b"1".to_vec(), b"2".to_vec(), b"3".to_vec(), b"4".to_vec(), b"60".to_vec()];
    let mut pref: &[u8] = b"7";
    let mut prefv = 7u64;
    let mut ttl: &[u8] = b"90";
    let mut ttlv = 90u64;
    let over = v > u32::MAX as u64;
    match k {
        0 => {
            let f = choose(5) as usize;
            soa_txt[f] = ds.clone();
            soa[f] = v as u32;
            if over || (f == 4 && v > 90) { g.bad = true; }
        }
        1 => { pref = &ds; prefv = v; if v > 65535 { g.bad = true; } }
        2 => { ttl = &ds; ttlv = v; if over || v < 60 { g.bad = true; } }
        _ => {
            // An octet of an address; the standard notation has no leading zeros.
            if v > 255 || (ds.len() > 1 && ds[0] == b'0') { g.bad = true; }
        }
    }
    g.put(b"@ IN 90 SOA n m");
    for t in &soa_txt { g.put(b" "); g.put(t); }
    let min = soa[4];
    g.put(b"\n@ 90 NS n\na ");
    g.put(ttl);
    g.put(b" MX ");
    g.put(pref);
    g.put(b" e\nb 90 A 1.");
    g.put(if k == 3 { &ds } else { b"5" });
    g.put(b".3.4\n");
    if !g.bad {
        cover("accepted");
        let mut d = vec![1, b'n', 1, b'z', 0, 1, b'm', 1, b'z', 0];
        for x in soa { p32(&mut d, x); }
        g.exp.push((b"z.".to_vec(), RecordType::SOA, rec(b"z.", 6, 90, &d)));
        g.exp.push((b"z.".to_vec(), RecordType::NS, rec(b"z.", 2, 90, &[1, b'n', 1, b'z', 0])));
        let mut d = vec![];
        p16(&mut d, prefv as u16);
        d.extend_from_slice(&[1, b'e', 1, b'z', 0]);
        g.exp.push((b"a.z.".to_vec(), RecordType::MX, rec(b"a.z.", 15, ttlv as u32, &d)));
        g.exp.push((b"b.z.".to_vec(), RecordType::A, rec(b"b.z.", 1, 90, &[1, if k == 3 { v as u8 } else { 5 }, 3, 4])));
        let _ = min;
    }
    g.judge();
}

/// The starting SOA: owner forms, TTL and class forms, and its absence.
pub fn soa() {
    let mut g = G::new(boolv());
    let zone = g.zone;
    g.t.clear();
    g.exp.clear();
    if boolv() { g.put(b" \n;c\n"); }
    match choose(7) {
        0 => g.put(b"@"),
        1 => {}
        2 => g.put(zone),
        3 => { g.put(b"y."); g.bad = true; }
        4 => { g.put(b"b"); g.bad = true; }
        5 => { let n = g.inside(b"b"); g.put(&n); g.bad = true; }
        _ => { g.put(b"c 90 A 1.2.3.4\n@"); g.bad = true; }
    }
    g.put(b" ");
    let (ttl, txt): (u32, &[u8]) = match choose(7) {
        0 => (90, b"90 IN"),
        1 => (90, b"IN 90"),
        2 => (75, b"IN"),
        3 => { g.bad = true; (90, b"90") }
        4 => { g.bad = true; (75, b"") }
        5 => { g.bad = true; (90, b"90 CH") }
        _ => (60, b"60 IN"),
    };
    g.put(txt);
    if boolv() { g.put(b" SOA n m") } else { g.bad = true; g.put(b" NS n m") }
    let min = match choose(3) { 0 => 60, 1 => 61, _ => 76 };
    match choose(4) {
        0 => g.put(b" ( 1 2\n3 4 "),
        1 => g.put(b" 1 2 3 4 "),
        2 => { g.put(b" 1 2 3 "); g.bad = true; }
        _ => { g.put(b" ( 1 2 3 4 4 "); g.bad = true; }
    }
    g.put(match min { 60 => b"60", 61 => b"61", _ => b"76" });
    if g.t.contains(&b'(') { g.put(b" )"); }
    g.put(b"\n@ 90 NS n\n");
    // TTL: explicit, inherited.
    if min > ttl { g.bad = true; }
    g.min = min;
    g.ttl = 90;
    let (n, m) = (g.abs(b"n", zone), g.abs(b"m", zone));
    let mut d = wire_name(&n);
    d.extend_from_slice(&wire_name(&m));
    for x in [1, 2, 3, 4, min] {
        p32(&mut d, x);
    }
    g.exp.push((zone.to_vec(), RecordType::SOA, rec(zone, 6, ttl, &d)));
    g.exp.push((zone.to_vec(), RecordType::NS, rec(zone, 2, 90, &wire_name(&n))));
    g.record(1, 1, 0, 0, false);
    g.judge();
}

fn lines(f: &mut Vec<u8>, owner: &[u8], ty: &[u8], data: &[u8]) {
    f.extend_from_slice(owner);
    f.extend_from_slice(b" 70 ");
    f.extend_from_slice(ty);
    f.extend_from_slice(b" ");
    f.extend_from_slice(data);
    f.extend_from_slice(b"\n");
}
/// README: NS records present and in the top node; only NS and A records in sub zones;
/// glue for the nameservers inside sub zones; addresses only for mentioned nameservers.
pub fn validate(n: u64) {
    let mut ok = true;
    let mut f = b"z. IN 90 SOA n m 1 2 3 4 60\n".to_vec();
    match choose(10) {
        0 | 1 => lines(&mut f, b"@", b"NS", b"n"),
        2 => { lines(&mut f, b"@", b"NS", b"n"); lines(&mut f, b"z.", b"NS", b"q.y."); }
        3 => { lines(&mut f, b"a", b"A", b"1.2.3.4"); ok = false; cover("no auth NS"); }
        4 => { lines(&mut f, b"@", b"NS", b"n"); lines(&mut f, b"b", b"NS", b"n"); ok = false; cover("low auth NS"); }
        5 => { lines(&mut f, b"@", b"NS", b"n"); lines(&mut f, b"s.z.", b"A", b"1.2.3.4"); ok = false; cover("delegated name"); }
        6 => { lines(&mut f, b"@", b"NS", b"n"); lines(&mut f, b"x.s", b"A", b"1.2.3.4"); ok = false; }
        7 => { lines(&mut f, b"@", b"NS", b"n"); lines(&mut f, b"X.S.Z.", b"A", b"1.2.3.4"); ok = false; }
        8 => { lines(&mut f, b"Z.", b"NS", b"n"); lines(&mut f, b"xs.Z.", b"A", b"1.2.3.4"); }
        _ => { lines(&mut f, b"@", b"NS", b"n"); f.extend_from_slice(b"$ORIGIN x.s.z.\n"); ok = false; }
    }
    // NS targets (bit per target) and addresses (bit per owner) of each sub zone.
    let targets: [&[u8]; 6] = [b"e.y.", b"n.z.", b"n.s.z.", b"s.z.", b"n.t.z.", b"x.s.z."];
    let ns_sets: &[u32] = &[0, 1, 2, 4, 8, 16, 20, 5, 36];
    let a_sets: &[u32] = &[0, 4, 8, 16, 12, 32];
    let (mut ns, mut ad) = ([0u32; 2], [0u32; 2]);
    let files2 = [("S", b"s.z." as &[u8], 0x2cu32), ("T", b"t.z.", 0x10)];
    // names are the same in any case
    let upper = boolv();
    let upper_zone: [&[u8]; 2] = [b"S.Z.", b"T.z."];
    for i in 0..n as usize {
        let mut t = vec![];
        ns[i] = ns_sets[choose(if i == 0 { 9 } else { 7 }) as usize];
        ad[i] = a_sets[choose(if i == 0 { 6 } else { 4 }) as usize] & files2[i].2;
        for b in 0..6 {
            if ns[i] >> b & 1 == 1 { lines(&mut t, if upper { upper_zone[i] } else { b"@" }, b"NS", targets[b]); }
        }
        for b in 0..6 {
            if ad[i] >> b & 1 == 1 {
                let o = if upper { targets[b].to_ascii_uppercase() } else { targets[b].to_vec() };
                lines(&mut t, &o, b"A", b"1.2.3.4");
            }
        }
        if ns[i] == 0 { ok = false; cover("no sub NS"); }
        files::add(files2[i].0, t);
    }
    for i in 0..n as usize {
        for b in 0..6 {
            // Glue for the nameservers inside a sub zone, in that sub zone.
            if ns[i] >> b & 1 == 1 {
                for k in 0..n as usize {
                    if files2[k].2 >> b & 1 == 1 && ad[k] >> b & 1 == 0 { ok = false; cover("no glue"); }
                }
            }
            // Addresses of nameservers only.
            if ad[i] >> b & 1 == 1 {
                let mut m = 0;
                for k in 0..n as usize { m |= ns[k]; }
                if m >> b & 1 == 0 { ok = false; cover("stray address"); }
            }
        }
    }
    files::add("F", f);
    let subs = [Sub(b"s.z.", "S", 80, 60), Sub(b"t.z.", "T", 80, 60)];
    let got = parse_with(b"z.", 75, if n == 2 { &subs } else { &subs[..1] });
    match got {
        None => { check(!ok, "a valid configuration of zones is rejected"); cover("rejected"); }
        Some(z) => {
            check(ok, "an invalid configuration of zones is accepted");
            cover("accepted");
            check(z.sub_zones.len() == n as usize && z.auth_zone.zone == name_of(b"z."), "wrong zones");
            for i in 0..n as usize {
                let s = &z.sub_zones[i];
                check(s.zone == name_of(files2[i].1), "wrong sub zone");
                check(s.get_all_of_type(RecordType::NS).len() == ns[i].count_ones() as usize, "wrong sub zone nameservers");
                check(s.get_all_of_type(RecordType::A).len() == ad[i].count_ones() as usize, "wrong sub zone addresses");
            }
        }
    }
}

/// The entries of a sub zone file: names, TTLs, allowed types, no directives.
pub fn sub_entries() {
    let mut g = G::new(false);
    let main = std::mem::take(&mut g.t);
    g.exp.clear();
    g.zone = b"s.z.";
    g.origin = b"s.z.".to_vec();
    g.ttl = 77;
    g.min = 66;
    g.put(b"s.z. 78 IN NS n\n");
    g.exp.push((b"s.z.".to_vec(), RecordType::NS, rec(b"s.z.", 2, 78, b"\x01n\x01s\x01z\x00")));
    g.ttl = 78;
    if boolv() {
        // No TTL anywhere before.
        g.t.clear();
        g.ttl = 77;
        g.exp.clear();
        g.put(b"@ NS n\n");
        g.exp.push((b"s.z.".to_vec(), RecordType::NS, rec(b"s.z.", 2, 77, b"\x01n\x01s\x01z\x00")));
    }
    let style = choose(3);
    let sp: &[u8] = match style { 0 => b" ", 1 => b"\t \t", _ => b"\n ;)\n" };
    // The address of the nameserver, in some form.
    let own = match choose(6) {
        0 => { g.put(b"n"); b"n.s.z.".to_vec() }
        1 => { g.put(b"n.s.z."); b"n.s.z.".to_vec() }
        2 => { g.put(b"n.z."); g.bad = true; vec![] }
        3 => { g.put(b"n.t.z."); g.bad = true; vec![] }
        4 => { g.put(b"n.zs.z."); g.bad = true; vec![] }
        _ => { g.put(b"n.s.zz."); g.bad = true; vec![] }
    };
    g.put(b" ");
    if style == 2 { g.put(b"("); }
    let ttl = g.ttl_class(choose(TTLS), sp);
    g.put(b"A");
    g.put(sp);
    let (x, y) = (digit(0), digit(1));
    g.put(&[b'1', b'0', b'.', x, b'.', y, x, b'.', b'2', b'5', b'5']);
    if style == 2 { g.put(b")"); }
    if style == 1 { g.put(b" ;("); }
    g.put(b"\n");
    g.exp.push((own.clone(), RecordType::A, rec(if g.bad { b"." } else { &own }, 1, ttl, &[10, x - b'0', (y - b'0') * 10 + (x - b'0'), 255])));
    g.ttl = ttl;
    let (z, s): (&[u8], &[u8]) = (b"s.z.", b"\x01e\x01s\x01z\x00");
    let _ = s;
    match choose(20) {
        0 => {}
        1 => { g.put(b"@ NS e.y.\n"); let t = g.ttl; g.exp.push((z.to_vec(), RecordType::NS, rec(z, 2, t, b"\x01e\x01y\x00"))); }
        2 => { g.put(b" NS e.y.\n"); let t = g.ttl; g.exp.push((z.to_vec(), RecordType::NS, rec(z, 2, t, b"\x01e\x01y\x00"))); }
        3 => { g.put(b"n.s.z. A 9.9.9.9\n"); let t = g.ttl; g.exp.push((b"n.s.z.".to_vec(), RecordType::A, rec(b"n.s.z.", 1, t, &[9, 9, 9, 9]))); }
        4 => { g.put(b"\n \t\n ;x\n"); }
        k => {
            g.bad = true;
            g.put(match k {
                5 => b"$ORIGIN s.z.\n",
                6 => b"$INCLUDE I\n",
                7 => b"@ CNAME e.y.\n",
                8 => b"@ MX 1 e.y.\n",
                9 => b"@ TXT a\n",
                10 => b"@ SOA n m 1 2 3 4 60\n",
                11 => b"@ HINFO a b\n",
                12 => b"@ PTR e.y.\n",
                13 => b"@ WKS 1.2.3.4 tcp a\n",
                14 => b"n NS e.y.\n",
                15 => b"@ AAAA ::1\n",
                16 => b"@ CH NS e.y.\n",
                17 => b"@ NS e.y. x\n",
                18 => b"@ A 1.2.3.4\n",
                _ => b"@ 65 NS e.y.\n",
            });
        }
    }
    let bad = g.bad;
    let mut t = std::mem::take(&mut g.t);
    if boolv() { t.pop(); }
    #[cfg(feature = "native")]
    if std::env::var("VP_SHOW").is_ok() { println!("---\n{}\n---", String::from_utf8_lossy(&t)); }
    files::add("F", main);
    files::add("S", t);
    files::add("I", vec![]);
    let zz = parse_with(b"z.", 75, &[Sub(b"s.z.", "S", 77, 66)]);
    match zz {
        None => { check(bad, "a well-formed sub zone file is rejected"); cover("rejected"); }
        Some(mut m) => {
            check(!bad, "a malformed sub zone file is accepted");
            cover("accepted");
            g.compare(&m.sub_zones.remove(0));
        }
    }
}

/// Long files, lines, words and lists, and deep inclusion.
pub fn long() {
    const N: [usize; 12] = [8, 15, 16, 17, 33, 64, 65, 128, 129, 255, 256, 257];
    let n = N[choose(12) as usize];
    let mut g = G::new(false);
    g.context(choose(2) * 3);
    let z = g.zone;
    match choose(15) {
        0 => for i in 0..n {
            // many names
            let l = format!("x{}", i);
            g.t.extend_from_slice(format!("{} A 10.0.{}.{}\n", l, i / 256, i % 256).as_bytes());
            let (o, t) = (g.inside(l.as_bytes()), g.ttl);
            g.exp.push((o.clone(), RecordType::A, rec(&o, 1, t, &[10, 0, (i / 256) as u8, (i % 256) as u8])));
        },
        1 => for i in 0..n {
            // many records at one name
            g.t.extend_from_slice(format!("x MX {} e.\n", i).as_bytes());
            let (o, t) = (g.inside(b"x"), g.ttl);
            g.exp.push((o.clone(), RecordType::MX, rec(&o, 15, t, &[(i >> 8) as u8, i as u8, 1, b'e', 0])));
        },
        2 => for _ in 0..n { g.put(b"; comment\n\n \t\n") },
        3 => {
            // many blanks
            g.put(b"x");
            for _ in 0..n { g.put(b" "); }
            g.put(b"A");
            for _ in 0..n { g.put(b"\t "); }
            g.put(b"1.2.3.4");
            for _ in 0..n { g.put(b" "); }
            g.put(b"\n");
            let (o, t) = (g.inside(b"x"), g.ttl);
            g.exp.push((o.clone(), RecordType::A, rec(&o, 1, t, &[1, 2, 3, 4])));
        }
        k @ (4 | 5) => {
            // many strings, on one line or on many
            g.put(b"x TXT (");
            let mut d = vec![];
            for i in 0..n {
                let w = format!("w{}", i);
                if k == 5 { g.put(b"\n"); }
                g.put(b" ");
                g.t.extend_from_slice(w.as_bytes());
                d.push(w.len() as u8);
                d.extend_from_slice(w.as_bytes());
            }
            g.put(b")\n");
            let (o, t) = (g.inside(b"x"), g.ttl);
            g.exp.push((o.clone(), RecordType::TXT, rec(&o, 16, t, &d)));
        }
        k @ (6 | 7 | 8) => {
            // one string of n octets: a word, quoted with blanks, or of escapes
            g.put(b"x TXT ");
            if k == 7 { g.put(b"\""); }
            let mut d = vec![n as u8];
            for i in 0..n {
                match k {
                    6 => { g.put(b"w"); d.push(b'w'); }
                    7 => { let c = if i % 2 == 0 { b' ' } else { b';' }; g.put(&[c]); d.push(c); }
                    _ => { g.put(b"\\097"); d.push(97); }
                }
            }
            if k == 7 { g.put(b"\""); }
            g.put(b"\n");
            if n > 255 { g.bad = true; }
            let (o, t) = (g.inside(b"x"), g.ttl);
            g.exp.push((o.clone(), RecordType::TXT, rec(&o, 16, t, &d)));
        }
        9 => {
            // a name of n octets, all of them below the zone
            let mut x = vec![];
            let mut left = n;
            while left > 4 {
                let k = if left > 64 + 4 { 63 } else { left - 4 - if left == 68 { 1 } else { 0 } };
                x.extend(std::iter::repeat(b'n').take(k));
                x.push(b'.');
                left -= k + 1;
            }
            x.extend_from_slice(b"z.");
            if wire_name(&x).len() > 255 { g.bad = true; }
            g.t.extend_from_slice(&x);
            g.put(b" A 1.2.3.4\n");
            if !g.bad {
                let t = g.ttl;
                g.exp.push((x.clone(), RecordType::A, rec(&x, 1, t, &[1, 2, 3, 4])));
            }
        }
        10 => for i in 0..n {
            // many origins
            let l = format!("x{}", i);
            let o = g.inside(l.as_bytes());
            g.put(b"$ORIGIN ");
            g.t.extend_from_slice(&o);
            g.put(b"\n");
            g.origin = o;
        },
        11 => {
            // one file included again and again
            let k = n.min(20);
            for i in 0..k {
                g.t.extend_from_slice(format!("$INCLUDE J x{}.z.\n", i).as_bytes());
                let o = g.inside(format!("x{}", i).as_bytes());
                let o = [b"j.", &o[..]].concat();
                g.exp.push((o.clone(), RecordType::A, rec(&o, 1, 88, &[9, 9, 9, 9])));
            }
        }
        12 => {
            // files that include one another, deeper and deeper
            const D: [&str; 17] = ["D0", "D1", "D2", "D3", "D4", "D5", "D6", "D7", "D8", "D9", "D10", "D11", "D12", "D13", "D14", "D15", "D16"];
            let k = n.min(17);
            g.t.extend_from_slice(b"$INCLUDE D0 d.z.\n");
            for i in 0..k {
                let mut f = format!("y{} 81 A 1.1.1.{}\n", i, i).into_bytes();
                if i + 1 < k { f.extend_from_slice(format!("$INCLUDE {}\n", D[i + 1]).as_bytes()); }
                f.extend_from_slice(format!("v{} 82 A 1.1.1.{}\n", i, i).as_bytes());
                files::add(D[i], f);
                for (c, t) in [("y", 81), ("v", 82)] {
                    let o = [format!("{}{}.d.", c, i).as_bytes(), z].concat();
                    g.exp.push((o.clone(), RecordType::A, rec(&o, 1, t, &[1, 1, 1, i as u8])));
                }
            }
        }
        13 => {
            // the reader's buffer ends within or beside a record
            let k = g.t.len() + 20;
            g.put(b";");
            for _ in k..8192 - 16 + n % 32 { g.put(b"c"); }
            g.put(b"\n");
        }
        _ => {
            // many services
            g.put(b"x WKS 1.2.3.4 tcp");
            for _ in 0..n { g.put(b" a"); }
            g.put(b"\n");
            let (o, t) = (g.inside(b"x"), g.ttl);
            g.exp.push((o.clone(), RecordType::WKS, rec(&o, 11, t, &[1, 2, 3, 4, 6])));
        }
    }
    g.record(1, 0, 0, 0, true);
    g.judge();
}

/// Many sub zones with many nameservers and addresses each; one thing wrong, or nothing.
pub fn validate_many() {
    let n = [1, 3, 17][choose(3) as usize];
    let k = [1, 3, 9][choose(3) as usize];
    let per = [1, 3][choose(2) as usize];
    let wrong = choose(11);
    // Where: first, in the middle or last.
    let at = |on: bool, n: usize| if on && n > 1 { [0, n / 2, n - 1][choose(3) as usize] } else { 0 };
    let (wi, wj) = (at(wrong > 0 && wrong != 5, n), at(wrong > 6 && wrong < 10, k));
    let x = u8v();
    assume(is_alnum(x));
    let x = (x as char).to_string();
    let mut bad = true;
    let mut f = String::from("z. IN 90 SOA n m 1 2 3 4 60\n");
    for j in 0..k {
        f += &format!("@ NS n{}\n", j);
        f += &format!("a{} A 10.0.0.{}\n", j, j);
    }
    match wrong {
        1 => f += &format!("{}.s{} A 1.2.3.4\n", x, wi),
        2 => {
            f += "$INCLUDE J\n";
            files::add("J", format!("a A 1.2.3.4\n{}.s{} A 1.2.3.4\n", x, wi).into_bytes());
        }
        3 => {
            f += &format!("$INCLUDE J s{}.z.\n", wi);
            files::add("J", b"@ A 1.2.3.4\n".to_vec());
        }
        4 => {
            f += "$INCLUDE J\n";
            files::add("J", b"$INCLUDE K\n".to_vec());
            files::add("K", format!("s{}.z. MX 1 a\n", wi).into_bytes());
        }
        5 => f += "low NS n0\n",
        _ => {}
    }
    files::add("F", f.into_bytes());
    let mut subs = vec![];
    let (mut nns, mut na) = (vec![0; n], vec![0; n]);
    for i in 0..n {
        let zone: &'static [u8] = Box::leak(format!("s{}.z.", i).into_bytes().into_boxed_slice());
        let file: &'static str = Box::leak(format!("S{}", i).into_boxed_str());
        let mut t = String::new();
        for j in 0..k {
            if (wrong, i) != (6, wi) {
                t += &format!("@ NS n{}\n", j);
                nns[i] += 1;
            }
            for p in 0..per {
                if (wrong, i, j) != (7, wi, wj) && (wrong, i) != (6, wi) {
                    t += &format!("n{} A 10.1.{}.{}\n", j, j, p);
                    na[i] += 1;
                }
            }
        }
        if i == wi {
            match wrong {
                // a nameserver in another sub zone, without or with an address there
                8 => { t += &format!("@ NS q.s{}.z.\n", wj % n); nns[i] += 1; }
                9 => {
                    t += &format!("@ NS n{}.s{}.z.\n", wj, n - 1 - i);
                    nns[i] += 1;
                    bad = false;
                }
                10 => { t += &format!("{} A 1.2.3.4\n", x); }
                _ => {}
            }
        }
        files::add(file, t.into_bytes());
        subs.push(Sub(zone, file, 80, 60));
    }
    if wrong == 0 { bad = false }
    match parse_with(b"z.", 75, &subs) {
        None => { check(bad, "a valid configuration of zones is rejected"); cover("rejected"); }
        Some(z) => {
            check(!bad, "an invalid configuration of zones is accepted");
            cover("accepted");
            check(z.sub_zones.len() == n, "wrong zones");
            for i in 0..n {
                let s = &z.sub_zones[i];
                check(s.zone == name_of(subs[i].0), "wrong sub zone");
                check(s.get_all_of_type(RecordType::NS).len() == nns[i], "wrong sub zone nameservers");
                check(s.get_all_of_type(RecordType::A).len() == na[i], "wrong sub zone addresses");
            }
        }
    }
}
