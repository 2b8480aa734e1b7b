//! Harnesses for the wire codec (src/shared/buffer, src/shared/dns).
use ariadne_dns::shared::buffer::*;
use ariadne_dns::shared::dns::*;
use symrt::*;
mod model;
use model::*;
mod records;
mod wire;
use wire::text;

fn is_err<T, E>(r: &Result<T, E>) -> bool {
    r.is_err()
}
fn name_of(t: &[u8]) -> Name {
    match Name::from_string(unsafe { std::str::from_utf8_unchecked(t) }) {
        Ok(n) => n,
        Err(_) => {
            check(false, "a valid absolute name is rejected");
            loop {}
        }
    }
}

// ---------------------------------------------------------------- C01 bit buffer
/// Reference: a plain sequence of bits plus two cursors.
struct Bits {
    v: Vec<u8>,
    r: usize,
    w: usize,
}
impl Bits {
    fn read(&mut self, n: usize) -> Option<u64> {
        if self.r + n > self.v.len() {
            return None;
        }
        let mut x = 0u64;
        for i in 0..n {
            x = (x << 1) | self.v[self.r + i] as u64;
        }
        self.r += n;
        Some(x)
    }
    fn write(&mut self, x: u64, n: usize) {
        for i in 0..n {
            let b = ((x >> (n - 1 - i)) & 1) as u8;
            if self.w < self.v.len() {
                self.v[self.w] = b
            } else {
                self.v.push(b)
            }
            self.w += 1;
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![0u8; (self.v.len() + 7) / 8];
        for (i, b) in self.v.iter().enumerate() {
            o[i / 8] |= *b << (7 - i % 8);
        }
        o
    }
}
fn opt_eq(got: Option<u64>, want: Option<u64>) {
    check(got.is_some() == want.is_some(), "a read succeeds exactly when enough bits remain");
    if let (Some(a), Some(b)) = (got, want) {
        check(a == b, "a read returns the next bits, most significant first");
    }
}
fn bit_op(buf: &mut BitsBuf, m: &mut Bits) {
    match choose(11) {
        0 => {
            let n = choose(9);
            let g = buf.read_bits(n as u8).map(|x| x as u64);
            opt_eq(g, m.read(n as usize));
            cover("read_bits");
        }
        1 => {
            let n = 1 + choose(8);
            let x = u8v();
            buf.write_bits(x, n as u8);
            m.write(x as u64, n as usize);
            cover("write_bits");
        }
        2 => opt_eq(buf.read_u8().map(|x| x as u64), m.read(8)),
        3 => opt_eq(buf.read_u16().map(|x| x as u64), m.read(16)),
        4 => opt_eq(buf.read_u32().map(|x| x as u64), m.read(32)),
        5 => {
            let x = u8v();
            buf.write_u8(x);
            m.write(x as u64, 8);
        }
        6 => {
            let x = u16v();
            buf.write_u16(x);
            m.write(x as u64, 16);
        }
        7 => {
            let x = u32v();
            buf.write_u32(x);
            m.write(x as u64, 32);
        }
        8 => {
            let b: [u8; 3] = bytes();
            let n = choose(4) as usize;
            buf.write_bytes(&b[..n]);
            for i in 0..n {
                m.write(b[i] as u64, 8);
            }
        }
        9 => {
            if choose(2) == 0 {
                let g = buf.read_bytes::<2>();
                opt_eq(g.map(|b| be16(&b, 0) as u64), m.read(16));
            } else {
                let n = choose(4);
                let g = buf.read_bytes_vec(n as usize);
                let w = m.read(n as usize * 8);
                check(g.is_some() == w.is_some(), "a byte run is read exactly when it is there");
                if let (Some(g), Some(w)) = (g, w) {
                    check(g.len() == n as usize, "byte run length");
                    let mut x = 0;
                    for b in &g {
                        x = (x << 8) | *b as u64;
                    }
                    check(x == w, "byte run content");
                }
            }
            cover("read_bytes");
        }
        _ => {
            let l = choose(m.v.len() as u64 + 2) as usize;
            buf.truncate(l);
            if l < m.v.len() {
                m.v.truncate(l);
                m.r = m.r.min(l);
                m.w = m.w.min(l);
            }
            cover("truncate");
        }
    }
}

fn set_cursors(buf: &mut BitsBuf, m: &mut Bits, r: usize, w: usize) {
    if (r ^ w) & 1 == 0 {
        buf.set_read_pos(r);
        buf.set_write_pos(w);
    } else {
        buf.set_write_pos(w);
        buf.set_read_pos(r);
    }
    m.r = r;
    m.w = w;
    check(buf.read_pos() == r, "read position");
    check(buf.write_pos() == w, "write position");
}

harnesses! {
/// Long buffers and runs of bytes at any bit offset.
fn h_bits_long() {
    const N: [usize; 11] = [31, 32, 33, 127, 128, 255, 256, 257, 511, 1023, 8191];
    let n = N[choose(param(0, 10)) as usize];
    let sh = choose(8) as usize;
    let (a, z): ([u8; 2], u8) = (bytes(), u8v());
    let mut buf = BitsBuf::new();
    let mut m = Bits { v: vec![], r: 0, w: 0 };
    if sh > 0 {
        buf.write_bits(z, sh as u8);
        m.write(z as u64, sh);
    }
    // a run of n bytes, arbitrary at its ends
    let mut run = vec![0x5a; n];
    for i in 0..n { run[i] = (i * 7) as u8 }
    run[0] = a[0];
    run[n - 1] = a[1];
    buf.write_bytes(&run);
    for b in &run { m.write(*b as u64, 8) }
    check(buf.len() == sh + n * 8 && buf.write_pos() == sh + n * 8 && buf.read_pos() == 0, "buffer length in bits");
    // read it back, whole or less, from any bit
    let from = [0, sh, sh + 1, 8, n * 8 - 9][choose(5) as usize];
    let (r, w) = (from, [0, from, n * 8 + sh][(n + sh + from) % 3]);
    set_cursors(&mut buf, &mut m, r, w);
    let want = [1, n / 2, n - 1, n, n + 1][choose(5) as usize];
    let g = buf.read_bytes_vec(want);
    if r + want * 8 <= m.v.len() {
        match g {
            None => check(false, "a byte run is read exactly when it is there"),
            Some(g) => {
                check(g.len() == want, "byte run length");
                let mut e = vec![0u8; want];
                for i in 0..want * 8 { e[i / 8] |= m.v[r + i] << (7 - i % 8) }
                check(bytes_eq(&g, &e), "byte run content");
                cover("run");
            }
        }
        m.r += want * 8;
    } else {
        check(g.is_none(), "a byte run is read exactly when it is there");
        cover("too long");
    }
    check(buf.read_pos() == m.r && buf.write_pos() == m.w, "no other cursor moves");
    let x = u32v();
    match choose(4) {
        0 => { buf.write_u32(x); m.write(x as u64, 32); }
        1 => { buf.write_u16(x as u16); m.write((x as u16) as u64, 16); }
        2 => { let l = m.v.len() - choose(17) as usize; buf.truncate(l); m.v.truncate(l); m.r = m.r.min(l); m.w = m.w.min(l); }
        _ => opt_eq(buf.read_u32().map(|x| x as u64), m.read(32)),
    }
    check(buf.read_pos() == m.r && buf.write_pos() == m.w && buf.len() == m.v.len(), "positions and length");
    let out = buf.into_vec();
    check(bytes_eq(&out, &m.bytes()), "final bytes");
}
/// Arbitrary buffer content, length, cursors; then any operations.
fn h_bits() {
    let nb = choose(param(0, 3) + 1) as usize;
    let raw = bytes_vec(nb);
    let mut buf = BitsBuf::from_raw_bytes(&raw);
    let mut m = Bits { v: vec![], r: 0, w: 0 };
    for i in 0..nb * 8 {
        m.v.push((raw[i / 8] >> (7 - i % 8)) & 1);
    }
    m.w = m.v.len();
    if nb > 0 {
        let l = m.v.len() - choose(8) as usize;
        buf.truncate(l);
        m.v.truncate(l);
        m.w = l;
    }
    let r = choose(m.v.len() as u64 + 1) as usize;
    let w = choose(m.v.len() as u64 + 1) as usize;
    set_cursors(&mut buf, &mut m, r, w);
    for _ in 0..param(1, 1) {
        bit_op(&mut buf, &mut m);
    }
    check(buf.read_pos() == m.r, "read position");
    check(buf.write_pos() == m.w, "write position");
    check(buf.len() == m.v.len(), "buffer length in bits");
    // the whole content, through the public reading interface
    buf.set_read_pos(0);
    let mut i = 0;
    while let Some(b) = buf.read_bits(1) {
        check(i < m.v.len(), "buffer length in bits");
        check(b == m.v[i], "stored bit");
        i += 1;
    }
    check(i == m.v.len(), "buffer length in bits");
    let out = buf.into_vec();
    check(bytes_eq(&out, &m.bytes()), "final bytes");
}

// ---------------------------------------------------------------- C02 header
fn h_header() {
    let b: [u8; 12] = bytes();
    let extra = choose(3) as usize;
    let mut all = b.to_vec();
    all.extend_from_slice(&bytes_vec(extra));
    let mut rb = BitsBuf::from_raw_bytes(&all);
    let r = Header::decode_from_buf(&mut rb);
    check(Header::decode_from_bytes(&all).is_ok() == r.is_ok(), "both decoding entry points agree");
    let w = be16(&b, 2);
    let opc = (w >> 11) & 15;
    let rc = w & 15;
    check(r.is_ok() == and(opc <= 2, rc <= 5), "a header decodes exactly when its opcode and rcode are known");
    let h = match r {
        Ok(h) => h,
        Err(_) => { cover("unknown code"); return }
    };
    cover("decoded");
    check(rb.read_pos() == 96, "a header is 12 bytes");
    check(h.id == be16(&b, 0), "id");
    check(h.query_resp == (w >> 15 == 1), "QR");
    check(h.op_code.to_num() as u16 == opc, "OPCODE");
    check(h.auth_answer == ((w >> 10) & 1 == 1), "AA");
    check(h.truncated == ((w >> 9) & 1 == 1), "TC");
    check(h.recursion_desired == ((w >> 8) & 1 == 1), "RD");
    check(h.recursion_available == ((w >> 7) & 1 == 1), "RA");
    check(h.z as u16 == (w >> 4) & 7, "Z");
    let rcn = match h.resp_code { RespCode::NoError => 0, RespCode::FormErr => 1, RespCode::ServFail => 2, RespCode::NxDomain => 3, RespCode::NotImp => 4, RespCode::Refused => 5 };
    check(rcn == rc, "RCODE");
    check(h.questions_count == be16(&b, 4), "QDCOUNT");
    check(h.answers_count == be16(&b, 6), "ANCOUNT");
    check(h.authorities_count == be16(&b, 8), "NSCOUNT");
    check(h.additionals_count == be16(&b, 10), "ARCOUNT");
    check(h.is_request() == !h.query_resp, "request flag");
    let mut buf = BitsBuf::new();
    h.encode_to_buf(&mut buf);
    let v = buf.into_vec();
    check(bytes_eq(&v, &b), "encoding a decoded header gives the same 12 bytes");
}
/// Fewer than 12 bytes never decode and never crash.
fn h_header_short() {
    let n = choose(12) as usize;
    let b = bytes_vec(n);
    check(Header::decode_from_bytes(&b).is_err(), "a short header is rejected");
}

// ---------------------------------------------------------------- C04 names as text
/// Any string: accepted exactly when it is an absolute LDH name in the size limits,
/// and then it survives the wire.
fn h_name_text() {
    let n = choose(param(0, 6) + 1) as usize;
    let b = bytes_vec(n);
    let s = match std::str::from_utf8(&b) { Ok(s) => s, Err(_) => return };
    let r = Name::from_string(s);
    // reference
    let mut ok = n >= 1 && b[n - 1] == b'.';
    if ok && n > 1 {
        let mut st = 0;
        for i in 0..n {
            if b[i] == b'.' {
                if !label_ok(&b[st..i]) { ok = false; break }
                st = i + 1;
            }
        }
    }
    check(r.is_ok() == ok, "a text name is accepted exactly when it is a valid absolute name");
    if let Ok(name) = r {
        cover("valid");
        roundtrip(&name, &b);
    } else { cover("invalid") }
}
/// Long labels and names around the 63 and 255 octet limits.
fn h_name_limits() {
    let mut t: Vec<u8> = vec![];
    let mut ok = true;
    let k = 1 + choose(5);
    let fill = [b'a', b'7', b'-'][choose(if k < 3 { 3 } else { 1 }) as usize];
    for _ in 0..k {
        let l = match choose(5) { 0 => 1, 1 => 61, 2 => 62, 3 => 63, _ => 64 };
        if l > 63 { ok = false }
        let first = u8v();
        assume(is_alnum(first));
        t.push(first);
        for _ in 2..l { t.push(fill) }
        if l > 1 { t.push(b'a') }
        t.push(b'.');
    }
    if t.len() + 1 > 255 { ok = false; cover("too long") }
    let s = unsafe { std::str::from_utf8_unchecked(&t) };
    let r = Name::from_string(s);
    check(r.is_ok() == ok, "label and name size limits (63 and 255 octets on the wire)");
    if t.len() + 1 == 255 { cover("exactly 255") }
    if let Ok(name) = r { roundtrip(&name, &t); cover("valid") }
    // the same limits on the wire
    let mut w = wire_name(&t);
    let end = w.len();
    w.push(7);
    let mut buf = BitsBuf::from_raw_bytes(&w);
    let d = Name::from_bytes(&mut buf);
    check(d.is_ok() == ok, "size limits on the wire");
    if let Ok(d) = d { check(bytes_eq(text(&d), &t), "long name text"); check(buf.read_pos() == end * 8, "long name end") }
}
/// Names with other than ASCII characters are not valid, wherever these are.
fn h_name_unicode() {
    const C: [&str; 14] = ["\u{e9}", "\u{df}", "\u{130}", "\u{131}", "\u{17f}", "\u{212a}", "\u{661}", "\u{ff11}", "\u{ff21}", "\u{ff0e}", "\u{3002}", "\u{ad}", "\u{1d7cf}", "\u{2010}"];
    let c = C[choose(14) as usize];
    let l = [1, 2, 3, 30, 62, 63, 64][choose(7) as usize];
    let at = match choose(4) { 0 => 0, 1 => 1, 2 => l / 2, _ => l - 1 };
    let (a, x) = ([b'a', b'9'][choose(2) as usize] as char, u8v());
    assume(is_alnum(x));
    let mut t = String::new();
    for i in 0..l {
        if i == at { t.push_str(c) } else { t.push(a) }
    }
    let t = match choose(4) { 0 => format!("{}.", t), 1 => format!("{}.{}.", t, x as char), 2 => format!("{}.{}.", x as char, t), _ => format!("{}.{}.{}.", x as char, t, a) };
    if at < l {
        check(Name::from_string(&t).is_err(), "a text name is accepted exactly when it is a valid absolute name");
        // nor on the wire
        let w = wire_name(t.as_bytes());
        if t.split('.').all(|p| p.len() < 64) {
            check(Name::from_bytes(&mut BitsBuf::from_raw_bytes(&w)).is_err(), "an ill-formed name is rejected");
            cover("wire");
        }
        cover("invalid");
    }
}
/// Every total length around 255, uncompressed and through a pointer.
fn h_name_limits2() {
    let last = 1 + choose(63) as usize;
    let mut t: Vec<u8> = vec![];
    for _ in 0..3 { for _ in 0..param(0, 63) { t.push(b'b') } t.push(b'.') }
    let c = u8v();
    assume(is_alnum(c));
    for _ in 0..last { t.push(c) }
    t.push(b'.');
    let ok = t.len() + 1 <= 255;
    let r = Name::from_string(unsafe { std::str::from_utf8_unchecked(&t) });
    check(r.is_ok() == ok, "names longer than 255 octets are rejected, others accepted");
    if let Ok(n) = r { roundtrip(&n, &t) }
    // suffix first, then the last label and a pointer to the suffix
    let mut w = wire_name(&t[..192]);
    let start = w.len();
    w.push(last as u8);
    for _ in 0..last { w.push(c) }
    w.push(0xc0);
    w.push(0);
    let mut buf = BitsBuf::from_raw_bytes(&w);
    buf.set_read_pos(start * 8);
    let d = Name::from_bytes(&mut buf);
    check(d.is_ok() == ok, "compressed names obey the same limit");
    if ok { cover("within") } else { cover("beyond") }
    if d.is_ok() { check(buf.read_pos() == w.len() * 8, "position after pointer") }
}

// ---------------------------------------------------------------- C05 names on the wire
/// Any bytes, any start offset: the decoder agrees with the RFC reference.
fn h_name() {
    let n = choose(param(0, 7) + 1) as usize;
    let b = bytes_vec(n);
    let start = choose(n as u64 + 1) as usize;
    name_vs_ref(&b, start);
}
/// Larger messages made of plain label characters, pointers and terminators.
fn h_name_big() {
    let n = param(0, 12) as usize;
    let mut b = vec![];
    for _ in 0..n {
        let v = u8v();
        // terminator, short labels, a letter, pointers into the first 16 bytes
        assume(or(or(v <= 3, v == b'x'), or(v == b'-', or(v == 0xc0, and(v >= 4, v <= 15)))));
        b.push(v);
    }
    let start = choose(2) as usize * (n - 5);
    name_vs_ref(&b, start);
}

// ---------------------------------------------------------------- C09 code tables
fn h_types() {
    let n = u16v();
    let want: &[(u16, &str, bool)] = &[(1, "A", true), (2, "NS", true), (3, "MD", false), (4, "MF", false), (5, "CNAME", true), (6, "SOA", true), (7, "MB", false),
        (8, "MG", false), (9, "MR", false), (10, "NULL", false), (11, "WKS", true), (12, "PTR", true), (13, "HINFO", true), (14, "MINFO", false), (15, "MX", true),
        (16, "TXT", true), (252, "AXFR", false), (253, "MAILB", false), (254, "MAILA", false), (255, "*", false)];
    let mut known = false;
    for (v, s, sup) in want {
        if n == *v {
            known = true;
            let t = match RecordType::from_num(n) { Ok(t) => t, Err(_) => { check(false, "a known type number is rejected"); return } };
            check(t.to_num() == n, "type number round trip");
            check(t.to_str() == *s, "type mnemonic");
            match RecordType::from_str(s) { Ok(x) => check(x == t && x.to_num() == n, "mnemonic round trip"), Err(_) => check(false, "mnemonic rejected") }
            check(t.is_supported_for_records() == *sup, "record support");
            check(t.is_supported_for_question() == *sup, "question support");
            cover("known type");
        }
    }
    if !known { check(RecordType::from_num(n).is_err(), "an unknown type number is rejected"); cover("unknown type") }
    let c = u16v();
    let mut known = false;
    for (v, s) in [(1u16, "IN"), (2, "CS"), (3, "CH"), (4, "HS"), (255, "*")] {
        if c == v {
            known = true;
            match Class::from_num(c) { Ok(k) => { check(k.to_num() == c, "class number round trip"); check(k.is_supported() == (v == 1), "only class IN is supported") } Err(_) => check(false, "known class rejected") }
            match Class::from_string(s) { Ok(k) => check(k.to_num() == c, "class mnemonic"), Err(_) => check(false, "class mnemonic rejected") }
        }
    }
    if !known { check(Class::from_num(c).is_err(), "unknown class rejected"); cover("unknown class") }
    let o = u8v();
    match OpCode::from_num(o) { Ok(k) => { check(k.to_num() == o, "opcode round trip"); check(o <= 2, "opcode range") } Err(_) => check(o > 2, "opcode range") }
}
/// Question: every type and class number.
fn h_question_codes() {
    let t = gen_name(choose(2));
    let mut w = wire_name(&t);
    let (ty, cl) = (u16v(), u16v());
    p16(&mut w, ty);
    p16(&mut w, cl);
    let end = w.len();
    w.push(u8v());
    let mut buf = BitsBuf::from_raw_bytes(&w);
    let r = Question::decode_from_buf(&mut buf);
    let known = or(and(ty >= 1, ty <= 16), and(ty >= 252, ty <= 255));
    if !known {
        check(matches!(r, Err(ParsingErr::UnknownType(_))), "an unknown question type is reported as such");
        check(buf.read_pos() == end * 8, "the unknown question is consumed");
        cover("unknown");
        return;
    }
    let sup = records::SUPPORTED.iter().any(|s| *s == ty);
    if !sup {
        check(matches!(r, Err(ParsingErr::UnsupportedType(_))), "an unsupported question type is reported as such");
        cover("unsupported");
        return;
    }
    if cl != 1 {
        check(r.is_err(), "only class IN questions are accepted");
        let known = or(and(cl >= 2, cl <= 4), cl == 255);
        check(known == matches!(r, Err(ParsingErr::UnsupportedClass(_))), "unsupported versus unknown class");
        cover("class");
        return;
    }
    match r {
        Ok(q) => {
            check(bytes_eq(text(&q.node), &t), "question name");
            check(q.record_type.to_num() == ty, "question type");
            check(q.class.to_num() == 1, "question class");
            check(buf.read_pos() == end * 8, "question end");
            let mut o = BitsBuf::new();
            check(!is_err(&q.encode_to_buf(&mut o)), "question encodes");
            check(bytes_eq(&o.into_vec(), &w[..end]), "question round trip");
            cover("accepted");
        }
        Err(_) => check(false, "a supported question is rejected"),
    }
}

fn h_records() { records::h_records() }
fn h_records_rdlength() { records::h_records_rdlength() }
fn h_record_codes() { records::h_record_codes() }
fn h_wks() { records::h_wks() }
fn h_txt_big() { records::h_txt_big() }
fn h_any_record() { records::h_any_record() }
fn h_any_rdata() { records::h_any_rdata() }
fn h_any_message() { records::h_any_message() }
fn h_any_question() { records::h_any_question() }
fn h_mutate() { records::h_mutate() }
fn h_message() { records::h_message() }
fn h_message_unknown() { records::h_message_unknown() }
fn h_trunc() { records::h_trunc() }
fn h_trunc_fine() { records::h_trunc_fine() }
/// C08: question sections around the limit.
fn h_trunc_questions() { records::h_trunc_questions() }
fn h_many() { records::h_many() }
fn h_records_big() { records::h_records_big() }
}

fn roundtrip(name: &Name, t: &[u8]) {
    check(bytes_eq(text(name), t), "the name keeps its text");
    let w = name.to_bytes();
    check(bytes_eq(&w, &wire_name(t)), "uncompressed wire form");
    check(w.len() <= 255, "wire form within 255 octets");
    let mut buf = BitsBuf::from_raw_bytes(&w);
    match Name::from_bytes(&mut buf) {
        Ok(d) => {
            check(bytes_eq(text(&d), t), "decoding the encoded name gives it back");
            check(buf.read_pos() == w.len() * 8, "the whole encoded name is consumed");
            check(&d == name, "names compare equal");
        }
        Err(_) => check(false, "an encoded name decodes"),
    }
}

fn name_vs_ref(b: &[u8], start: usize) {
    let want = ref_name(b, start);
    let mut buf = BitsBuf::from_raw_bytes(b);
    buf.set_read_pos(start * 8);
    let got = Name::from_bytes(&mut buf);
    match want {
        RefName::Deep => cover("deep"),
        RefName::Bad => {
            check(got.is_err(), "an ill-formed name is rejected");
            cover("bad");
        }
        RefName::Ok(t, end) => match got {
            Ok(n) => {
                check(bytes_eq(text(&n), &t), "decoded labels");
                check(buf.read_pos() == end * 8, "position after the name");
                log_bytes(&t);
                cover("ok");
            }
            Err(_) => check(false, "a well-formed name is rejected"),
        },
    }
}
