//! Record and message harnesses.
use crate::model::*;
use crate::name_of;
use crate::wire::*;
use ariadne_dns::shared::buffer::*;
use ariadne_dns::shared::dns::*;
use symrt::*;

pub const SUPPORTED: [u16; 9] = [1, 2, 5, 6, 11, 12, 13, 15, 16];

fn ascii(n: usize) -> String {
    let mut v = vec![];
    for _ in 0..n {
        let b = u8v();
        assume(b < 0x80);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

pub fn gen_record(kind: u64, node: Name, data_shape: u64) -> Record {
    let class = Class::IN;
    let ttl = u32v();
    let data_len = 0;
    match kind {
        0 => Record::A { node, class, ttl, data_len, address: bytes() },
        1 => Record::NS { node, class, ttl, data_len, name: name_of(&gen_name(data_shape)) },
        2 => Record::CNAME { node, class, ttl, data_len, name: name_of(&gen_name(data_shape)) },
        3 => Record::SOA {
            node, class, ttl, data_len,
            ns_name: name_of(&gen_name(data_shape)),
            ml_name: name_of(&gen_name((data_shape + 1) % 3)),
            serial: u32v(), refresh: u32v(), retry: u32v(), expire: u32v(), minimum: u32v(),
        },
        4 => {
            let ports = match data_shape { 0 => vec![], 1 => vec![choose(24) as u32], _ => { let a = choose(18) as u32; vec![a, a + 1 + choose(9) as u32] } };
            Record::WKS { node, class, ttl, data_len, address: bytes(), protocol: u8v(), ports }
        }
        5 => Record::PTR { node, class, ttl, data_len, name: name_of(&gen_name(data_shape)) },
        6 => Record::HINFO { node, class, ttl, data_len, cpu: ascii(data_shape as usize), os: ascii(choose(3) as usize) },
        7 => Record::MX { node, class, ttl, data_len, priority: u16v(), name: name_of(&gen_name(data_shape)) },
        _ => {
            let mut txts = vec![ascii(data_shape as usize)];
            for _ in 0..choose(3) {
                txts.push(ascii(choose(3) as usize));
            }
            Record::TXT { node, class, ttl, data_len, txts }
        }
    }
}

fn same_ports(a: &Record, b: &Record) -> bool {
    match (a, b) {
        (Record::WKS { ports: p, .. }, Record::WKS { ports: q, .. }) => p.len() == q.len() && p.iter().all(|x| q.contains(x)),
        _ => true,
    }
}

/// Every record type: the encoding is the RFC layout and decodes to the same record.
pub fn h_records() {
    let kind = choose(9);
    let node = name_of(&gen_name(choose(3)));
    let rec = gen_record(kind, node, choose(3));
    let want = ref_record(&rec);
    let mut buf = BitsBuf::new();
    let pre = choose(2) as usize;
    for _ in 0..pre {
        buf.write_u8(0xee);
    }
    check(rec.encode_to_buf(&mut buf).is_ok(), "a valid record encodes");
    let v = buf.into_vec();
    check(v.len() == pre + want.len(), "encoded record length");
    check(bytes_eq(&v[pre..], &want), "encoded record is name, type, class, ttl, length, data as RFC 1035 lays them out");
    let mut all = v.clone();
    all.extend_from_slice(&bytes::<2>());
    let mut rb = BitsBuf::from_raw_bytes(&all);
    rb.set_read_pos(pre * 8);
    match Record::decode_from_buf(&mut rb) {
        Ok(d) => {
            check(rb.read_pos() == v.len() * 8, "decoding consumes exactly the record");
            check(d.record_type() == rec.record_type(), "record type");
            check(*d.data_len() as usize == ref_rdata(&rec).len(), "data length field");
            check(same_ports(&d, &rec), "well known ports");
            check(bytes_eq(&ref_record(&d), &want), "decoding an encoded record gives the same record");
        }
        Err(_) => check(false, "an encoded record decodes"),
    }
    match kind { 0 => cover("A"), 1 => cover("NS"), 2 => cover("CNAME"), 3 => cover("SOA"), 4 => cover("WKS"), 5 => cover("PTR"), 6 => cover("HINFO"), 7 => cover("MX"), _ => cover("TXT") }
}

/// Valid record data under an arbitrary RDLENGTH.
pub fn h_records_rdlength() {
    let kind = choose(9);
    let node = name_of(&gen_name(choose(2)));
    let rec = gen_record(kind, node, choose(2));
    let mut w = ref_record(&rec);
    let dl = ref_rdata(&rec).len();
    let at = w.len() - dl;
    let l = u16v();
    w[at - 2] = (l >> 8) as u8;
    w[at - 1] = l as u8;
    w.extend_from_slice(&bytes_vec(if kind == 4 { 1 } else { 3 }));
    let mut rb = BitsBuf::from_raw_bytes(&w);
    match Record::decode_from_buf(&mut rb) {
        Ok(d) => {
            check(rb.read_pos() == (at + l as usize) * 8, "decoded data is exactly as long as RDLENGTH says");
            check(*d.data_len() == l, "data length field");
            cover("accepted");
        }
        Err(_) => {
            check(l as usize != dl, "the true RDLENGTH is accepted");
            cover("rejected");
        }
    }
}

/// Every record type and class number.
pub fn h_record_codes() {
    let t = gen_name(choose(2));
    let mut w = wire_name(&t);
    let (ty, cl, ttl) = (u16v(), u16v(), u32v());
    p16(&mut w, ty);
    p16(&mut w, cl);
    p32(&mut w, ttl);
    let n = choose(5) as usize;
    p16(&mut w, n as u16);
    let data = bytes_vec(n);
    w.extend_from_slice(&data);
    let end = w.len();
    w.push(u8v());
    let known = or(and(ty >= 1, ty <= 16), and(ty >= 252, ty <= 255));
    let sup = SUPPORTED.iter().any(|s| *s == ty);
    if sup && cl == 1 && ty != 1 {
        return; // covered by the other harnesses
    }
    let mut rb = BitsBuf::from_raw_bytes(&w);
    let r = Record::decode_from_buf(&mut rb);
    if !known {
        check(matches!(r, Err(ParsingErr::UnknownType(_))), "an unknown record type is reported as such");
        check(rb.read_pos() == end * 8, "the unknown record is consumed whole");
        cover("unknown type");
    } else if !sup {
        check(matches!(r, Err(ParsingErr::UnsupportedType(_))), "an unsupported record type is reported as such");
        cover("unsupported type");
    } else if cl != 1 {
        check(r.is_err(), "only class IN records are accepted");
        cover("class");
    } else if ty == 1 {
        check(r.is_ok() == (n == 4), "an A record has four bytes of data");
        cover("A");
    }
}

/// WKS bit maps: every map of up to three octets.
pub fn h_wks() {
    // either a map of param(0) arbitrary octets, or one arbitrary octet anywhere in a longer map
    let whole = choose(2) == 0;
    let n = if whole { choose(param(0, 1) + 1) } else { 2 + choose(3) } as usize;
    let mut w = vec![0u8];
    p16(&mut w, 11);
    p16(&mut w, 1);
    p32(&mut w, 0);
    p16(&mut w, 5 + n as u16);
    let addr: [u8; 5] = bytes();
    w.extend_from_slice(&addr);
    let map = if whole { bytes_vec(n) } else {
        let mut m = vec![0u8; n];
        m[choose(n as u64) as usize] = u8v();
        m
    };
    w.extend_from_slice(&map);
    let mut rb = BitsBuf::from_raw_bytes(&w);
    match Record::decode_from_buf(&mut rb) {
        Ok(Record::WKS { address, protocol, ports, .. }) => {
            check(bytes_eq(&address, &addr[..4]), "WKS address");
            check(protocol == addr[4], "WKS protocol");
            let mut want = vec![];
            for p in 0..n * 8 {
                if (map[p / 8] << (p % 8)) & 0x80 != 0 {
                    want.push(p as u32);
                }
            }
            check(ports == want, "WKS ports are the set bits of the map");
            cover("wks");
        }
        _ => check(false, "a well-formed WKS record decodes"),
    }
}

/// TXT data whose length straddles the 16-bit length field.
pub fn h_txt_big() {
    let n = param(0, 256) as usize - 1 + choose(3) as usize;
    let last = choose(3) as usize + 253;
    let mut txts = vec!["a".repeat(255); n - 1];
    txts.push("b".repeat(last));
    let total = (n - 1) * 256 + last + 1;
    let node = name_of(b".");
    let rec = Record::TXT { node, class: Class::IN, ttl: 0, data_len: 0, txts };
    let mut buf = BitsBuf::new();
    match rec.encode_to_buf(&mut buf) {
        Ok(()) => {
            let v = buf.into_vec();
            check(total <= 65535, "data that does not fit RDLENGTH is not encoded");
            check(v.len() == 11 + total, "TXT size");
            check(be16(&v, 9) as usize == total, "TXT RDLENGTH");
            cover("fits");
        }
        Err(_) => {
            check(total > 65535, "TXT data that fits is encoded");
            cover("too big");
        }
    }
}

// ---------------------------------------------------------------- C03 totality
/// Any byte string decodes to a record or to an error.
pub fn h_any_record() {
    let n = choose(param(0, 12) + 1) as usize;
    let b = bytes_vec(n);
    let mut rb = BitsBuf::from_raw_bytes(&b);
    match Record::decode_from_buf(&mut rb) {
        Ok(r) => {
            cover("ok");
            check(rb.read_pos() <= n * 8, "never past the end");
            let mut o = BitsBuf::new();
            let _ = r.encode_to_buf(&mut o);
        }
        Err(_) => cover("err"),
    }
}
/// Any RDATA bytes under any RDLENGTH for every supported type.
pub fn h_any_rdata() {
    let ty = SUPPORTED[choose(9) as usize];
    let mut w = vec![0u8];
    p16(&mut w, ty);
    p16(&mut w, 1);
    p32(&mut w, 7);
    let l = u16v();
    p16(&mut w, l);
    let n = choose(param(0, 6) + 1) as usize;
    w.extend_from_slice(&bytes_vec(n));
    let mut rb = BitsBuf::from_raw_bytes(&w);
    match Record::decode_from_buf(&mut rb) {
        Ok(r) => {
            cover("ok");
            check(rb.read_pos() == (11 + l as usize) * 8, "decoded data is exactly as long as RDLENGTH says");
            check(l as usize <= n, "data never extends past the message");
            let mut o = BitsBuf::new();
            check(r.encode_to_buf(&mut o).is_ok(), "a decoded record encodes again");
        }
        Err(_) => cover("err"),
    }
}
pub fn h_any_question() {
    let n = choose(param(0, 9) + 1) as usize;
    let b = bytes_vec(n);
    let mut rb = BitsBuf::from_raw_bytes(&b);
    match Question::decode_from_buf(&mut rb) {
        Ok(q) => {
            cover("ok");
            let mut o = BitsBuf::new();
            check(q.encode_to_buf(&mut o).is_ok(), "a decoded question encodes again");
        }
        Err(_) => cover("err"),
    }
}
/// Any datagram with entries in one section: decode, and if it decodes, both encodings work.
pub fn h_any_message() {
    let n = choose(param(0, 5) + 1) as usize;
    let mut b = bytes_vec(4);
    let s = choose(4);
    let c = match choose(3) { 0 => 1, 1 => 2, _ => 0xffff };
    for i in 0..4 {
        p16(&mut b, if i == s { c } else { 0 });
    }
    b.extend_from_slice(&bytes_vec(n));
    any_message(&b);
}
fn any_message(b: &[u8]) {
    match Message::decode_from_bytes(b) {
        Ok(m) => {
            cover("ok");
            let h = &m.header;
            check(h.questions_count as usize == m.questions.len() && h.answers_count as usize == m.answers.len() && h.authorities_count as usize == m.authorities.len()
                && h.additionals_count as usize == m.additionals.len(), "header counts describe the sections");
            let v = match m.encode_to_bytes() {
                Ok(v) => v,
                Err(_) => { check(false, "a decoded message encodes"); return }
            };
            match m.encode_to_bytes_trunc() {
                Ok(t) => check(t.len() <= 512 && t.len() <= v.len(), "UDP encoding of a decoded message"),
                Err(_) => check(false, "a decoded message encodes for UDP"),
            }
            match Message::decode_from_bytes(&v) {
                Ok(d) => {
                    check(d.questions.len() == m.questions.len(), "question count");
                    for (x, y) in d.questions.iter().zip(&m.questions) {
                        check(bytes_eq(&ref_question(x), &ref_question(y)), "question");
                    }
                    check_section(&d.answers, &m.answers);
                    check_section(&d.authorities, &m.authorities);
                    check_section(&d.additionals, &m.additionals);
                }
                Err(_) => check(false, "an encoded message decodes"),
            }
        }
        Err(e) => {
            cover("err");
            let _ = e.inner_err();
        }
    }
}
/// A realistic compressed response with a window of arbitrary bytes anywhere in it,
/// and possibly cut short.
pub fn h_mutate() {
    let mut b: Vec<u8> = vec![0x12, 0x34, 0x81, 0x80, 0, 1, 0, 3, 0, 2, 0, 2];
    b.extend_from_slice(b"\x01w\x02ex\x00\x00\x0f\x00\x01"); // question at 12, "ex." at 14
    b.extend_from_slice(b"\xc0\x0c\x00\x01\x00\x01\x00\x00\x00\x05\x00\x04\x01\x02\x03\x04");
    b.extend_from_slice(b"\xc0\x0e\x00\x0f\x00\x01\x00\x00\x00\x05\x00\x06\x00\x07\x01m\xc0\x0e");
    b.extend_from_slice(b"\xc0\x0e\x00\x10\x00\x01\x00\x00\x00\x05\x00\x05\x01a\x02bc");
    b.extend_from_slice(b"\xc0\x0e\x00\x02\x00\x01\x00\x00\x00\x05\x00\x04\x01n\xc0\x0e");
    b.extend_from_slice(b"\xc0\x0e\x00\x06\x00\x01\x00\x00\x00\x05\x00\x19\x01p\xc0\x0e\x00\x00\x00\x00\x01\x00\x00\x00\x02\x00\x00\x00\x03\x00\x00\x00\x04\x00\x00\x00\x05");
    b.extend_from_slice(b"\xc0\x55\x00\x0b\x00\x01\x00\x00\x00\x05\x00\x07\x01\x02\x03\x04\x06\x81\x40");
    b.extend_from_slice(b"\x00\x00\x0d\x00\x01\x00\x00\x00\x05\x00\x04\x01c\x01o");
    let w = param(0, 2) as usize;
    let lo = param(1, 4) as usize;
    let at = lo + choose((b.len() - w - lo + 1) as u64) as usize;
    for i in 0..w {
        b[at + i] = u8v();
    }
    if choose(2) == 1 {
        // cut a few bytes after the window
        let cut = at + w + choose(3) as usize;
        if cut < b.len() { b.truncate(cut); }
        cover("cut");
    }
    any_message(&b);
}

// ---------------------------------------------------------------- C07 messages
fn gen_header() -> Header {
    Header {
        id: u16v(), query_resp: boolv(), op_code: OpCode::STD, auth_answer: boolv(), truncated: false, recursion_desired: boolv(),
        recursion_available: boolv(), z: 0, resp_code: RespCode::NoError,
        questions_count: 0, answers_count: 0, authorities_count: 0, additionals_count: 0,
    }
}
/// Any header field values (the two codes vary with it, without multiplying the paths).
fn gen_header_any() -> Header {
    let mut h = gen_header();
    h.z = u8v() & 7;
    let (o, r) = match choose(3) { 0 => (OpCode::STD, RespCode::NoError), 1 => (OpCode::INV, RespCode::NxDomain), _ => (OpCode::STS, RespCode::Refused) };
    h.op_code = o;
    h.resp_code = r;
    h
}
fn ref_header(h: &Header, tc: bool, q: usize, an: usize, ns: usize, ar: usize) -> Vec<u8> {
    let mut v = vec![];
    p16(&mut v, h.id);
    let mut w = 0u16;
    w |= (h.query_resp as u16) << 15;
    w |= (h.op_code.to_num() as u16) << 11;
    w |= (h.z as u16) << 4;
    w |= rcode_num(h.resp_code);
    w |= (h.auth_answer as u16) << 10;
    w |= (tc as u16) << 9;
    w |= (h.recursion_desired as u16) << 8;
    w |= (h.recursion_available as u16) << 7;
    p16(&mut v, w);
    for c in [q, an, ns, ar] {
        p16(&mut v, c as u16);
    }
    v
}
fn small_record(k: u64) -> Record {
    let node = name_of(&gen_name(1));
    match k {
        0 => Record::A { node, class: Class::IN, ttl: u32v(), data_len: 0, address: bytes() },
        1 => Record::NS { node, class: Class::IN, ttl: u32v(), data_len: 0, name: name_of(&gen_name(1)) },
        _ => Record::TXT { node, class: Class::IN, ttl: u32v(), data_len: 0, txts: vec![ascii(1)] },
    }
}
fn check_section(got: &[Record], want: &[Record]) {
    check(got.len() == want.len(), "section size");
    for (g, w) in got.iter().zip(want) {
        check(bytes_eq(&ref_record(g), &ref_record(w)), "section content and order");
    }
}
/// Any small message survives encoding and decoding.
pub fn h_message() {
    let mut m = Message { header: gen_header(), questions: vec![], answers: vec![], authorities: vec![], additionals: vec![] };
    for _ in 0..choose(3) {
        m.questions.push(Question { node: name_of(&gen_name(1)), record_type: RecordType::MX, class: Class::IN });
    }
    for _ in 0..choose(3) {
        m.answers.push(small_record(choose(3)));
    }
    for _ in 0..choose(3) {
        m.authorities.push(small_record(choose(2)));
    }
    for _ in 0..choose(3) {
        m.additionals.push(small_record(0));
    }
    let (a, b, c, d) = (m.questions.len(), m.answers.len(), m.authorities.len(), m.additionals.len());
    m.header.questions_count = a as u16;
    m.header.answers_count = b as u16;
    m.header.authorities_count = c as u16;
    m.header.additionals_count = d as u16;
    let mut want = ref_header(&m.header, false, a, b, c, d);
    for q in &m.questions {
        want.extend_from_slice(&ref_question(q));
    }
    for s in [&m.answers, &m.authorities, &m.additionals] {
        for r in s.iter() {
            want.extend_from_slice(&ref_record(r));
        }
    }
    let v = match m.encode_to_bytes() {
        Ok(v) => v,
        Err(_) => {
            check(false, "a valid message encodes");
            return;
        }
    };
    check(bytes_eq(&v, &want), "message layout: header, questions, answers, authorities, additionals");
    if want.len() <= 512 {
        match m.encode_to_bytes_trunc() {
            Ok(t) => check(bytes_eq(&t, &want), "a message that fits is not changed by the UDP encoding"),
            Err(_) => check(false, "UDP encoding"),
        }
    }
    match Message::decode_from_bytes(&v) {
        Ok(d) => {
            check(d.questions.len() == m.questions.len(), "question count");
            for (x, y) in d.questions.iter().zip(&m.questions) {
                check(bytes_eq(&ref_question(x), &ref_question(y)), "question");
            }
            check_section(&d.answers, &m.answers);
            check_section(&d.authorities, &m.authorities);
            check_section(&d.additionals, &m.additionals);
            check(d.id() == m.header.id, "id");
            cover("decoded");
        }
        Err(_) => check(false, "an encoded message decodes"),
    }
}

/// Unknown record types anywhere in a message are skipped, everything else is kept,
/// and the header's counts describe what was kept.
pub fn h_message_unknown() {
    let h = gen_header();
    let mut body = vec![];
    let mut kept_body = vec![];
    let mut n = [0usize; 4];
    let mut kept = [0usize; 4];
    for s in 0..4 {
        // up to two entries a section, four in all
        let all: usize = n.iter().sum();
        let k = choose((if s == 0 { 2 } else { 3 }).min(5 - all as u64));
        for _ in 0..k {
            n[s] += 1;
            let unknown = choose(2) == 1;
            let mut e = wire_name(&gen_name(1));
            let ty = if unknown {
                let t = u16v();
                assume(or(t == 0, or(and(t > 16, t < 252), t > 255)));
                t
            } else { 1 };
            p16(&mut e, ty);
            p16(&mut e, 1);
            if s > 0 {
                p32(&mut e, u32v());
                let dl = if unknown { choose(3) as usize } else { 4 };
                p16(&mut e, dl as u16);
                e.extend_from_slice(&bytes_vec(dl));
            }
            body.extend_from_slice(&e);
            if unknown { cover("skipped") } else {
                kept[s] += 1;
                kept_body.extend_from_slice(&e);
            }
        }
    }
    let mut w = ref_header(&h, false, n[0], n[1], n[2], n[3]);
    w.extend_from_slice(&body);
    let mut want = ref_header(&h, false, kept[0], kept[1], kept[2], kept[3]);
    want.extend_from_slice(&kept_body);
    match Message::decode_from_bytes(&w) {
        Ok(m) => {
            check(m.questions.len() == kept[0] && m.answers.len() == kept[1] && m.authorities.len() == kept[2] && m.additionals.len() == kept[3], "known entries are kept, unknown ones skipped");
            check(m.header.questions_count as usize == kept[0] && m.header.answers_count as usize == kept[1] && m.header.authorities_count as usize == kept[2] && m.header.additionals_count as usize == kept[3], "header counts describe the sections");
            match m.encode_to_bytes() {
                Ok(v) => check(bytes_eq(&v, &want), "re-encoding gives the known entries unchanged"),
                Err(_) => check(false, "re-encoding"),
            }
            cover("decoded");
        }
        Err(_) => check(false, "a message with unknown record types decodes"),
    }
}

// ---------------------------------------------------------------- C08 UDP truncation
fn txt(sizes: &[usize]) -> Record {
    let mut txts = vec![];
    for s in sizes {
        let mut t = "t".repeat(*s);
        if *s > 0 {
            t = ascii(1);
            t.push_str(&"t".repeat(*s - 1));
        }
        txts.push(t);
    }
    Record::TXT { node: name_of(b"."), class: Class::IN, ttl: u32v(), data_len: 0, txts }
}
fn check_trunc(m: &mut Message) {
    let n = [m.questions.len(), m.answers.len(), m.authorities.len(), m.additionals.len()];
    m.header.questions_count = n[0] as u16;
    m.header.answers_count = n[1] as u16;
    m.header.authorities_count = n[2] as u16;
    m.header.additionals_count = n[3] as u16;
    let mut parts = vec![];
    for q in &m.questions {
        parts.push(ref_question(q));
    }
    for s in [&m.answers, &m.authorities, &m.additionals] {
        for r in s.iter() {
            parts.push(ref_record(r));
        }
    }
    let total: usize = 12 + parts.iter().map(|p| p.len()).sum::<usize>();
    let v = match m.encode_to_bytes_trunc() {
        Ok(v) => v,
        Err(_) => {
            check(false, "UDP encoding of a valid message");
            return;
        }
    };
    check(v.len() <= 512, "a UDP message never exceeds 512 bytes");
    check(v.len() >= 12, "a UDP message has a header");
    let got = [conc(be16(&v, 4) as u64) as usize, conc(be16(&v, 6) as u64) as usize, conc(be16(&v, 8) as u64) as usize, conc(be16(&v, 10) as u64) as usize];
    let k: usize = got.iter().sum();
    let mut left = k;
    for s in 0..4 {
        let here = left.min(n[s]);
        check(got[s] == here, "the entries kept are the leading ones, and counted in their section");
        left -= here;
    }
    check(k <= parts.len(), "counts");
    if total <= 512 {
        check(k == parts.len(), "nothing is dropped from a message that fits");
        cover("fits");
    } else {
        check(k < parts.len(), "something is dropped from a message that does not fit");
        cover("dropped");
    }
    let tc = k < parts.len();
    let mut want = ref_header(&m.header, tc, got[0], got[1], got[2], got[3]);
    for p in &parts[..k] {
        want.extend_from_slice(p);
    }
    check(bytes_eq(&v, &want), "TC is set exactly when entries were dropped, and the kept entries are intact");
    if total == 512 { cover("exactly 512") }
    if total == 513 { cover("one too many") }
}
fn empty_msg() -> Message {
    let mut m = Message { header: gen_header_any(), questions: vec![], answers: vec![], authorities: vec![], additionals: vec![] };
    for _ in 0..choose(2) {
        m.questions.push(Question { node: name_of(b"."), record_type: RecordType::TXT, class: Class::IN });
    }
    m
}
fn add(m: &mut Message, s: u64, r: Record) {
    match s { 0 => m.answers.push(r), 1 => m.authorities.push(r), _ => m.additionals.push(r) }
}
/// Up to three or four records of varied sizes in any sections.
pub fn h_trunc() {
    let mut m = empty_msg();
    let mut s = 0;
    for _ in 0..choose(param(0, 3) + 1) {
        s += choose(3 - s);
        let r = match choose(4) { 0 => txt(&[0]), 1 => txt(&[150]), 2 => txt(&[220]), _ => txt(&[255, 200]) };
        add(&mut m, s, r);
    }
    check_trunc(&mut m);
}
/// A name whose wire form has n octets (4 <= n <= 255), with an arbitrary first character.
fn sized_name(n: usize) -> Name {
    let mut left = n - 1;
    let mut t = ascii_label();
    left -= 2;
    while left > 0 {
        t.push('.');
        let k = if left > 64 + 1 { 63 } else if left == 65 { 62 } else { left - 1 };
        t.push_str(&"n".repeat(k));
        left -= k + 1;
    }
    t.push('.');
    name_of(t.as_bytes())
}
fn ascii_label() -> String {
    let b = u8v();
    assume(is_alnum(b));
    unsafe { String::from_utf8_unchecked(vec![b]) }
}
/// Question sections around the limit.
pub fn h_trunc_questions() {
    let mut m = empty_msg();
    m.questions.push(Question { node: sized_name(240), record_type: RecordType::TXT, class: Class::IN });
    let n = 244 + choose(param(0, 12)) as usize;
    m.questions.push(Question { node: sized_name(n), record_type: RecordType::A, class: Class::IN });
    for s in 0..3 {
        if choose(2) == 1 { add(&mut m, s, txt(&[0])) }
    }
    check_trunc(&mut m);
}
/// Every total size around the limit, the last record in any section.
pub fn h_trunc_fine() {
    let mut m = empty_msg();
    let s = choose(3);
    let t = choose(3);
    add(&mut m, s.min(t), txt(&[240]));
    let n = choose(param(0, 60));
    add(&mut m, s.max(t), txt(&[200, n as usize]));
    if choose(2) == 1 { add(&mut m, 2, txt(&[0])) }
    check_trunc(&mut m);
}

// ---------------------------------------------------------------- large entries and many of them
const MANY: [usize; 11] = [8, 16, 17, 33, 64, 65, 128, 129, 255, 256, 257];
/// Sections with many entries, the last one arbitrary, and something in another section.
pub fn h_many() {
    let mut m = Message { header: gen_header(), questions: vec![], answers: vec![], authorities: vec![], additionals: vec![] };
    let s = choose(4);
    let k = choose(MANY.len() as u64 + param(0, 0)) as usize;
    let n = if k < MANY.len() { MANY[k] } else { 1000 };
    let small = |ttl| Record::A { node: name_of(b"."), class: Class::IN, ttl, data_len: 0, address: [1, 2, 3, 4] };
    for i in 0..n {
        match s {
            0 => m.questions.push(Question { node: name_of(b"."), record_type: RecordType::MX, class: Class::IN }),
            1 => m.answers.push(small(if i == n - 1 { u32v() } else { i as u32 })),
            2 => m.authorities.push(small(if i == n - 1 { u32v() } else { i as u32 })),
            _ => m.additionals.push(small(if i == n - 1 { u32v() } else { i as u32 })),
        }
    }
    match choose(3) {
        0 if s != 1 => m.answers.push(small_record(0)),
        1 if s != 2 => m.authorities.push(small_record(0)),
        2 if s != 3 => m.additionals.push(small_record(0)),
        _ => {}
    }
    let (a, b, c, d) = (m.questions.len(), m.answers.len(), m.authorities.len(), m.additionals.len());
    m.header.questions_count = a as u16;
    m.header.answers_count = b as u16;
    m.header.authorities_count = c as u16;
    m.header.additionals_count = d as u16;
    let mut want = ref_header(&m.header, false, a, b, c, d);
    for q in &m.questions {
        want.extend_from_slice(&ref_question(q));
    }
    for x in [&m.answers, &m.authorities, &m.additionals] {
        for r in x.iter() {
            want.extend_from_slice(&ref_record(r));
        }
    }
    match m.encode_to_bytes() {
        Ok(v) => check(bytes_eq(&v, &want), "message layout: header, questions, answers, authorities, additionals"),
        Err(_) => check(false, "a valid message encodes"),
    }
    check_trunc(&mut m);
    // entries of unknown type between the others
    let skip = choose(3) as usize;
    let mut w = ref_header(&m.header, false, a, b, c, d + skip);
    w.extend_from_slice(&want[12..]);
    for i in 0..skip {
        let t = u16v();
        assume(or(t == 0, or(and(t > 16, t < 252), t > 255)));
        let len = if i > 0 { 3 } else { [0, 100, 255, 256, 300, 4096, 32768, 40000][choose(8) as usize] };
        w.push(0);
        p16(&mut w, t);
        p16(&mut w, u16v());
        p32(&mut w, u32v());
        p16(&mut w, len as u16);
        w.extend(std::iter::repeat(0xc0).take(len));
        if w.len() > 65535 { return }
        cover("skipped");
    }
    match Message::decode_from_bytes(&w) {
        Ok(x) => {
            check(x.questions.len() == a && x.answers.len() == b && x.authorities.len() == c && x.additionals.len() == d, "known entries are kept, unknown ones skipped");
            match x.encode_to_bytes() {
                Ok(v) => check(bytes_eq(&v, &want), "decoding gives the same message"),
                Err(_) => check(false, "a decoded message encodes again"),
            }
            cover("decoded");
        }
        Err(_) => check(false, "an encoded message decodes"),
    }
}
/// Long names, character strings, lists of strings and port maps.
pub fn h_records_big() {
    const NAMES: [usize; 7] = [64, 65, 128, 129, 200, 254, 255];
    let big = || sized_name(NAMES[choose(7) as usize]);
    let small = || name_of(b"m.");
    let text = |n: usize| {
        let mut t = if n == 0 { String::new() } else { ascii(1) };
        // (n octets, whatever the number of characters)
        let wide = [("t", 1), ("\u{e9}", 2), ("\u{1f980}", 4)][choose(if n > 60 { 3 } else { 1 }) as usize];
        t.push_str(&wide.0.repeat(n.saturating_sub(1) / wide.1));
        while t.len() < n {
            t.push('t');
        }
        t
    };
    let (class, ttl, data_len) = (Class::IN, u32v(), 0);
    let rec = match choose(9) {
        0 => Record::A { node: big(), class, ttl, data_len, address: bytes() },
        1 => Record::NS { node: small(), class, ttl, data_len, name: big() },
        2 => Record::CNAME { node: big(), class, ttl, data_len, name: big() },
        3 => {
            let (ns_name, ml_name) = match choose(3) { 0 => (big(), small()), 1 => (small(), big()), _ => (big(), sized_name(255)) };
            Record::SOA { node: small(), class, ttl, data_len, ns_name, ml_name, serial: u32v(), refresh: u32v(), retry: u32v(), expire: u32v(), minimum: u32v() }
        }
        4 => {
            let top = [23, 24, 63, 64, 127, 255, 256, 257, 1023, 1024, 2040, 2047, 2048, 32767, 32768, 65535][choose(16) as usize];
            let ports = match choose(3) { 0 => vec![top], 1 => vec![top, 7], _ => vec![0, top / 2 + 1, top] };
            Record::WKS { node: small(), class, ttl, data_len, address: bytes(), protocol: u8v(), ports }
        }
        5 => Record::PTR { node: small(), class, ttl, data_len, name: big() },
        6 => {
            let l = [0, 1, 63, 64, 127, 128, 254, 255, 256, 300];
            Record::HINFO { node: small(), class, ttl, data_len, cpu: text(l[choose(10) as usize]), os: text(l[choose(10) as usize]) }
        }
        7 => Record::MX { node: small(), class, ttl, data_len, priority: u16v(), name: big() },
        _ => {
            let n = [1, 2, 3, 15, 16, 17, 64, 65, 255, 256][choose(10) as usize];
            let l = [0, 1, 63, 127, 128, 254, 255][choose(7) as usize];
            let mut txts = vec!["s".repeat(l); n - 1];
            txts.push(text([1, 255, 256, 510][choose(4) as usize]));
            Record::TXT { node: small(), class, ttl, data_len, txts }
        }
    };
    let long = match &rec {
        Record::HINFO { cpu, os, .. } => cpu.len() > 255 || os.len() > 255,
        Record::TXT { txts, .. } => txts.iter().any(|t| t.len() > 255),
        _ => false,
    };
    let mut buf = BitsBuf::new();
    if rec.encode_to_buf(&mut buf).is_err() {
        check(long || ref_rdata(&rec).len() > 65535, "a record that can be represented is encoded");
        cover("refused");
        return;
    }
    check(!long, "a record that cannot be represented is refused");
    let want = ref_record(&rec);
    let v = buf.into_vec();
    check(bytes_eq(&v, &want), "record layout");
    let mut rb = BitsBuf::from_raw_bytes(&v);
    match Record::decode_from_buf(&mut rb) {
        Ok(d) => {
            check(rb.read_pos() == v.len() * 8, "decoding consumes the record");
            check(bytes_eq(&ref_record(&d), &want), "decoding gives the same record");
            check(same_ports(&d, &rec), "decoding gives the same ports");
            cover("decoded");
        }
        Err(_) => check(false, "an encoded record decodes"),
    }
}
