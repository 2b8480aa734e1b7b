//! The upstream side: a log of the queries sent, and messages built independently of the code.
use crate::model::*;
use crate::net;
use crate::wire::*;
use crate::*;

pub const ROOT_IPS: [[u8; 4]; 13] = [
    [198, 41, 0, 4], [199, 9, 14, 201], [192, 33, 4, 12], [199, 7, 91, 13], [192, 203, 230, 10], [192, 5, 5, 241], [192, 112, 36, 4],
    [198, 97, 190, 53], [192, 36, 148, 17], [192, 58, 128, 30], [193, 0, 14, 129], [199, 7, 83, 42], [202, 12, 27, 33],
];
pub fn is_root_ip(ip: [u8; 4]) -> bool {
    ROOT_IPS.iter().any(|r| *r == ip)
}
pub struct Query {
    pub id: u16,
    pub name: Vec<u8>,
    pub qtype: u16,
    pub ip: [u8; 4],
}
pub static mut QUERIES: Vec<Query> = Vec::new();
/// Is the query one the resolver may send: a standard query, one question, class IN.
pub static mut BAD_QUERY: Option<&'static str> = None;

fn bad(s: &'static str) {
    unsafe {
        if BAD_QUERY.is_none() {
            BAD_QUERY = Some(s)
        }
    }
}
/// Reads a query the resolver sent. None if it is malformed.
pub fn parse_query(b: &[u8]) -> Option<(u16, Vec<u8>, u16)> {
    if b.len() < 12 || b[2] != 0 || b[3] != 0 || be16(b, 4) != 1 || be16(b, 6) != 0 || be16(b, 8) != 0 || be16(b, 10) != 0 {
        return None;
    }
    match ref_name(b, 12) {
        RefName::Ok(t, end) if end + 4 == b.len() && be16(b, end + 2) == 1 => Some((be16(b, 0), t, be16(b, end))),
        _ => None,
    }
}
pub fn send(b: &[u8], ip: [u8; 4], port: u16) -> bool {
    unsafe {
        if port != 53 {
            bad("a query is sent to a port other than 53");
        }
        if net::TIMEOUTS != 3 {
            bad("a query is sent without time limits");
        }
        match parse_query(b) {
            None => bad("a malformed query is sent"),
            Some((id, name, qtype)) => QUERIES.push(Query { id, name, qtype, ip }),
        }
    }
    true
}
pub fn last() -> &'static Query {
    unsafe { &QUERIES[QUERIES.len() - 1] }
}
/// A response: flags word, whether the question is echoed, and the sections.
#[derive(Default)]
pub struct Msg {
    pub flags: u16,
    pub an: Vec<Record>,
    pub ns: Vec<Record>,
    pub ar: Vec<Record>,
}
pub fn header(id: u16, flags: u16, c: [u16; 4]) -> Vec<u8> {
    let mut v = vec![];
    p16(&mut v, id);
    p16(&mut v, flags);
    for x in c {
        p16(&mut v, x);
    }
    v
}
pub fn question(name: &[u8], qtype: u16, class: u16) -> Vec<u8> {
    let mut v = wire_name(name);
    p16(&mut v, qtype);
    p16(&mut v, class);
    v
}
/// Whether messages are sent with compressed names (concrete names only).
pub static mut COMPRESS: bool = false;
fn squeeze(v: &mut Vec<u8>, seen: &mut Vec<(Vec<u8>, usize)>, wire: &[u8]) {
    let mut i = 0;
    while wire[i] != 0 {
        if let Some((_, p)) = seen.iter().find(|x| x.0 == wire[i..]) {
            p16(v, 0xC000 | *p as u16);
            return;
        }
        seen.push((wire[i..].to_vec(), v.len()));
        let l = wire[i] as usize + 1;
        v.extend_from_slice(&wire[i..i + l]);
        i += l;
    }
    v.push(0);
}
fn encode_compressed(q: &Query, m: &Msg) -> Vec<u8> {
    let mut v = header(q.id, m.flags, [1, m.an.len() as u16, m.ns.len() as u16, m.ar.len() as u16]);
    let mut seen = vec![];
    squeeze(&mut v, &mut seen, &wire_name(&q.name));
    p16(&mut v, q.qtype);
    p16(&mut v, 1);
    for r in m.an.iter().chain(&m.ns).chain(&m.ar) {
        let (w, nl) = (ref_record(r), wire_name(text(r.node())).len());
        squeeze(&mut v, &mut seen, &w[..nl]);
        v.extend_from_slice(&w[nl..nl + 8]);
        let at = v.len();
        p16(&mut v, 0);
        match r {
            Record::NS { .. } | Record::CNAME { .. } => squeeze(&mut v, &mut seen, &w[nl + 10..]),
            Record::SOA { .. } => {
                let n = (w.len() - nl - 30) / 2;
                squeeze(&mut v, &mut seen, &w[nl + 10..nl + 10 + n]);
                squeeze(&mut v, &mut seen, &w[nl + 10 + n..]);
                v.extend_from_slice(&w[w.len() - 20..]);
            }
            _ => v.extend_from_slice(&w[nl + 10..]),
        }
        let l = v.len() - at - 2;
        v[at] = (l >> 8) as u8;
        v[at + 1] = l as u8;
    }
    check(v.len() <= 512, "(a message of the harness is too long)");
    v
}
pub fn encode(q: &Query, m: &Msg) -> Vec<u8> {
    if unsafe { COMPRESS } {
        return encode_compressed(q, m);
    }
    let mut v = header(q.id, m.flags, [1, m.an.len() as u16, m.ns.len() as u16, m.ar.len() as u16]);
    v.extend_from_slice(&question(&q.name, q.qtype, 1));
    for r in m.an.iter().chain(&m.ns).chain(&m.ar) {
        v.extend_from_slice(&ref_record(r));
    }
    v
}
pub fn a(node: &[u8], ttl: u32, address: [u8; 4]) -> Record {
    Record::A { node: name_of(node), class: Class::IN, ttl, data_len: 0, address }
}
pub fn ns(node: &[u8], ttl: u32, target: &[u8]) -> Record {
    Record::NS { node: name_of(node), class: Class::IN, ttl, data_len: 0, name: name_of(target) }
}
pub fn cname(node: &[u8], ttl: u32, target: &[u8]) -> Record {
    Record::CNAME { node: name_of(node), class: Class::IN, ttl, data_len: 0, name: name_of(target) }
}
pub fn mx(node: &[u8], ttl: u32, p: u16, target: &[u8]) -> Record {
    Record::MX { node: name_of(node), class: Class::IN, ttl, data_len: 0, priority: p, name: name_of(target) }
}
pub fn soa(node: &[u8], ttl: u32) -> Record {
    let n = name_of(node);
    Record::SOA { node: n.clone(), class: Class::IN, ttl, data_len: 0, ns_name: n.clone(), ml_name: n, serial: 1, refresh: 2, retry: 3, expire: 4, minimum: 5 }
}
pub const AA: u16 = 0x8400;
pub const QR: u16 = 0x8000;
pub const NX: u16 = 0x8403;

pub fn finish() {
    net::done();
    unsafe {
        if let Some(m) = BAD_QUERY {
            check(false, m);
        }
        check(net::OPENED == net::CLOSED, "every socket is closed");
    }
}
/// Do the records agree in everything but the TTL (data length is informational)?
pub fn same_rr(a: &Record, b: &Record) -> bool {
    let (x, y) = (ref_record(a), ref_record(b));
    // names compare without case: the wire forms may differ in it
    if x.len() != y.len() {
        return false;
    }
    let nl = wire_name(text(a.node())).len();
    let mut r = true;
    for i in 0..x.len() {
        if i >= nl + 4 && i < nl + 8 {
            continue; // TTL
        }
        if i < nl {
            r = and(r, lower(x[i]) == lower(y[i]));
        } else {
            r = and(r, x[i] == y[i]);
        }
    }
    r
}
pub fn lower(b: u8) -> u8 {
    sel(b.wrapping_sub(b'A') < 26, (b | 0x20) as u64, b as u64) as u8
}
/// Text equality without case, as one formula.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r = and(r, lower(a[i]) == lower(b[i]));
    }
    r
}
/// Label-wise: is the name at or below the zone?
pub fn within(n: &[u8], z: &[u8]) -> bool {
    if z == b"." {
        return true;
    }
    if n.len() < z.len() || n == b"." {
        return false;
    }
    let k = n.len() - z.len();
    if k > 0 && n[k - 1] != b'.' {
        return false;
    }
    same(&n[k..], z)
}
