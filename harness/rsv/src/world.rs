//! An honest name space: root, t., z.t. and u., each with authoritative servers.
use crate::net;
use crate::up::*;
use crate::wire::*;
use crate::*;

pub struct ZoneD {
    pub apex: &'static [u8],
    pub ips: Vec<[u8; 4]>,
    pub ns: Vec<Record>,
    pub recs: Vec<Record>,
    /// index of child zones and the glue given with the delegation
    pub cuts: Vec<(usize, Vec<Record>)>,
}
pub struct World {
    pub zones: Vec<ZoneD>,
    /// a CNAME answer carries the target's records too
    pub chase: bool,
    /// answers carry the zone's NS records and their addresses
    pub extra: bool,
    /// which query fails (u64::MAX: none) and how
    pub fault_at: usize,
    pub faults: usize,
    pub fault: u64,
    pub answered: usize,
    pub extra_glue: Vec<Record>,
    /// servers that never answer well, and how they fail
    pub dead: Vec<([u8; 4], u64)>,
    /// z.t.'s servers are hostile
    pub evil: Option<crate::evil::Plan>,
}
pub static mut W: Option<World> = None;
/// The delegations given, with the number of the query.
pub static mut REFERRALS: Vec<(usize, Vec<Record>, Vec<Record>)> = Vec::new();
pub fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}
/// What a zone holds for a name and type.
pub enum Data {
    Cut(usize),
    Recs(Vec<Record>),
    Cname(Record),
    NoData,
    NoName,
}
pub fn find(z: &ZoneD, zones: &[ZoneD], name: &[u8], qtype: u16) -> Data {
    for (i, _) in z.cuts.iter().enumerate() {
        let c = z.cuts[i].0;
        if within(name, zones[c].apex) {
            return Data::Cut(i);
        }
    }
    let mut found = vec![];
    let mut cn = None;
    let mut exists = same(name, z.apex) || z.cuts.iter().any(|c| within(zones[c.0].apex, name));
    for r in z.recs.iter().chain(&z.ns) {
        exists |= within(text(r.node()), name);
        if same(text(r.node()), name) {
            if r.record_type().to_num() == qtype {
                found.push(r.clone());
            } else if r.record_type() == RecordType::CNAME {
                cn = Some(r.clone());
            }
        }
    }
    if !found.is_empty() {
        return Data::Recs(found);
    }
    match cn {
        Some(r) => Data::Cname(r),
        None if exists => Data::NoData,
        None => Data::NoName,
    }
}
pub fn zone_reply(zi: usize, q: &Query) -> Msg {
    let wd = w();
    let z = &wd.zones[zi];
    let mut m = Msg::default();
    match find(z, &wd.zones, &q.name, q.qtype) {
        Data::Cut(i) => {
            m.flags = QR;
            m.ns = wd.zones[z.cuts[i].0].ns.clone();
            m.ar = z.cuts[i].1.clone();
        }
        Data::Recs(r) => {
            m.flags = AA;
            m.an = r;
            if wd.extra {
                m.ns = z.ns.clone();
                m.ar = wd.extra_glue.clone();
            }
        }
        Data::Cname(r) => {
            m.flags = AA;
            if wd.chase {
                if let Data::Recs(v) = find(z, &wd.zones, text(r.cname_data()), q.qtype) {
                    m.an = v;
                }
            }
            m.an.insert(0, r);
            if wd.extra {
                m.ns = z.ns.clone();
                m.ar = wd.extra_glue.clone();
            }
        }
        Data::NoData => {
            m.flags = AA;
            m.ns = vec![soa(z.apex, 30)];
        }
        Data::NoName => {
            m.flags = NX;
            m.ns = vec![soa(z.apex, 30)];
        }
    }
    m
}
pub fn recv() -> Option<(Vec<u8>, [u8; 4], u16)> {
    let q = last();
    let n = w().answered;
    w().answered += 1;
    if let Some((_, how)) = w().dead.iter().find(|x| x.0 == q.ip) {
        let flags = [0, 0x8002, 0x8005, QR][*how as usize];
        return if *how == 0 { None } else { Some((encode(q, &Msg { flags, ..Msg::default() }), q.ip, 53)) };
    }
    if n >= w().fault_at && n < w().fault_at + w().faults {
        match w().fault {
            0 => return None,
            1 => {
                let m = Msg { flags: 0x8002, ..Msg::default() };
                return Some((encode(q, &m), q.ip, 53));
            }
            2 => {
                // a forged answer with another id
                let m = Msg { flags: AA, an: vec![a(&q.name, 77, [6, 6, 6, 6])], ..Msg::default() };
                let mut b = encode(q, &m);
                b[1] ^= 1;
                return Some((b, q.ip, 53));
            }
            3 => return Some((vec![q.id as u8], q.ip, 53)),
            5 => return Some((encode(q, &Msg { flags: QR, ..Msg::default() }), q.ip, 53)), // nothing at all
            6 => return Some((encode(q, &Msg { flags: 0x8005, ..Msg::default() }), q.ip, 53)), // refused
            7 => {
                // a referral up to the root
                let m = Msg { flags: QR, ns: vec![ns(b".", 900, b"a.root-servers.net.")], ar: vec![a(b"a.root-servers.net.", 900, [198, 41, 0, 4])], ..Msg::default() };
                return Some((encode(q, &m), q.ip, 53));
            }
            8 => {
                // a good answer cut halfway
                let m = Msg { flags: AA, an: vec![a(&q.name, 77, [6, 6, 6, 6])], ..Msg::default() };
                let mut b = encode(q, &m);
                b.truncate(b.len() - 2);
                return Some((b, q.ip, 53));
            }
            _ => {
                // a forged answer from another host
                let m = Msg { flags: AA, an: vec![a(&q.name, 77, [6, 6, 6, 6])], ..Msg::default() };
                return Some((encode(q, &m), [6, 6, 6, 6], 53));
            }
        }
    }
    let zi = match served(q.ip, &q.name) {
        Some(z) => z,
        None => {
            check(false, "a server is asked about a name in none of its zones");
            return None;
        }
    };
    let m = match &w().evil {
        Some(p) if zi == 2 => crate::evil::reply(p, q),
        _ => zone_reply(zi, q),
    };
    if m.flags == QR {
        if let Ok(v) = ariadne_dns::shared::dns::Message::decode_from_bytes(&encode(q, &m)) {
            unsafe { REFERRALS.push((QUERIES.len() - 1, v.authorities, v.additionals)) };
        }
    }
    Some((encode(q, &m), q.ip, 53))
}
/// What a correct resolver finds.
pub struct Truth {
    pub recs: Vec<Record>,
    pub nx: bool,
}
pub fn truth(name: &[u8], qtype: u16) -> Truth {
    let wd = w();
    let mut recs: Vec<Record> = vec![];
    let mut name = name.to_vec();
    let mut zi = 0;
    loop {
        match find(&wd.zones[zi], &wd.zones, &name, qtype) {
            Data::Cut(i) => zi = wd.zones[zi].cuts[i].0,
            Data::Recs(r) => {
                recs.extend(r);
                return Truth { recs, nx: false };
            }
            Data::Cname(r) => {
                name = text(r.cname_data()).to_vec();
                recs.push(r);
                zi = 0;
            }
            Data::NoData => return Truth { recs, nx: false },
            Data::NoName => return Truth { recs, nx: true },
        }
    }
}
/// Z's nameservers: inside it, in the parent, elsewhere, two of them, or the parent's own server;
/// from 5 on the first of two has a name without address: missing, in a missing zone, an alias,
/// or of another type.
pub const TTLS: Ttls = Ttls { a: 300, b: 350, ns: 400, ns2: 450, glue: 500 };
/// The TTL of ordinary records (b: the second of a set), nameservers and their addresses.
#[derive(Clone, Copy)]
pub struct Ttls {
    pub a: u32,
    pub b: u32,
    pub ns: u32,
    pub ns2: u32,
    pub glue: u32,
}
pub fn world(style: u64, tt: Ttls, ver: u8, twin: bool) -> World {
    let (ttl, ttl_ns, ttl_glue) = (tt.a, tt.ns, tt.glue);
    let glue_z = a(b"n.z.t.", ttl_glue, [10, 0, 0, 2]);
    let (nsz, mut gluez) = match style {
        0 => (vec![ns(b"z.t.", ttl_ns, b"n.z.t.")], vec![glue_z.clone()]),
        1 => (vec![ns(b"z.t.", ttl_ns, b"p.t.")], vec![]),
        2 => (vec![ns(b"z.t.", ttl_ns, b"q.u.")], vec![]),
        3 => (vec![ns(b"z.t.", ttl_ns, b"q.u."), ns(b"z.t.", tt.ns2, b"n.z.t.")], vec![glue_z.clone()]),
        4 => (vec![ns(b"z.t.", ttl_ns, b"n.t.")], vec![a(b"n.t.", ttl_glue, [10, 0, 0, 1])]),
        _ => {
            let bad: [&[u8]; 4] = [b"no.u.", b"no.v.", b"al.u.", b"mx.u."];
            (vec![ns(b"z.t.", ttl_ns, bad[style as usize - 5]), ns(b"z.t.", ttl_ns, b"q.u.")], vec![])
        }
    };
    let at = a(b"n.t.", ttl_glue, [10, 0, 0, 1]);
    let au = a(b"n.u.", ttl_glue, [10, 0, 0, 3]);
    let aw = a(b"n.w.v.", ttl_glue, [10, 0, 0, 6]);
    let mut zt = vec![[10, 0, 0, 2], [10, 0, 0, 4], [10, 0, 0, 5]];
    if style == 4 {
        zt.push([10, 0, 0, 1]);
    }
    let mut zones = vec![
        ZoneD { apex: b".", ips: vec![], ns: vec![], recs: vec![], cuts: vec![(1, vec![at.clone()]), (3, vec![au.clone()]), (4, vec![aw.clone()])] },
        ZoneD { apex: b"t.", ips: vec![[10, 0, 0, 1]], ns: vec![ns(b"t.", ttl_ns, b"n.t.")], recs: vec![at, a(b"p.t.", ttl_glue, [10, 0, 0, 4])], cuts: vec![(2, gluez.clone())] },
        ZoneD {
            apex: b"z.t.",
            ips: zt,
            ns: nsz,
            recs: vec![
                glue_z,
                a(b"a.z.t.", ttl, [1, 1, 1, ver]),
                a(b"a.z.t.", tt.b, [2, 2, 2, ver]),
                cname(b"c.z.t.", ttl, b"a.z.t."),
                cname(b"d.z.t.", ttl, b"h.u."),
                cname(b"e.z.t.", ttl, b"m.u."),
                cname(b"f.z.t.", ttl, b"g.w.v."),
                mx(b"a.z.t.", ttl, 7, b"h.u."),
            ],
            cuts: vec![],
        },
        ZoneD { apex: b"u.", ips: vec![[10, 0, 0, 3]], ns: vec![ns(b"u.", ttl_ns, b"n.u.")], recs: vec![au, a(b"q.u.", ttl_glue, [10, 0, 0, 5]), a(b"h.u.", ttl, [3, 3, 3, ver]), cname(b"al.u.", ttl, b"q.u."), mx(b"mx.u.", ttl, 1, b"h.u.")], cuts: vec![] },
        // Two labels below the root.
        ZoneD {
            apex: b"w.v.",
            ips: vec![[10, 0, 0, 6]],
            ns: vec![ns(b"w.v.", ttl_ns, b"n.w.v.")],
            recs: vec![aw, cname(b"g.w.v.", ttl, b"c.z.t."), a(b"b.c.w.v.", ttl, [4, 4, 4, ver]), cname(b"k.c.w.v.", ttl, b"b.c.w.v.")],
            cuts: vec![],
        },
    ];
    if twin {
        for (zi, ip) in [(1usize, [10u8, 0, 1, 1]), (2, [10, 0, 1, 2]), (3, [10, 0, 1, 3]), (4, [10, 0, 1, 4])] {
            zones[zi].ips.push(ip);
            let (node, target) = match zi { 1 => (&b"t."[..], &b"y.t."[..]), 2 => (&b"z.t."[..], &b"y.z.t."[..]), 3 => (&b"u."[..], &b"y.u."[..]), _ => (&b"w.v."[..], &b"y.w.v."[..]) };
            let g = a(target, ttl_glue, ip);
            zones[zi].ns.push(ns(node, ttl_ns, target));
            zones[zi].recs.push(g.clone());
            if zi == 2 {
                gluez.push(g.clone());
            }
            for z in zones.iter_mut() {
                for c in z.cuts.iter_mut() {
                    if c.0 == zi {
                        c.1.push(g.clone());
                    }
                }
            }
        }
    }
    World { zones, chase: false, extra: false, fault_at: 9999, faults: 0, fault: 0, answered: 0, extra_glue: gluez, dead: vec![], evil: None }
}
/// The closest zone to the name among those the server holds.
fn served(ip: [u8; 4], name: &[u8]) -> Option<usize> {
    if is_root_ip(ip) {
        return Some(0);
    }
    // (h.u. may be named as a nameserver of names in z.t.)
    if w().evil.is_some() && (ip == crate::evil::EVIL || ip[..3] == [3, 3, 3]) {
        return if within(name, b"z.t.") { Some(2) } else { None };
    }
    let mut best = None;
    let mut known = false;
    for (i, z) in w().zones.iter().enumerate() {
        if z.ips.contains(&ip) {
            known = true;
            if within(name, z.apex) && best.map_or(true, |b: usize| w().zones[b].apex.len() < z.apex.len()) {
                best = Some(i);
            }
        }
    }
    if !known {
        check(false, "a query is sent to an address no zone has given");
    }
    best
}
pub fn start() {
    unsafe {
        net::SEND = send;
        net::RECV = recv;
    }
    net::start();
}
/// The name of the server with this address.
pub fn server_name(ip: [u8; 4]) -> String {
    if let Some(k) = ROOT_IPS.iter().position(|r| *r == ip) {
        return format!("{}.root-servers.net.", (b'a' + k as u8) as char);
    }
    for z in &w().zones {
        for r in &z.recs {
            if r.record_type() == RecordType::A && *r.a_data() == ip {
                return r.node().to_string();
            }
        }
    }
    check(false, "a query is sent to an address no zone has given");
    String::new()
}

/// A larger world: zones nested `depth` deep with `nss` nameservers each, all but the last of which fail,
/// `recs` records of the name looked up, reached by a chain of `aliases`.
pub struct Shape {
    pub depth: usize,
    pub label: usize,
    pub nss: usize,
    pub how: u64,
    pub recs: usize,
    pub aliases: usize,
    pub glueless: usize,
}
fn keep(v: Vec<u8>) -> &'static [u8] {
    Box::leak(v.into_boxed_slice())
}
fn cat(a: &str, b: &[u8]) -> Vec<u8> {
    let mut v = a.as_bytes().to_vec();
    if b != b"." {
        v.extend_from_slice(b);
    }
    v
}
pub fn large(s: &Shape) -> (World, Vec<u8>) {
    let mut apex: Vec<&'static [u8]> = vec![b"."];
    for i in 0..s.depth {
        let l: String = (0..s.label).map(|k| (b'a' + ((i + k) % 26) as u8) as char).collect();
        apex.push(keep(cat(&format!("{}.", l), apex[i])));
    }
    let mut dead = vec![];
    let mut zones: Vec<ZoneD> = vec![ZoneD { apex: b".", ips: vec![], ns: vec![], recs: vec![], cuts: vec![] }];
    // The nested zones, then those that hold the names of the last one's nameservers.
    for g in 0..s.glueless {
        apex.push(keep(vec![b'0' + g as u8, b'.']));
    }
    let n = apex.len();
    for z in 1..n {
        let last = z >= s.depth && z + 1 < n;
        let home = if last { if z + 1 > s.depth { z + 1 } else { z } } else { z };
        let mut zd = ZoneD { apex: apex[z], ips: vec![], ns: vec![], recs: vec![], cuts: vec![] };
        let mut glue = vec![];
        for j in 0..s.nss {
            let name = cat(&format!("n{}{}.", z, (b'a' + j as u8) as char), apex[home]);
            let ip = [10, z as u8, j as u8, 9];
            zd.ips.push(ip);
            if j + 1 < s.nss {
                dead.push((ip, s.how));
            }
            zd.ns.push(ns(apex[z], 400, &name));
            if home == z {
                glue.push(a(&name, 500, ip));
            }
        }
        zd.recs = glue.clone();
        zones.push(zd);
        let parent = if z <= s.depth { z - 1 } else { 0 };
        zones[parent].cuts.push((z, glue));
    }
    // The addresses of nameservers elsewhere.
    for z in 1..n {
        for j in 0..s.nss {
            let r = a(text(zones[z].ns[j].ns_data()), 500, zones[z].ips[j]);
            let home = (1..n).filter(|h| within(text(r.node()), apex[*h])).max_by_key(|h| apex[*h].len()).unwrap();
            if home != z {
                zones[home].recs.push(r);
            }
        }
    }
    let d = s.depth;
    let host = cat("h.", apex[d]);
    for k in 0..s.recs {
        zones[d].recs.push(a(&host, 300, [1, 1, 1, k as u8]));
    }
    let mut next = host;
    for k in 0..s.aliases {
        let z = if k % 2 == 0 { 1 } else { d };
        let name = cat(&format!("c{}.", k), apex[z]);
        zones[z].recs.push(cname(&name, 300, &next));
        next = name;
    }
    (World { zones, chase: false, extra: false, fault_at: 9999, faults: 0, fault: 0, answered: 0, extra_glue: vec![], dead, evil: None }, next)
}
