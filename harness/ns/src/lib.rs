//! Harnesses for the nameserver's request handling (src/nameserver/handler.rs, zones/parser.rs).
use ariadne_dns::nameserver::*;
use ariadne_dns::shared::dns::*;
use ariadne_dns::shared::net::*;
use symrt::*;
#[path = "../../codec/src/model.rs"]
mod model;
#[path = "../../codec/src/req.rs"]
mod req;
#[path = "../../codec/src/wire.rs"]
mod wire;
use model::*;
use req::*;
use wire::*;

pub fn name_of(t: &[u8]) -> Name {
    match Name::from_string(unsafe { std::str::from_utf8_unchecked(t) }) {
        Ok(n) => n,
        Err(_) => {
            check(false, "a valid absolute name is rejected");
            loop {}
        }
    }
}
fn lower(b: u8) -> u8 {
    sel(b.wrapping_sub(b'A') < 26, (b | 0x20) as u64, b as u64) as u8
}
/// Same length and same letters, ignoring case: one formula.
fn same_label(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r = and(r, lower(a[i]) == lower(b[i]));
    }
    r
}
fn labels(t: &[u8]) -> Vec<&[u8]> {
    if t == b"." {
        return vec![];
    }
    let mut v = vec![];
    let mut st = 0;
    for i in 0..t.len() {
        if t[i] == b'.' {
            v.push(&t[st..i]);
            st = i + 1;
        }
    }
    v
}
/// Reference: label-wise suffix.
fn ref_in_zone(n: &[u8], z: &[u8]) -> bool {
    let (n, z) = (labels(n), labels(z));
    if n.len() < z.len() {
        return false;
    }
    let mut r = true;
    for i in 0..z.len() {
        r = and(r, same_label(n[n.len() - z.len() + i], z[i]));
    }
    r
}
fn ref_same(a: &[u8], b: &[u8]) -> bool {
    labels(a).len() == labels(b).len() && ref_in_zone(a, b)
}

/// k relative labels of one arbitrary character in front of a zone.
fn below(k: u64, zone: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..k {
        let b = u8v();
        assume(is_alnum(b));
        v.push(b);
        v.push(b'.');
    }
    if zone != b"." {
        v.extend_from_slice(zone);
    }
    if v.is_empty() {
        v.push(b'.');
    }
    v
}

struct Rec {
    node: Vec<u8>,
    rec: Record,
}
fn rec(kind: u64, node: &[u8], tag: u32, target: &[u8]) -> Rec {
    let n = name_of(node);
    let (class, ttl, data_len) = (Class::IN, tag, 0);
    let rec = match kind {
        0 => Record::A { node: n, class, ttl, data_len, address: [1, 2, 3, tag as u8] },
        1 => Record::CNAME { node: n, class, ttl, data_len, name: name_of(target) },
        2 => Record::TXT { node: n, class, ttl, data_len, txts: vec!["t".to_string()] },
        3 => Record::NS { node: n, class, ttl, data_len, name: name_of(target) },
        4 => Record::MX { node: n, class, ttl, data_len, priority: 7, name: name_of(target) },
        _ => Record::SOA { node: n, class, ttl, data_len, ns_name: name_of(target), ml_name: name_of(target), serial: 1, refresh: 2, retry: 3, expire: 4, minimum: 5 },
    };
    Rec { node: node.to_vec(), rec }
}
struct Sub {
    zone: Vec<u8>,
    ns: Vec<Rec>,
    ns_target: Vec<Vec<u8>>,
    a: Vec<Rec>,
}
struct World {
    apex: Vec<u8>,
    auth: Vec<Rec>,
    subs: Vec<Sub>,
}
fn managed(w: &World) -> ManagedZone {
    let mut auth_zone = Zone::new(&name_of(&w.apex));
    for r in &w.auth {
        auth_zone.insert(r.rec.clone());
    }
    let mut sub_zones = vec![];
    for s in &w.subs {
        let mut z = Zone::new(&name_of(&s.zone));
        for r in s.ns.iter().chain(&s.a) {
            z.insert(r.rec.clone());
        }
        sub_zones.push(z);
    }
    ManagedZone { auth_zone, sub_zones }
}

/// A zone with k further records at arbitrary names below the apex.
fn gen_auth(k: u64, apexes: u64) -> World {
    let apex: &[u8] = match choose(apexes) { 0 => b"z.", _ => b"." };
    let mut auth = vec![rec(5, apex, 100, b"n.o."), rec(3, apex, 101, b"n.o.")];
    for i in 0..k {
        let depth = choose(3);
        let kind = choose(3);
        auth.push(rec(kind, &below(depth, apex), 102 + i as u32, b"x.y."));
    }
    World { apex: apex.to_vec(), auth, subs: vec![] }
}
fn gen_subs(w: &mut World, k: u64) {
    let apex = w.apex.clone();
    for i in 0..k {
        let zone = below(1 + choose(2), &apex);
        w.subs.push(Sub { zone, ns: vec![], ns_target: vec![], a: vec![] });
        let _ = i;
    }
    let mut tag = 200;
    for i in 0..k as usize {
        let zone = w.subs[i].zone.clone();
        for _ in 0..1 + if i == 0 { choose(2) } else { 0 } {
            // a nameserver inside some sub zone, with its glue there, or elsewhere
            let t = choose(k + 1) as usize;
            let target = if t < k as usize { below(1, &w.subs[t].zone.clone()) } else { b"n.o.".to_vec() };
            let r = rec(3, &zone, tag, &target);
            tag += 1;
            w.subs[i].ns.push(r);
            w.subs[i].ns_target.push(target.clone());
            if t < k as usize {
                for _ in 0..1 + if t == i { choose(2) } else { 0 } {
                    let g = rec(0, &target, tag, b".");
                    tag += 1;
                    w.subs[t].a.push(g);
                }
            }
        }
    }
}

fn ask(w: &World, raw: &[u8]) -> Vec<Message> {
    let h = NameserverHandler(managed(w));
    let mut out = vec![];
    h.handle_request(Raw(raw), Cap(&mut out));
    for m in &out {
        // what the transports do with a reply
        match m.encode_to_bytes_trunc() {
            Ok(v) => check(Message::decode_from_bytes(&v).is_ok() || !matches!(m.header.op_code, OpCode::STD), "the reply can be decoded"),
            Err(_) => check(false, "the reply can be sent over UDP"),
        }
        check(m.encode_to_bytes().is_ok(), "the reply can be sent over TCP");
    }
    out
}
fn flags() -> u16 {
    // QR clear, standard query, known response code
    let w = u16v();
    assume(and(w & 0xf800 == 0, w & 15 <= 5));
    w
}
fn query(id: u16, w: u16, name: &[u8], ty: u16) -> Vec<u8> {
    let mut v = vec![];
    for x in [id, w, 1, 0, 0, 0] {
        p16(&mut v, x);
    }
    v.extend_from_slice(&wire_name(name));
    p16(&mut v, ty);
    p16(&mut v, 1);
    v
}
/// Header obligations common to all replies.
fn check_echo(m: &Message, id: u16, w: u16) {
    let h = &m.header;
    check(h.id == id, "the reply carries the request's id");
    check(h.query_resp, "the reply is marked as a response");
    check(h.op_code.to_num() as u16 == (w >> 11) & 15, "the reply carries the request's opcode");
    check(h.recursion_desired == ((w >> 8) & 1 == 1), "the reply carries the request's RD flag");
    check(!h.recursion_available, "a nameserver does not offer recursion");
    check(h.z == 0, "Z is zero in replies");
    check(!h.truncated, "TC is not copied from the request");
    check(h.questions_count as usize == m.questions.len() && h.answers_count as usize == m.answers.len() && h.authorities_count as usize == m.authorities.len()
        && h.additionals_count as usize == m.additionals.len(), "header counts describe the sections");
}
fn check_question(m: &Message, name: &[u8], ty: u16) {
    check(m.questions.len() == 1, "the question is echoed");
    if m.questions.len() == 1 {
        let q = &m.questions[0];
        check(bytes_eq(text(&q.node), name), "the question name is echoed");
        check(q.record_type.to_num() == ty && q.class.to_num() == 1, "the question type and class are echoed");
    }
}
/// Same records, in any order (tags are unique TTLs).
fn same_records(got: &[Record], want: &[&Record]) -> bool {
    if got.len() != want.len() {
        return false;
    }
    let mut ok = true;
    for w in want {
        match got.iter().find(|g| g.ttl() == w.ttl()) {
            Some(g) => ok = and(ok, bytes_eq(&ref_record(g), &ref_record(w))),
            None => return false,
        }
    }
    ok
}
fn rc(m: &Message) -> u16 {
    rcode_num(m.header.resp_code)
}
const TYPES: [u16; 6] = [1, 2, 5, 6, 15, 16];

/// Judges a reply to a valid query from the zone's contents alone.
fn judge(w: &World, name: &[u8], ty: u16, id: u16, fl: u16, replies: &[Message]) {
    check(replies.len() == 1, "exactly one reply per request");
    if replies.len() != 1 {
        return;
    }
    let m = &replies[0];
    check_echo(m, id, fl);
    check_question(m, name, ty);
    if !ref_in_zone(name, &w.apex) {
        cover("refused");
        check(rc(m) == 5, "a name outside the zone is refused");
        check(m.answers.is_empty() && m.authorities.is_empty() && m.additionals.is_empty(), "a refusal carries no records");
        return;
    }
    let mut cuts = vec![];
    for s in &w.subs {
        if ref_in_zone(name, &s.zone) {
            cuts.push(s);
        }
    }
    if !cuts.is_empty() {
        cover("delegated");
        check(rc(m) == 0, "a delegation is not an error");
        check(!m.header.auth_answer, "a delegation is not authoritative");
        check(m.answers.is_empty(), "a delegation has no answers");
        let mut hit = false;
        for s in cuts {
            let ns: Vec<&Record> = s.ns.iter().map(|r| &r.rec).collect();
            if same_records(&m.authorities, &ns) {
                hit = true;
                // every address known for those nameservers, and nothing else
                let mut glue: Vec<&Record> = vec![];
                for o in &w.subs {
                    for a in &o.a {
                        if s.ns_target.iter().any(|t| ref_same(t, &a.node)) {
                            glue.push(&a.rec);
                            cover("glue");
                        }
                    }
                }
                for g in &glue {
                    check(m.additionals.iter().any(|x| x.ttl() == g.ttl() && bytes_eq(&ref_record(x), &ref_record(g))), "the delegation carries the glue address of each of its nameservers");
                }
                for x in &m.additionals {
                    check(glue.iter().any(|g| g.ttl() == x.ttl()), "the delegation carries no other addresses");
                }
                break;
            }
        }
        check(hit, "a delegation carries exactly the NS records of a sub zone containing the name");
        return;
    }
    check(m.header.auth_answer, "an answer from the zone is authoritative");
    check(m.additionals.is_empty(), "no additional records in an answer from the zone");
    let mut exact: Vec<&Record> = vec![];
    let mut cname: Vec<&Record> = vec![];
    let mut exists = false;
    for r in &w.auth {
        if ref_same(name, &r.node) {
            exists = true;
            if r.rec.record_type().to_num() == ty {
                exact.push(&r.rec);
            }
            if r.rec.record_type().to_num() == 5 {
                cname.push(&r.rec);
            }
        } else if ref_in_zone(&r.node, name) {
            exists = true;
        }
    }
    if !exact.is_empty() || !cname.is_empty() {
        let want = if exact.is_empty() { cover("alias"); &cname } else { cover("answer"); &exact };
        check(rc(m) == 0, "an existing record set is served without error");
        check(same_records(&m.answers, want), "the answer is exactly the matching records, or the alias of the name");
        check(m.authorities.is_empty(), "no authority records beside an answer");
        return;
    }
    check(m.answers.is_empty(), "no answers without matching records");
    check(same_records(&m.authorities, &[&w.auth[0].rec]), "a negative answer carries the zone's SOA record");
    if exists {
        cover("no data");
        check(rc(m) == 0, "a name that exists without the type is not reported as non-existent");
    } else {
        cover("nxdomain");
        check(rc(m) == 3, "a name that does not exist is reported as such");
    }
}

harnesses! {
/// Any records, any query, no sub zones.
fn h_answers() {
    let w = gen_auth(1 + choose(param(0, 2)), 2);
    let name = if choose(2) == 0 { below(choose(param(1, 3) + 1), &w.apex) } else { below(1 + choose(2), b"o.") };
    let ty = TYPES[choose(6) as usize];
    let (id, fl) = (u16v(), flags());
    let r = ask(&w, &query(id, fl, &name, ty));
    judge(&w, &name, ty, id, fl, &r);
}
/// Sub zones and their nameservers, one record beside them.
fn h_delegation() {
    let mut w = gen_auth(0, param(2, 1));
    gen_subs(&mut w, 1 + choose(param(0, 2)));
    let name = below(choose(param(1, 2) + 1), &w.apex);
    let ty = TYPES[choose(2) as usize];
    let (id, fl) = (u16v(), flags());
    let r = ask(&w, &query(id, fl, &name, ty));
    judge(&w, &name, ty, id, fl, &r);
}
/// Many records, names, nameservers, addresses and sub zones, and long names.
fn h_many() {
    const N: [usize; 12] = [2, 3, 8, 16, 17, 33, 64, 65, 128, 129, 256, 257];
    let n = N[choose(12) as usize];
    let mut w = World { apex: b"z.".to_vec(), auth: vec![rec(5, b"z.", 100, b"n.o."), rec(3, b"z.", 101, b"n.o.")], subs: vec![] };
    let num = |p: &str, i: usize, s: &str| format!("{}{}{}", p, i, s).into_bytes();
    let deep = |n: usize, s: &str| {
        let mut v = vec![];
        for _ in 0..n.min(120) { v.extend_from_slice(b"l.") }
        v.extend_from_slice(s.as_bytes());
        v
    };
    let mut name = b"x.z.".to_vec();
    let last = u8v();
    assume(is_alnum(last));
    match param(0, 0) + choose(param(1, 8)) {
        // records of one name and type, or of many names
        0 => for i in 0..n { w.auth.push(rec(0, b"x.z.", 102 + i as u32, b".")); },
        1 => {
            for i in 0..n { w.auth.push(rec(2, &num("x", i, ".z."), 102 + i as u32, b".")); }
            name = match choose(3) { 0 => num("x", n - 1, ".z."), 1 => num("x", n, ".z."), _ => vec![b'x', last, b'.', b'z', b'.'] };
        }
        // a name far below the zone
        2 => {
            let x = deep(n, "x.z.");
            w.auth.push(rec(0, &x, 102, b"."));
            name = match choose(4) { 0 => x, 1 => x[2..].to_vec(), 2 => deep(1, "y.z."), _ => b"z.".to_vec() };
        }
        3 => {
            let x = b"x.z.".to_vec();
            w.auth.push(rec(0, &x, 102, b"."));
            name = deep(n, if choose(2) == 0 { "x.z." } else { "x.y." });
        }
        // a long label
        4 => {
            let mut x = vec![b'l'; n.min(62)];
            x.push(last);
            x.extend_from_slice(b".z.");
            w.auth.push(rec(1, &x, 102, b"n.o."));
            name = x;
            if choose(2) == 0 { name.remove(0); }
        }
        // nameservers of a sub zone, with their addresses
        5 => {
            let mut s = Sub { zone: b"s.z.".to_vec(), ns: vec![], ns_target: vec![], a: vec![] };
            for i in 0..n {
                let t = num("n", i, ".s.z.");
                s.ns.push(rec(3, b"s.z.", 200 + i as u32, &t));
                s.a.push(rec(0, &t, 1000 + i as u32, b"."));
                s.ns_target.push(t);
            }
            w.subs.push(s);
            name = match choose(3) { 0 => b"s.z.".to_vec(), 1 => b"x.S.z.".to_vec(), _ => deep(n, "s.z.") };
        }
        // addresses of one nameserver
        6 => {
            let mut s = Sub { zone: b"s.z.".to_vec(), ns: vec![rec(3, b"s.z.", 200, b"n.s.z.")], ns_target: vec![b"n.s.z.".to_vec()], a: vec![] };
            for i in 0..n { s.a.push(rec(0, b"n.s.z.", 1000 + i as u32, b".")); }
            w.subs.push(s);
            name = b"s.z.".to_vec();
        }
        // sub zones
        _ => {
            for i in 0..n {
                let z = num("s", i, ".z.");
                let t = num("n.s", n - 1 - i, ".z.");
                let own = num("n.s", i, ".z.");
                w.subs.push(Sub { zone: z.clone(), ns: vec![rec(3, &z, 200 + i as u32, &t)], ns_target: vec![t], a: vec![rec(0, &own, 1000 + i as u32, b".")] });
            }
            name = match choose(4) { 0 => num("x.s", n - 1, ".z."), 1 => b"s0.z.".to_vec(), 2 => num("s", n, ".z."), _ => vec![b'y', b'.', b's', last, b'.', b'z', b'.'] };
        }
    }
    let ty = TYPES[choose(6) as usize];
    let (id, fl) = (u16v(), flags());
    let r = ask(&w, &query(id, fl, &name, ty));
    judge(&w, &name, ty, id, fl, &r);
}
/// Any header, well-formed or not bodies: one reply with the right code, or silence
/// when not even the header can be read.
fn h_requests() {
    let w = World { apex: b"z.".to_vec(), auth: vec![rec(5, b"z.", 100, b"n.o."), rec(3, b"z.", 101, b"n.o."), rec(0, b"a.z.", 102, b".")], subs: vec![] };
    let (id, fl) = (u16v(), u16v());
    let (v, kept, bad) = gen_request(id, fl, b"a.z.");
    let replies = ask(&w, &v);
    let opc = (fl >> 11) & 15;
    if or(opc > 2, fl & 15 > 5) {
        cover("unreadable header");
        check(replies.is_empty(), "no reply when the header cannot be decoded");
        return;
    }
    check(replies.len() == 1, "exactly one reply per request");
    if replies.len() != 1 { return }
    let m = &replies[0];
    check_echo(m, id, fl);
    let code = rc(m);
    log(code as u64);
    if opc != 0 || bad == 2 {
        cover("not implemented");
        check(code == 4, "unsupported features are reported as not implemented");
    } else if bad == 1 || fl >= 0x8000 || kept[0] != 1 || kept[1] != 0 || kept[2] != 0 {
        cover("format error");
        check(code == 1, "malformed requests are reported as format errors");
    } else {
        cover("served");
        check(code == 0 && m.answers.len() == 1, "a well-formed query is served");
        return;
    }
    check(m.answers.is_empty() && m.authorities.is_empty() && m.additionals.is_empty(), "an error reply carries no records");
}
/// Shorter than a header: silence.
fn h_short() {
    let w = World { apex: b"z.".to_vec(), auth: vec![rec(5, b"z.", 100, b"n.o.")], subs: vec![] };
    let n = choose(12) as usize;
    let r = ask(&w, &bytes_vec(n));
    check(r.is_empty(), "no reply to less than a header");
}
/// Zone containment, equality and hashing of any two or three names.
fn h_in_zone() {
    let (a, z) = (free_name(choose(param(0, 3) + 1)), free_name(choose(param(0, 3) + 1)));
    let (na, nz) = (name_of(&a), name_of(&z));
    let want = ref_in_zone(&a, &z);
    let got = na.is_in_zone(&nz);
    check(got == want, "a name is in a zone exactly when the zone's labels end the name's, ignoring case");
    if got { cover("inside") } else { cover("outside") }
    let same = ref_same(&a, &z);
    check((na == nz) == same, "names are equal exactly when their labels are, ignoring case");
    check(na.is_in_zone_root(&nz) == same, "only the zone's own name is its top node");
    if same {
        let (mut x, mut y) = (Rec8(vec![]), Rec8(vec![]));
        std::hash::Hash::hash(&na, &mut x);
        std::hash::Hash::hash(&nz, &mut y);
        check(bytes_eq(&x.0, &y.0), "equal names hash equally");
        cover("equal");
    }
}
fn h_only_in_auth() {
    let (a, z) = (free_name(choose(3)), free_name(choose(2)));
    let subs: Vec<Vec<u8>> = (0..choose(3)).map(|_| free_name(1 + choose(2))).collect();
    let ns: Vec<Name> = subs.iter().map(|s| name_of(s)).collect();
    let mut want = ref_in_zone(&a, &z);
    for s in &subs { want = and(want, !ref_in_zone(&a, s)); }
    let got = name_of(&a).is_only_in_auth_zone(&name_of(&z), &ns);
    check(got == want, "a name belongs to the zone itself when it is in the zone and in none of its sub zones");
    if got { cover("own") } else { cover("not own") }
}
}

struct Rec8(Vec<u8>);
impl std::hash::Hasher for Rec8 {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
/// k labels of one or two arbitrary letters or digits.
fn free_name(k: u64) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..k {
        for _ in 0..1 + choose(2) {
            let b = u8v();
            assume(is_alnum(b));
            v.push(b);
        }
        v.push(b'.');
    }
    if v.is_empty() { v.push(b'.') }
    v
}
