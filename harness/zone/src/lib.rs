//! Harnesses for zone files (src/nameserver/zones).
use ariadne_dns::nameserver::*;
use ariadne_dns::shared::dns::*;
use symrt::*;
#[path = "../../shims/files.rs"]
mod files;
#[allow(dead_code)]
#[path = "../../codec/src/model.rs"]
mod model;
#[allow(dead_code)]
#[path = "../../codec/src/wire.rs"]
mod wire;
mod gen;
mod tok;
use gen::*;
use model::*;
use wire::*;

pub fn name_of(t: &[u8]) -> Name {
    match Name::from_string(unsafe { std::str::from_utf8_unchecked(t) }) {
        Ok(n) => n,
        Err(_) => {
            check(false, "a valid absolute name is rejected");
            loop {}
        }
    }
}
pub const HEAD: &[u8] = b"z. IN 90 SOA n.z. m.z. 1 2 3 4 60\nz. 70 NS n.z.\n";

pub struct Sub(pub &'static [u8], pub &'static str, pub u32, pub u32);
pub fn parse_with(zone: &[u8], ttl: u32, subs: &[Sub]) -> Option<ManagedZone> {
    let p = ParsingParams {
        file_path: "F".to_string(),
        zone: name_of(zone),
        starting_ttl: ttl,
        sub_zones: subs
            .iter()
            .map(|s| SubParsingParams { file_path: s.1.to_string(), zone: name_of(s.0), starting_ttl: s.2, min_ttl: s.3 })
            .collect(),
    };
    let r = parse_zone_files(p);
    files::done();
    r.ok()
}
pub fn parse(zone: &[u8], ttl: u32) -> Option<ManagedZone> {
    parse_with(zone, ttl, &[])
}

/// One of everything.
const BIG: &[u8] = b"z. 99 IN SOA n m (\n 1 2 ;c\n 3 4 60 )\n@ IN 70 NS n\nn A 1.2.3.4 ;c\n$ORIGIN o.z.\n\tMX 1 m\n@ 61 CNAME @\nw WKS 1.2.3.4 tcp a\np PTR q.\nh HINFO \"a b\" c\nt TXT \"\\\"\" (\n d ) e\n$INCLUDE I i\n";
const INC: &[u8] = b"x 65 IN A 1.2.3.4\n";

harnesses! {
/// Arbitrary bytes: an error or a zone, never a crash or a hang.
fn h_any_file() {
    let n = choose(param(0, 3) + 1) as usize;
    let mut f = match choose(4) {
        0 => vec![],
        1 => HEAD.to_vec(),
        2 => { let mut v = HEAD.to_vec(); v.extend_from_slice(b"a TXT "); v }
        _ => b"z. IN 90 SOA n.z. m.z. ".to_vec(),
    };
    f.extend_from_slice(&bytes_vec(n));
    files::add("F", f);
    match parse(b"z.", 80) {
        Some(_) => cover("ok"),
        None => cover("err"),
    }
}
/// A window of arbitrary bytes anywhere in a file that uses every construct,
/// optionally ending the file.
fn h_mutate_file() {
    let w = param(0, 1) as usize;
    let at = choose(BIG.len() as u64 + 1) as usize;
    let mut f = BIG[..at].to_vec();
    f.extend_from_slice(&bytes_vec(w));
    if boolv() {
        f.extend_from_slice(&BIG[(at + w * choose(2) as usize).min(BIG.len())..]);
    } else {
        cover("cut");
    }
    files::add("F", f);
    files::add("I", INC.to_vec());
    match parse(b"z.", 80) {
        Some(_) => cover("ok"),
        None => cover("err"),
    }
}
/// Arbitrary bytes in an included file and in a sub zone file.
fn h_any_other_file() {
    let n = choose(param(0, 3) + 1) as usize;
    let mut f = HEAD.to_vec();
    let mut s = b"s.z. 70 NS n.\n".to_vec();
    let mut i = vec![];
    if boolv() {
        i.extend_from_slice(match choose(2) { 0 => b"", _ => b"x " });
        i.extend_from_slice(&bytes_vec(n));
        cover("included");
    } else {
        s.extend_from_slice(match choose(2) { 0 => b"", _ => b"s.z. A " });
        s.extend_from_slice(&bytes_vec(n));
        cover("sub zone");
    }
    f.extend_from_slice(b"$INCLUDE I\n");
    files::add("F", f);
    files::add("I", i);
    files::add("S", s);
    match parse_with(b"z.", 80, &[Sub(b"s.z.", "S", 80, 60)]) {
        Some(_) => cover("ok"),
        None => cover("err"),
    }
}
/// Files that are not there.
fn h_missing_file() {
    let k = choose(4);
    if k != 0 {
        let mut v = HEAD.to_vec();
        v.extend_from_slice(b"$INCLUDE I\n");
        files::add("F", v);
    } else {
        files::add("G", vec![]);
    }
    if k != 1 { files::add("I", INC.to_vec()); }
    if k != 2 { files::add("S", b"s.z. 70 NS n.\n".to_vec()); }
    let r = parse_with(b"z.", 80, &[Sub(b"s.z.", "S", 80, 60)]);
    check(r.is_some() == (k == 3), "a missing file is not reported as an error");
}
/// The words of a record's data: quotes, escapes, parentheses and comments.
fn h_words() {
    let n = choose(param(0, 3)) as usize + 1;
    let b = bytes_vec(n);
    let mut f = HEAD.to_vec();
    let pre: &[u8] = match choose(param(1, 4)) { 0 => b"", 1 => b"\"", 2 => b"(", _ => b"c " };
    let post: &[u8] = match choose(3) { 0 => b"", 1 => b"\n", _ => b" d\nz. A 1.2.3.4" };
    let mut line = pre.to_vec();
    line.extend_from_slice(&b);
    line.extend_from_slice(post);
    for x in &b {
        assume(*x < 128);
    }
    f.extend_from_slice(b"a TXT ");
    f.extend_from_slice(&line);
    files::add("F", f);
    let want = tok::words(&line);
    let got = parse(b"z.", 80);
    tok::judge(&want, got.as_ref().map(|z| tok::txt(z)));
}
/// Every escape sequence, in every kind of place.
fn h_escapes() {
    let quoted = boolv();
    let n = 1 + choose(4) as usize;
    let b = bytes_vec(n);
    for x in &b {
        assume(*x < 128);
    }
    let mut line = if quoted { b"\"a\\".to_vec() } else { b"a\\".to_vec() };
    line.extend_from_slice(&b);
    if quoted { line.push(b'"'); }
    let mut f = HEAD.to_vec();
    f.extend_from_slice(b"a TXT ");
    f.extend_from_slice(&line);
    files::add("F", f);
    let want = tok::words(&line);
    let got = parse(b"z.", 80);
    tok::judge(&want, got.as_ref().map(|z| tok::txt(z)));
}
/// One record in every form.
fn h_record() {
    let mut g = G::new(param(0, 1) == 1 && boolv());
    g.context(choose(4));
    g.record(choose(OWNERS), choose(TTLS), choose(KINDS), choose(STYLES), true);
    g.record(1, 0, 0, 0, false);
    g.judge();
}
/// The data of every record type.
fn h_rdata() {
    let mut g = G::new(boolv());
    g.context(choose(2));
    g.rdata_variants(choose(RKINDS));
    g.judge();
}
/// Histories of directives and records.
fn h_sequence() {
    let mut g = G::new(false);
    let n = param(0, 3);
    for _ in 0..n {
        g.step(choose(STEPS));
    }
    g.record(1, 0, 0, 0, false);
    g.judge();
}
/// Lines that are not zone file entries.
fn h_reject() {
    let mut f = HEAD.to_vec();
    let k = choose(BAD.len() as u64) as usize;
    f.extend_from_slice(BAD[k]);
    if boolv() { f.extend_from_slice(b"\nb 70 A 1.2.3.4\n"); }
    files::add("F", f);
    files::add("I", INC.to_vec());
    log(k as u64);
    check(parse_with(b"z.", 80, &[]).is_none(), "a malformed entry is accepted");
}
/// Number limits: addresses, preferences, TTLs and SOA fields.
fn h_numbers() {
    numbers();
}
/// Many records, long lines, deep inclusion.
fn h_long() {
    long();
}
/// The starting SOA.
fn h_soa() {
    soa();
}
/// Validation of the authoritative zone and its sub zones.
fn h_validate() {
    validate(param(0, 2));
}
/// Many sub zones.
fn h_validate_many() {
    validate_many();
}
/// What a sub zone file may contain.
fn h_sub_entries() {
    sub_entries();
}
}
