//! Configuration files: JSON texts with one part varied, and what they mean.
use symrt::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Ty {
    /// Unsigned number up to a maximum; whether zero is accepted, rejected or left open.
    Num(u64, Option<bool>),
    Ip,
    Level,
    Bool,
    Zone,
    Text,
    /// The list of sub zones, where it has none.
    None_,
}
/// A field: its path, its type, a valid text and, for numbers, its value.
pub struct Field(pub &'static str, pub Ty, pub &'static str);
pub const U64: u64 = u64::MAX;
use Ty::*;
pub const RSV: &[Field] = &[
    Field("log_level", Level, "\"ERROR\""),
    Field("udp_server.address", Ip, "\"127.0.0.1\""),
    Field("udp_server.port", Num(65535, None), "53"),
    Field("udp_server.write_timeout", Num(U64, Some(false)), "11"),
    Field("udp_server.threads", Num(U64, Some(false)), "2"),
    Field("tcp_server.address", Ip, "\"127.0.0.2\""),
    Field("tcp_server.port", Num(65535, None), "54"),
    Field("tcp_server.read_timeout", Num(U64, Some(false)), "12"),
    Field("tcp_server.write_timeout", Num(U64, Some(false)), "13"),
    Field("tcp_server.threads", Num(U64, Some(false)), "3"),
    Field("resolver.max_ns_queried", Num(U64, Some(false)), "4"),
    Field("resolver.max_ns_retries", Num(U64, Some(false)), "5"),
    Field("resolver.max_cname_redir", Num(U64, Some(false)), "6"),
    Field("resolver.read_timeout", Num(U64, Some(false)), "14"),
    Field("resolver.write_timeout", Num(U64, Some(false)), "15"),
    Field("resolver.cache_conf.clean_period", Num(U64, Some(false)), "16"),
    Field("resolver.cache_conf.entries_cleaned", Num(U64, Some(false)), "17"),
    Field("resolver.trace_conf.silent", Bool, "true"),
    Field("resolver.trace_conf.verbose", Bool, "false"),
    Field("resolver.trace_conf.color", Bool, "false"),
];
pub const NS: &[Field] = &[
    Field("log_level", Level, "\"ERROR\""),
    Field("udp_server.address", Ip, "\"127.0.0.1\""),
    Field("udp_server.port", Num(65535, None), "53"),
    Field("udp_server.write_timeout", Num(U64, Some(false)), "11"),
    Field("udp_server.threads", Num(U64, Some(false)), "2"),
    Field("tcp_server.address", Ip, "\"127.0.0.2\""),
    Field("tcp_server.port", Num(65535, None), "54"),
    Field("tcp_server.read_timeout", Num(U64, Some(false)), "12"),
    Field("tcp_server.write_timeout", Num(U64, Some(false)), "13"),
    Field("tcp_server.threads", Num(U64, Some(false)), "3"),
    Field("zone.starting_ttl", Num(u32::MAX as u64, Some(true)), "21"),
    Field("zone.zone", Zone, "\"z.\""),
    Field("zone.file", Text, "\"z.txt\""),
    Field("zone.sub_zones.starting_ttl", Num(u32::MAX as u64, Some(true)), "22"),
    Field("zone.sub_zones.min_ttl", Num(u32::MAX as u64, Some(true)), "23"),
    Field("zone.sub_zones.zone", Zone, "\"s.z.\""),
    Field("zone.sub_zones.file", Text, "\"s.txt\""),
    Field("zone.sub_zones#2.starting_ttl", Num(u32::MAX as u64, Some(true)), "24"),
    Field("zone.sub_zones#2.min_ttl", Num(u32::MAX as u64, Some(true)), "25"),
    Field("zone.sub_zones#2.zone", Zone, "\"t.z.\""),
    Field("zone.sub_zones#2.file", Text, "\"t.txt\""),
];
/// Without any sub zones.
pub const NS0: &[Field] = &[
    Field("log_level", Level, "\"ERROR\""),
    Field("udp_server.address", Ip, "\"127.0.0.1\""),
    Field("udp_server.port", Num(65535, None), "53"),
    Field("udp_server.write_timeout", Num(U64, Some(false)), "11"),
    Field("udp_server.threads", Num(U64, Some(false)), "2"),
    Field("tcp_server.address", Ip, "\"127.0.0.2\""),
    Field("tcp_server.port", Num(65535, None), "54"),
    Field("tcp_server.read_timeout", Num(U64, Some(false)), "12"),
    Field("tcp_server.write_timeout", Num(U64, Some(false)), "13"),
    Field("tcp_server.threads", Num(U64, Some(false)), "3"),
    Field("zone.starting_ttl", Num(u32::MAX as u64, Some(true)), "21"),
    Field("zone.zone", Zone, "\"z.\""),
    Field("zone.file", Text, "\"z.txt\""),
    Field("zone.sub_zones", None_, "[]"),
];
/// The file, with the texts given in place of the valid ones; an empty text leaves the field out.
pub fn render(fields: &[Field], texts: &[Vec<u8>]) -> Vec<u8> {
    let mut out = b"{".to_vec();
    let mut open: Vec<&str> = vec![];
    let mut first = true;
    for (f, t) in fields.iter().zip(texts) {
        let mut path: Vec<&str> = f.0.split('.').collect();
        let key = path.pop().unwrap();
        let mut k = 0;
        while k < open.len() && k < path.len() && open[k] == path[k] {
            k += 1;
        }
        while open.len() > k {
            let c = open.pop().unwrap();
            if open.len() == k && path.get(k).is_some_and(|p| p.contains('#')) {
                out.extend_from_slice(b"},\n{");
                open.push(path[k]);
                first = true;
                k += 1;
                break;
            }
            out.extend_from_slice(if c.starts_with("sub_zones") { b"}]" } else { b"}" });
            first = false;
        }
        for p in &path[k..] {
            out.extend_from_slice(if first { b"\n\"" } else { b",\n\"" });
            out.extend_from_slice(p.as_bytes());
            out.extend_from_slice(if *p == "sub_zones" { b"\": [{" } else { b"\": {" });
            open.push(p);
            first = true;
        }
        if t.is_empty() {
            continue;
        }
        out.extend_from_slice(if first { b" \"" } else { b", \"" });
        out.extend_from_slice(key.as_bytes());
        out.extend_from_slice(b"\": ");
        out.extend_from_slice(t);
        first = false;
    }
    while let Some(c) = open.pop() {
        out.extend_from_slice(if c.starts_with("sub_zones") { b"}]" } else { b"}" });
    }
    out.extend_from_slice(b"}\n");
    out
}
pub fn valid(fields: &[Field]) -> Vec<Vec<u8>> {
    fields.iter().map(|f| f.2.as_bytes().to_vec()).collect()
}
/// What a varied text means: Some(ok, number); None: left open.
pub type Meaning = Option<(bool, u64)>;

/// Some text in place of a valid one.
pub fn vary(t: Ty) -> (Vec<u8>, Meaning) {
    let bad = Some((false, 0));
    let pick = |l: &[(&str, Meaning)]| {
        let k = choose(l.len() as u64) as usize;
        (l[k].0.as_bytes().to_vec(), l[k].1)
    };
    let ok = Some((true, 0));
    match t {
        Num(max, zero) => match choose(3) {
            0 => pick(&[
                ("", bad), ("-1", bad), ("\"1\"", bad), ("null", bad), ("true", bad), ("[1]", bad), ("+1", bad), ("1x", bad), ("0x1", bad), ("-0", None),
                ("18446744073709551616", bad), ("99999999999999999999", bad),
            ]),
            1 => {
                // The limits.
                let d = choose(3);
                let v = if d == 2 { max } else { (max / 2).wrapping_add(d) };
                let mut s = v.to_string().into_bytes();
                if choose(2) == 1 && max != U64 {
                    s = (max + 1 + d).to_string().into_bytes();
                    return (s, bad);
                }
                (s, Some((true, v)))
            }
            _ => {
                // One or two arbitrary digits.
                let n = 1 + choose(2);
                let mut s = vec![];
                let mut v = 0u64;
                for _ in 0..n {
                    let d = u8v();
                    assume(d < 10);
                    s.push(b'0' + d);
                    v = v * 10 + d as u64;
                }
                if n == 2 && s[0] == b'0' {
                    return (s, bad);
                }
                if v == 0 {
                    return (s, zero.map(|z| (z, 0)));
                }
                (s, Some((true, v)))
            }
        },
        Ip => pick(&[
            ("", bad), ("\"\"", bad), ("\"localhost\"", bad), ("\"1.2.3\"", bad), ("\"1.2.3.256\"", bad), ("\"1.2.3.4.5\"", bad), ("\"1.2.3.4:53\"", bad),
            ("\" 1.2.3.4\"", bad), ("\"[::1]\"", bad), ("\":::\"", bad), ("7", bad), ("null", bad),
            ("\"0.0.0.0\"", ok), ("\"255.255.255.255\"", ok), ("\"::1\"", ok), ("\"::\"", ok), ("\"1:2:3:4:5:6:7:8\"", ok), ("\"::ffff:1.2.3.4\"", ok),
        ]),
        Level => pick(&[
            ("", bad), ("\"\"", bad), ("\"ALL\"", bad), ("1", bad), ("null", bad), ("\"ERRO\"", bad),
            ("\"ERROR\"", Some((true, 1))), ("\"WARN\"", Some((true, 2))), ("\"INFO\"", Some((true, 3))), ("\"DEBUG\"", Some((true, 4))), ("\"TRACE\"", Some((true, 5))),
            ("\"warn\"", Some((true, 2))), ("\"Info\"", Some((true, 3))),
        ]),
        Bool => pick(&[("", bad), ("0", bad), ("\"true\"", bad), ("null", bad), ("True", bad), ("true", Some((true, 1))), ("false", Some((true, 0)))]),
        Zone => pick(&[
            ("", bad), ("\"\"", bad), ("\"z\"", bad), ("\"a..z.\"", bad), ("\"a b.\"", bad), ("\"-a.\"", bad), ("5", bad), ("null", bad),
            ("\".\"", ok), ("\"a.\"", ok), ("\"A.b-2.z.\"", ok),
        ]),
        None_ => pick(&[("", bad), ("{}", bad), ("null", bad), ("[1]", bad), ("[{}]", bad), ("[null]", bad), ("\"\"", bad), ("[ ]", ok)]),
        Text => pick(&[("", bad), ("5", bad), ("null", bad), ("\"\"", ok), ("\"/a/b c\"", ok)]),
    }
}
