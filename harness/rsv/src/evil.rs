//! A hostile nameserver: what it answers is a free choice within a palette.
use crate::up::*;
use crate::wire::*;
use crate::*;

pub const EVIL: [u8; 4] = [6, 6, 6, 6];
/// One choice of the hostile responses' shape; names may depend on the name asked.
#[derive(Clone, Copy)]
pub struct Plan {
    pub flags: u16,
    pub an: u64,
    pub owner: u64,
    pub target: u64,
    pub ar: u64,
}
/// Owners of the nameserver records: the victims' zones, own zones, unrelated ones.
const OWNERS: [&[u8]; 7] = [b"z.t.", b"s.z.t.", b"u.", b"t.", b".", b"h.u.", b"www.u."];
/// The nameservers named.
const TARGETS: [&[u8]; 4] = [b"q.u.", b"n.s.z.t.", b"h.u.", b"n.z.t."];
pub fn plan() -> Plan {
    let flags = [QR, AA, NX][choose(3) as usize];
    let an = choose(7);
    let owner = choose(9);
    let target = if owner == 0 { 0 } else { choose(param(1, 4)) };
    let ar = choose(5);
    Plan { flags, an, owner, target, ar }
}
pub fn reply(p: &Plan, q: &Query) -> Msg {
    let mut m = Msg { flags: p.flags, ..Msg::default() };
    match p.an {
        0 => {}
        1 => m.an.push(a(&q.name, 900, EVIL)),
        2 => m.an.push(cname(&q.name, 900, b"h.u.")),
        3 => m.an.push(cname(&q.name, 900, b"a.s.z.t.")),
        4 => {
            m.an.push(cname(&q.name, 900, b"h.u."));
            m.an.push(a(b"h.u.", 900, EVIL));
        }
        5 => {
            m.an.push(a(b"h.u.", 900, EVIL));
            m.an.push(ns(b"u.", 900, b"e.z.t."));
        }
        _ => {
            m.an.push(mx(&q.name, 900, 1, b"h.u."));
            m.an.push(cname(&q.name, 900, &q.name));
            m.an.push(a(&q.name, 9, EVIL));
        }
    }
    let t = TARGETS[p.target as usize];
    match p.owner {
        0 => {}
        8 => {
            m.ns.push(ns(b"s.z.t.", 900, t));
            m.ns.push(ns(b"a.s.z.t.", 700, t));
            m.ns.push(soa(b"u.", 900));
        }
        o => {
            m.ns.push(ns(OWNERS[o as usize - 1], 900, t));
            m.ns.push(soa(&q.name, 900));
        }
    }
    match p.ar {
        0 => {}
        1 => m.ar.push(a(t, 900, EVIL)),
        2 => m.ar.push(a(b"h.u.", 900, EVIL)),
        3 => {
            m.ar.push(a(t, 900, EVIL));
            m.ar.push(a(t, 800, [10, 0, 0, 2]));
            m.ar.push(a(b"n.u.", 900, EVIL));
            m.ar.push(a(b"n.t.", 900, EVIL));
        }
        _ => {
            m.ar.push(mx(t, 900, 1, t));
            m.ar.push(ns(b"u.", 900, t));
        }
    }
    m
}

/// How the endless servers go on.
pub static mut WAY: u64 = 0;
static mut FRESH: u32 = 0;
fn fresh() -> Vec<u8> {
    unsafe { FRESH += 1 };
    let mut l = vec![b'f'];
    let mut k = unsafe { FRESH };
    while k > 0 {
        l.push(b'a' + (k % 26) as u8);
        k /= 26;
    }
    l.push(b'.');
    let mut v = l.clone();
    v.extend_from_slice(&l);
    v
}
fn parent(n: &[u8]) -> &[u8] {
    match n.iter().position(|b| *b == b'.') {
        Some(i) if i + 1 < n.len() => &n[i + 1..],
        _ => b".",
    }
}
pub fn endless() -> Option<(Vec<u8>, [u8; 4], u16)> {
    let q = last();
    let (f, g) = (fresh(), fresh());
    let mut m = Msg { flags: AA, ..Msg::default() };
    match unsafe { WAY } {
        0 => m.an.push(cname(&q.name, 900, &f)),
        1 => {
            // a delegation to a zone, closer every time, with an address
            m.flags = QR;
            let z = if is_root_ip(q.ip) { parent(&q.name) } else { &q.name[..] };
            m.ns.push(ns(z, 900, &f));
            m.ar.push(a(&f, 900, EVIL));
        }
        2 | 3 | 4 => {
            // nameservers without addresses, never seen before
            m.flags = QR;
            let z = parent(&q.name);
            m.ns.push(ns(z, 900, &f));
            if unsafe { WAY } > 2 {
                m.ns.push(ns(z, 900, &g));
            }
            if unsafe { WAY } == 4 {
                m.an.push(cname(&q.name, 900, &g));
            }
        }
        5 => {
            // an alias along with nameservers for its target
            m.an.push(cname(&q.name, 900, &f));
            m.ns.push(ns(b".", 900, &g));
        }
        7 | 8 | 9 => {
            // referrals from the servers of "a." to themselves, up, or by a nameserver without address
            m.flags = QR;
            if is_root_ip(q.ip) || unsafe { WAY } == 7 {
                m.ns.push(ns(b"a.", 900, b"n.a."));
            } else {
                m.ns.push(ns(if unsafe { WAY } == 8 { b"." } else { b"a." }, 900, if unsafe { WAY } == 8 { b"n.a." } else { b"m.a." }));
            }
            if is_root_ip(q.ip) || unsafe { WAY } < 9 {
                m.ar.push(a(b"n.a.", 900, EVIL));
            }
        }
        6 => {
            // a nameserver whose name is an alias
            if is_root_ip(q.ip) && q.name[0] == b'a' {
                m.flags = QR;
                m.ns.push(ns(parent(&q.name), 900, &f));
            } else {
                m.an.push(cname(&q.name, 900, &f));
            }
        }
        _ => {
            // two names, each with a nameserver in the other
            m.flags = QR;
            let z = parent(&q.name);
            m.ns.push(ns(z, 0, if z == b"a." { b"b.b." } else { b"a.a." }));
        }
    }
    Some((encode(q, &m), q.ip, 53))
}
/// The first servers asked answer as planned, the rest not at all.
pub static mut PLANS: [Plan; 2] = [Plan { flags: AA, an: 0, owner: 0, target: 0, ar: 0 }; 2];
static mut STEP: usize = 0;
pub fn two_steps() -> Option<(Vec<u8>, [u8; 4], u16)> {
    let q = last();
    unsafe {
        STEP += 1;
        if STEP > 2 * PLANS.len() {
            return None;
        }
        Some((encode(q, &reply(&PLANS[(STEP - 1) % 2], q)), q.ip, 53))
    }
}
/// What the second server answers.
pub const SECOND: [Plan; 6] = [
    Plan { flags: AA, an: 1, owner: 0, target: 0, ar: 0 },
    Plan { flags: NX, an: 0, owner: 1, target: 0, ar: 0 },
    Plan { flags: QR, an: 0, owner: 2, target: 1, ar: 1 },
    Plan { flags: AA, an: 3, owner: 2, target: 1, ar: 3 },
    Plan { flags: QR, an: 0, owner: 8, target: 2, ar: 0 },
    Plan { flags: AA, an: 6, owner: 0, target: 0, ar: 4 },
];
