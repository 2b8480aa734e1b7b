//! Requests as servers receive them: any header over well-formed, unknown or unsupported entries.
use crate::model::*;
use ariadne_dns::shared::dns::*;
use ariadne_dns::shared::net::*;
use symrt::*;

/// The server side of a transport: the same three-way decoding as the UDP and TCP requests.
pub struct Raw<'a>(pub &'a [u8]);
impl<'a> DnsRead for Raw<'a> {
    fn read(self) -> DnsReadResult {
        match Message::decode_from_bytes(self.0) {
            Ok(m) => DnsReadResult::FullMessage(m),
            Err(e) => match Header::decode_from_bytes(self.0) {
                Ok(h) => DnsReadResult::HeaderOnly(h, e),
                Err(eh) => DnsReadResult::ParseErr(e, eh),
            },
        }
    }
}
pub struct Cap<'a>(pub &'a mut Vec<Message>);
impl<'a> DnsWrite for Cap<'a> {
    fn reply(self, m: Message) -> std::io::Result<()> {
        self.0.push(m);
        Ok(())
    }
}

/// A request with up to two questions and one record per other section; how many known
/// entries each section has, and how the body goes wrong: 0 fine, 1 malformed, 2 unsupported.
pub fn gen_request(id: u16, fl: u16, name: &[u8]) -> (Vec<u8>, [usize; 4], u8) {
    let mut body: Vec<u8> = vec![];
    let mut n = [0u16; 4];
    // how the body goes wrong, if it does: 0 fine, 1 malformed, 2 unsupported feature
    let mut bad = 0;
    let mut kept = [0usize; 4];
    // one question, and many alike entries of one section?
    let many = if choose(5) == 0 { Some((choose(4) as usize, [2, 3, 4, 8, 9, 16, 17, 65][choose(8) as usize], choose(2))) } else { None };
    for s in 0..4 {
        let k = match many {
            Some((m, k, _)) => if s == m { k } else { (s == 0) as u64 },
            None => choose(if s == 0 { 3 } else { 2 }),
        };
        for _ in 0..k {
            n[s] += 1;
            if bad != 0 { continue }
            body.extend_from_slice(&wire_name(name));
            let (ty, cl) = match many.map_or_else(|| choose(5), |m| (m.0 == s && m.2 == 1) as u64) {
                0 => (1, 1),
                1 => { let t = u16v(); assume(or(t == 0, or(and(t > 16, t < 252), t > 255))); (t, 1) }
                2 => { let t = u16v(); assume(or(or(t == 3, t == 4), or(and(t >= 7, t <= 10), or(t == 14, and(t >= 252, t <= 255))))); (t, 1) }
                3 => { let c = u16v(); assume(or(and(c >= 2, c <= 4), c == 255)); (1, c) }
                _ => { let c = u16v(); assume(or(c == 0, or(and(c > 4, c < 255), c > 255))); (1, c) }
            };
            let known = ty == 1 || !or(ty == 0, or(and(ty > 16, ty < 252), ty > 255));
            if !known { cover("unknown type") }
            if known {
                if ty != 1 { bad = 2 }
                else if cl != 1 { if or(and(cl >= 2, cl <= 4), cl == 255) { bad = 2 } else { bad = 1 } }
                else { kept[s] += 1 }
            }
            p16(&mut body, ty);
            p16(&mut body, cl);
            if s > 0 {
                p32(&mut body, 9);
                p16(&mut body, 4);
                for b in [1, 2, 3, 4] { body.push(b) }
            }
        }
    }
    // possibly cut short
    if choose(2) == 1 && bad == 0 && !body.is_empty() {
        let c = 1 + choose(3) as usize;
        let l = body.len() - c;
        body.truncate(l);
        bad = 1;
        cover("cut");
    }
    let mut v = vec![];
    for x in [id, fl, n[0], n[1], n[2], n[3]] { p16(&mut v, x) }
    v.extend_from_slice(&body);
    (v, kept, bad)
}
