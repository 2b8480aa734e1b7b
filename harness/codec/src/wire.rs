//! RFC 1035 wire form of questions and records, written independently of the code.
use crate::model::*;
use ariadne_dns::shared::dns::*;

pub fn text(n: &Name) -> &[u8] {
    n.as_ref().as_bytes()
}
/// RDATA as RFC 1035 section 3.3/3.4 lays it out.
pub fn ref_rdata(r: &Record) -> Vec<u8> {
    let mut v = vec![];
    match r {
        Record::A { address, .. } => v.extend_from_slice(address),
        Record::NS { name, .. } | Record::CNAME { name, .. } | Record::PTR { name, .. } => v = wire_name(text(name)),
        Record::SOA { ns_name, ml_name, serial, refresh, retry, expire, minimum, .. } => {
            v = wire_name(text(ns_name));
            v.extend_from_slice(&wire_name(text(ml_name)));
            for x in [serial, refresh, retry, expire, minimum] {
                p32(&mut v, *x);
            }
        }
        Record::WKS { address, protocol, ports, .. } => {
            v.extend_from_slice(address);
            v.push(*protocol);
            let mut top = 0;
            for p in ports {
                top = top.max(*p as usize / 8 + 1);
            }
            let mut map = vec![0u8; top];
            for p in ports {
                map[*p as usize / 8] |= 0x80 >> (*p % 8);
            }
            v.extend_from_slice(&map);
        }
        Record::HINFO { cpu, os, .. } => {
            for s in [cpu, os] {
                v.push(s.len() as u8);
                v.extend_from_slice(s.as_bytes());
            }
        }
        Record::MX { priority, name, .. } => {
            p16(&mut v, *priority);
            v.extend_from_slice(&wire_name(text(name)));
        }
        Record::TXT { txts, .. } => {
            for s in txts {
                v.push(s.len() as u8);
                v.extend_from_slice(s.as_bytes());
            }
        }
    }
    v
}
pub fn ref_record(r: &Record) -> Vec<u8> {
    let mut v = wire_name(text(r.node()));
    p16(&mut v, r.record_type().to_num());
    p16(&mut v, r.class().to_num());
    p32(&mut v, *r.ttl());
    let d = ref_rdata(r);
    p16(&mut v, d.len() as u16);
    v.extend_from_slice(&d);
    v
}

pub fn ref_question(q: &Question) -> Vec<u8> {
    let mut v = wire_name(text(&q.node));
    p16(&mut v, q.record_type.to_num());
    p16(&mut v, q.class.to_num());
    v
}
pub fn rcode_num(r: RespCode) -> u16 {
    match r { RespCode::NoError => 0, RespCode::FormErr => 1, RespCode::ServFail => 2, RespCode::NxDomain => 3, RespCode::NotImp => 4, RespCode::Refused => 5 }
}
