//! Independent reference models of the wire format, written from RFC 1035.
use symrt::*;

pub fn be16(b: &[u8], i: usize) -> u16 {
    ((b[i] as u16) << 8) | b[i + 1] as u16
}
pub fn be32(b: &[u8], i: usize) -> u32 {
    ((be16(b, i) as u32) << 16) | be16(b, i + 2) as u32
}
pub fn p16(v: &mut Vec<u8>, x: u16) {
    v.push((x >> 8) as u8);
    v.push(x as u8);
}
pub fn p32(v: &mut Vec<u8>, x: u32) {
    p16(v, (x >> 16) as u16);
    p16(v, x as u16);
}

/// One formula: is the byte an ASCII letter or digit.
pub fn is_alnum(b: u8) -> bool {
    let d = b.wrapping_sub(b'0') < 10;
    let u = b.wrapping_sub(b'A') < 26;
    let l = b.wrapping_sub(b'a') < 26;
    or(or(d, u), l)
}
pub fn is_ldh(b: u8) -> bool {
    or(is_alnum(b), b == b'-')
}
/// Label rule of the implementation's documentation: letters, digits, hyphen,
/// starting and ending with a letter or digit, 1 to 63 octets.
pub fn label_ok(l: &[u8]) -> bool {
    if l.is_empty() || l.len() > 63 {
        return false;
    }
    let mut ok = and(is_alnum(l[0]), is_alnum(l[l.len() - 1]));
    for b in l {
        ok = and(ok, is_ldh(*b));
    }
    ok
}

pub enum RefName {
    /// dotted text and the offset just after the name
    Ok(Vec<u8>, usize),
    Bad,
    /// longer pointer chain than any encoder needs: accepting or rejecting are both fine
    Deep,
}
pub const MAX_JUMPS: usize = 16;

/// RFC 1035 4.1.4 name decoding over the whole message `b` from offset `pos`.
pub fn ref_name(b: &[u8], mut pos: usize) -> RefName {
    let mut text = vec![];
    let mut end = 0;
    let mut jumps = 0;
    let mut wire = 0;
    loop {
        if pos >= b.len() {
            return RefName::Bad;
        }
        let l = b[pos];
        if l >= 0xc0 {
            if pos + 1 >= b.len() {
                return RefName::Bad;
            }
            if jumps == 0 {
                end = pos + 2;
            }
            jumps += 1;
            let target = ((((l & 0x3f) as u64) << 8) | b[pos + 1] as u64) as usize;
            if target >= b.len() {
                return RefName::Bad;
            }
            if jumps > MAX_JUMPS {
                return RefName::Deep;
            }
            pos = conc(target as u64) as usize;
        } else if l >= 0x40 {
            return RefName::Bad;
        } else if l == 0 {
            if text.is_empty() {
                text.push(b'.');
            }
            return RefName::Ok(text, if jumps == 0 { pos + 1 } else { end });
        } else {
            let n = conc(l as u64) as usize;
            if pos + 1 + n > b.len() {
                return RefName::Bad;
            }
            let lab = &b[pos + 1..pos + 1 + n];
            if !label_ok(lab) {
                return RefName::Bad;
            }
            wire += n + 1;
            if wire + 1 > 255 {
                return RefName::Bad;
            }
            text.extend_from_slice(lab);
            text.push(b'.');
            pos += 1 + n;
        }
    }
}

/// Uncompressed wire form of an absolute dotted name (assumed valid).
pub fn wire_name(text: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    if text == b"." {
        v.push(0);
        return v;
    }
    let mut lab = vec![];
    for c in text {
        if *c == b'.' {
            v.push(lab.len() as u8);
            v.extend_from_slice(&lab);
            lab.clear();
        } else {
            lab.push(*c);
        }
    }
    v.push(0);
    v
}

/// A valid absolute name of one of a few shapes with arbitrary label characters.
/// Returns the text; shape 0 is the root.
pub fn gen_name(shape: u64) -> Vec<u8> {
    let lens: &[usize] = match shape {
        0 => &[],
        1 => &[1],
        2 => &[2, 1],
        3 => &[3],
        _ => &[1, 2, 1],
    };
    let mut v = vec![];
    for n in lens {
        for i in 0..*n {
            let b = u8v();
            if i == 0 || i + 1 == *n {
                assume(is_alnum(b));
            } else {
                assume(is_ldh(b));
            }
            v.push(b);
        }
        v.push(b'.');
    }
    if v.is_empty() {
        v.push(b'.');
    }
    v
}
