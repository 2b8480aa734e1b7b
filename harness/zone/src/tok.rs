//! Reference reading of the words of a zone file entry (RFC 1035 section 5.1).
use ariadne_dns::nameserver::*;
use ariadne_dns::shared::dns::*;
use symrt::*;

pub enum W {
    Ok(Vec<Vec<u8>>),
    /// Fine by the format, but outside what the implementation documents:
    /// it may reject, but not misread.
    Either(Vec<Vec<u8>>),
    Bad,
}
fn space(b: u8) -> bool {
    or(or(b == b' ', b == b'\t'), or(or(b == 11, b == 12), b == b'\r'))
}
fn eol(b: &[u8], i: usize) -> bool {
    b[i] == b'\n' || (b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n')
}
/// \X or \DDD at i: the byte and the next position.
fn escape(b: &[u8], i: usize) -> Result<(u8, usize), ()> {
    if i + 1 >= b.len() || eol(b, i + 1) {
        return Err(());
    }
    let d = |k: usize| k < b.len() && b[k].wrapping_sub(b'0') < 10;
    if !d(i + 1) {
        return Ok((b[i + 1], i + 2));
    }
    if !d(i + 2) || !d(i + 3) {
        return Err(());
    }
    let v = (b[i + 1] - b'0') as u32 * 100 + (b[i + 2] - b'0') as u32 * 10 + (b[i + 3] - b'0') as u32;
    if v > 255 {
        return Err(());
    }
    Ok((v as u8, i + 4))
}
/// Words up to the end of the entry. `b` starts after a blank and may hold further lines;
/// only "z. A 1.2.3.4" is ever such a line.
pub fn words(b: &[u8]) -> W {
    let mut out: Vec<Vec<u8>> = vec![];
    let mut multi = false;
    let mut either = false;
    let mut i = 0;
    loop {
        if i >= b.len() {
            if multi || out.is_empty() {
                return W::Bad;
            }
            break;
        }
        let c = b[i];
        if c == b'\n' {
            i += 1;
            if multi {
                continue;
            }
            if out.is_empty() {
                return W::Bad;
            }
            // What follows must be empty lines, comments, or the closing record.
            let mut k = i;
            loop {
                let s = k;
                let mut blank = true;
                let mut start = 0;
                while k < b.len() && b[k] != b'\n' {
                    if blank && !space(b[k]) {
                        blank = false;
                        start = k;
                    }
                    k += 1;
                }
                if blank || b[start] == b';' {
                    if k >= b.len() {
                        return if either { W::Either(out) } else { W::Ok(out) };
                    }
                    k += 1;
                    continue;
                }
                let rest = &b[s..];
                if rest.len() == 12 && bytes_eq(rest, b"z. A 1.2.3.4") {
                    return if either { W::Either(out) } else { W::Ok(out) };
                }
                // Something else: not modelled here.
                assume(false);
            }
        } else if space(c) {
            i += 1;
        } else if c == b';' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'(' {
            if multi {
                return W::Bad;
            }
            multi = true;
            i += 1;
        } else if c == b')' {
            if !multi {
                return W::Bad;
            }
            multi = false;
            i += 1;
        } else if c == b'"' {
            i += 1;
            let mut w = vec![];
            loop {
                if i >= b.len() || b[i] == b'\n' {
                    return W::Bad;
                }
                if b[i] == b'"' {
                    i += 1;
                    break;
                }
                if b[i] == b'\\' {
                    match escape(b, i) {
                        Err(()) => return W::Bad,
                        Ok((x, n)) => {
                            either = or(either, x >= 128);
                            w.push(x);
                            i = n;
                        }
                    }
                } else {
                    w.push(b[i]);
                    i += 1;
                }
            }
            out.push(w);
        } else if c == b'$' {
            // A word starting with '$' is only known as a directive.
            either = true;
            let mut w = vec![];
            while i < b.len() && b[i] != b'\n' && !space(b[i]) && b[i] != b';' && b[i] != b'(' && b[i] != b')' {
                if b[i] == b'\\' {
                    match escape(b, i) {
                        Err(()) => return W::Bad,
                        Ok((x, n)) => { w.push(x); i = n; }
                    }
                } else {
                    w.push(b[i]);
                    i += 1;
                }
            }
            out.push(w);
        } else {
            let mut w = vec![];
            let mut number = true;
            while i < b.len() && b[i] != b'\n' && !space(b[i]) && b[i] != b';' && b[i] != b'(' && b[i] != b')' {
                let x;
                if b[i] == b'\\' {
                    match escape(b, i) {
                        Err(()) => return W::Bad,
                        Ok((y, n)) => { x = y; i = n; }
                    }
                    // Escaped blanks are only supported in quoted strings.
                    either = or(either, or(x == b' ', x >= 128));
                } else {
                    x = b[i];
                    i += 1;
                }
                number = and(number, or(x.wrapping_sub(b'0') < 10, and(w.is_empty(), x == b'+')));
                w.push(x);
            }
            // Numbers and '@' are only supported as text when quoted.
            if number || (w.len() == 1 && w[0] == b'@') {
                either = true;
            }
            out.push(w);
        }
    }
    if either { W::Either(out) } else { W::Ok(out) }
}
/// The strings of the TXT record at a.z., if that is what the zone has there.
pub fn txt(z: &ManagedZone) -> Option<Vec<String>> {
    let a = crate::name_of(b"a.z.");
    match z.auth_zone.get(&a, RecordType::TXT) {
        Some(r) if r.len() == 1 => match &r[0] {
            Record::TXT { txts, .. } => Some(txts.clone()),
            _ => None,
        },
        _ => None,
    }
}
pub fn judge(want: &W, got: Option<Option<Vec<String>>>) {
    match (want, got) {
        (W::Bad, None) => cover("rejected"),
        (W::Either(_), None) => cover("unsupported"),
        (W::Bad, Some(_)) => check(false, "malformed words are accepted"),
        (W::Ok(_), None) => check(false, "well-formed words are rejected"),
        (W::Ok(w), Some(t)) | (W::Either(w), Some(t)) => {
            cover("accepted");
            match t {
                None => check(false, "the TXT record is missing"),
                Some(t) => {
                    check(t.len() == w.len(), "wrong number of strings");
                    for (x, y) in t.iter().zip(w) {
                        check(bytes_eq(x.as_bytes(), y), "a string differs from what the file says");
                    }
                }
            }
        }
    }
}
