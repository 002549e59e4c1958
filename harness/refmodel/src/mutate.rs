//! Damages class files: blindly, or at places the reference has marked.
use crate::generate::EXOTIC;
use crate::reference::{Info, Mark, What};
use crate::rng::Rng;

pub fn set(b: &[u8], pos: usize, len: usize, v: u64) -> Vec<u8> {
    let mut o = b.to_vec();
    if pos + len > b.len() {
        return o;
    }
    for k in 0..len {
        o[pos + k] = (v >> (8 * (len - 1 - k))) as u8;
    }
    o
}

pub fn get(b: &[u8], pos: usize, len: usize) -> u64 {
    b.get(pos..pos + len).unwrap_or(&[]).iter().fold(0, |v, x| v << 8 | *x as u64)
}

/// Puts another body in place of that of a marked Utf8 constant.
pub fn replace_utf8(b: &[u8], m: &Mark, body: &[u8]) -> Vec<u8> {
    let mut o = b[..m.pos].to_vec();
    o.extend_from_slice(body);
    o.extend_from_slice(&b[m.pos + m.len..]);
    o[m.pos - 2..m.pos].copy_from_slice(&(body.len() as u16).to_be_bytes());
    o
}

pub fn havoc(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut o = b.to_vec();
    for _ in 0..1 + r.small(8) {
        if o.is_empty() {
            return o;
        }
        let n = o.len();
        // Half of the damage near the front, where the constant pool is.
        let p = if r.one_in(2) { r.below(n) } else { r.below(n.min(200)) };
        match r.below(10) {
            0 => o[p] ^= 1 << r.below(8),
            1 => o[p] = r.u8(),
            2 => o[p] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfe]),
            3 => o[p] = o[p].wrapping_add(1),
            4 => o[p] = o[p].wrapping_sub(1),
            5 if p + 2 <= n => {
                let v = r.u16().to_be_bytes();
                o[p..p + 2].copy_from_slice(&v);
            }
            6 if p + 4 <= n => {
                let v = r.u32().to_be_bytes();
                o[p..p + 4].copy_from_slice(&v);
            }
            7 => {
                let q = (p + r.below(16)).min(n);
                o.drain(p..q);
            }
            8 => {
                let q = (p + r.below(24)).min(n);
                let c = o[p..q].to_vec();
                let at = r.below(n);
                o.splice(at..at, c);
            }
            _ => {
                if r.one_in(4) {
                    o.truncate(p);
                } else {
                    let q = r.below(n);
                    o.swap(p, q);
                }
            }
        }
    }
    o
}

/// Joins the start of one file and the end of another.
pub fn splice(r: &mut Rng, a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut o = a[..r.below(a.len() + 1)].to_vec();
    o.extend_from_slice(&b[r.below(b.len() + 1)..]);
    o
}

/// A value for a reference: an entry of some kind, zero, an unusable slot, out of range.
pub fn some_index(r: &mut Rng, info: &Info, width: usize) -> u64 {
    let n = info.pool.len();
    let top = if width == 1 { 256 } else { 65536 };
    let v = match r.below(12) {
        0 => 0,
        1 => n,
        2 => n + r.below(3),
        3 => top - 1,
        4 => r.below(top),
        _ => {
            let mut kinds: Vec<u32> = info.pool.iter().take(top).map(|e| e.kind()).collect();
            kinds.sort();
            kinds.dedup();
            let k = *r.pick(&kinds);
            let c: Vec<usize> = info.pool.iter().take(top).enumerate().filter(|x| x.1.kind() == k).map(|x| x.0).collect();
            *r.pick(&c)
        }
    };
    v.min(top - 1) as u64
}

pub fn text_body(r: &mut Rng, old: &[u8]) -> Vec<u8> {
    let mut o = old.to_vec();
    match r.below(12) {
        0 => o.clear(),
        1 => o.push(*r.pick(b"./;[<>VLI()\0")),
        2 => o.insert(0, *r.pick(b"./;[<>VLI()\0")),
        3 => {
            let p = r.below(o.len() + 1);
            o.insert(p, *r.pick(b"./;[<>()LVI\\:@\x01"));
        }
        4 => {
            if !o.is_empty() {
                o.pop();
            }
        }
        5 => {
            if !o.is_empty() {
                o.remove(0);
            }
        }
        6 => {
            if !o.is_empty() {
                let p = r.below(o.len());
                o[p] = r.u8();
            }
        }
        7 => {
            let x = *r.pick(&EXOTIC[..]);
            let p = r.below(o.len() + 1);
            // Possibly in the middle of another character.
            o.splice(p..p, crate::text::encode(x));
        }
        8 => {
            let p = r.below(o.len() + 1);
            o.splice(p..p, *r.pick(&[[0xed, 0xa0, 0x80], [0xed, 0xb0, 0x80], [0xed, 0xbf, 0xbf], [0xe0, 0x80, 0x80], [0xef, 0xbf, 0xbf]]));
        }
        9 => o = r.pick(&["<init>", "<clinit>", "()V", "(I)V", "V", "I", "[", "[I", "[V", "L;", "LA;", "LA", "LA;B", "()", "(V)V", "()VV", "A/", "/A", "A//B", "A.B", "<init", "init>", "[[[LA/B;", "module-info", "Code", "Synthetic"]).as_bytes().to_vec(),
        10 => {
            let mut p = vec![b'['; *r.pick(&[1, 2, 254, 255, 256])];
            p.extend(o);
            o = p;
        }
        _ => {
            let c = o.clone();
            o.extend(c);
        }
    }
    o.truncate(65535);
    o
}

/// One fault at one marked place.
pub fn fault(r: &mut Rng, b: &[u8], info: &Info, m: &Mark) -> Vec<u8> {
    if m.pos + m.len > b.len() {
        return b.to_vec();
    }
    let near = |r: &mut Rng, v: u64, len: usize| -> u64 {
        let top = if len == 8 { u64::MAX } else { (1u64 << (8 * len)) - 1 };
        match r.below(8) {
            0 => v.wrapping_add(1) & top,
            1 => v.wrapping_sub(1) & top,
            2 => v.wrapping_add(1 + r.below(20) as u64) & top,
            3 => v.wrapping_sub(1 + r.below(20) as u64) & top,
            4 => 0,
            5 => top,
            6 => top >> 1,
            _ => r.u64() & top,
        }
    };
    let old = if m.len <= 8 { get(b, m.pos, m.len) } else { 0 };
    match m.what {
        What::CpRef => {
            let v = some_index(r, info, m.len);
            set(b, m.pos, m.len, v)
        }
        What::Utf8 if m.site == "Utf8.bytes" => {
            let body = text_body(r, &b[m.pos..m.pos + m.len]);
            replace_utf8(b, m, &body)
        }
        What::Utf8 | What::Raw | What::Code => {
            if m.len == 0 {
                return b.to_vec();
            }
            let mut o = b.to_vec();
            for _ in 0..1 + r.small(3) {
                let p = m.pos + r.below(m.len);
                o[p] = if r.one_in(2) { r.u8() } else { o[p] ^ (1 << r.below(8)) };
            }
            o
        }
        What::Opcode | What::Tag | What::RefKind | What::Atype | What::AnnoTag | What::TargetType | What::PathKind | What::FrameTag | What::VerTag => {
            let v = if r.one_in(3) { near(r, old, 1) } else { r.u8() as u64 };
            set(b, m.pos, 1, v)
        }
        What::Flags | What::StrictFlags => {
            let v = if r.one_in(2) { old ^ (1 << r.below(16)) } else { r.u16() as u64 };
            set(b, m.pos, 2, v)
        }
        What::Major => {
            let v = if r.one_in(8) { r.u16() as u64 } else { 44 + r.below(24) as u64 };
            set(b, m.pos, 2, v)
        }
        What::Branch if m.len == 4 && r.one_in(3) => {
            let v = r.u32() as u64;
            set(b, m.pos, 4, v)
        }
        _ if m.len == 0 || m.len > 8 => b.to_vec(),
        _ => {
            let v = near(r, old, m.len);
            set(b, m.pos, m.len, v)
        }
    }
}

/// Marks satisfying a condition, but no site crowding out the others.
pub fn pick_mark<'a>(r: &mut Rng, info: &'a Info, want: impl Fn(&Mark) -> bool) -> Option<&'a Mark> {
    let all: Vec<&Mark> = info.marks.iter().filter(|m| want(m)).collect();
    if all.is_empty() {
        return None;
    }
    if r.one_in(2) {
        return Some(*r.pick(&all));
    }
    let mut sites: Vec<&str> = all.iter().map(|m| m.site).collect();
    sites.sort();
    sites.dedup();
    let site = *r.pick(&sites);
    let c: Vec<&Mark> = all.into_iter().filter(|m| m.site == site).collect();
    Some(*r.pick(&c))
}

/// Where the constant pool ends, when it can be walked.
pub fn pool_end(b: &[u8]) -> Option<usize> {
    let n = u16::from_be_bytes(b.get(8..10)?.try_into().ok()?) as usize;
    let (mut p, mut k) = (10, 1);
    while k < n {
        let tag = *b.get(p)?;
        p += match tag {
            1 => 3 + u16::from_be_bytes(b.get(p + 1..p + 3)?.try_into().ok()?) as usize,
            3 | 4 | 9..=12 | 17 | 18 => 5,
            5 | 6 => 9,
            7 | 8 | 16 | 19 | 20 => 3,
            15 => 4,
            _ => return None,
        };
        k += if tag == 5 || tag == 6 { 2 } else { 1 };
    }
    (k == n && p <= b.len()).then_some(p)
}

/// Adds text constants at the end of the pool; returns the index of the first.
pub fn add_texts(b: &[u8], texts: &[&[u8]]) -> Option<(Vec<u8>, u64)> {
    let p = pool_end(b)?;
    let n = u16::from_be_bytes([b[8], b[9]]) as usize;
    if n + texts.len() > 65535 {
        return None;
    }
    let mut o = b[..p].to_vec();
    for t in texts {
        o.push(1);
        o.extend_from_slice(&(t.len() as u16).to_be_bytes());
        o.extend_from_slice(t);
    }
    o.extend_from_slice(&b[p..]);
    o[8..10].copy_from_slice(&((n + texts.len()) as u16).to_be_bytes());
    Some((o, n as u64))
}
