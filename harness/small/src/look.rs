//! Everything a parse reports, as one number: the same on any target, in any interpreter.
use std::fmt::Write as _;

pub struct Hash(pub u64, pub u64);
impl std::fmt::Write for Hash {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        // (Few steps: an interpreter runs them.)
        let mut b = s.as_bytes();
        while let Some((c, rest)) = b.split_first_chunk::<8>() {
            self.0 = (self.0 ^ u64::from_le_bytes(*c)).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
            b = rest;
        }
        let mut last = [0; 8];
        last[..b.len()].copy_from_slice(b);
        self.0 = (self.0 ^ u64::from_le_bytes(last)).wrapping_mul(0x100_0000_01b3).rotate_left(29);
        self.1 += s.len() as u64;
        Ok(())
    }
}

pub fn parse(b: &[u8], bytecode: bool) -> Result<cafebabe::ClassFile<'_>, cafebabe::ParseError> {
    let mut o = cafebabe::ParseOptions::default();
    o.parse_bytecode(bytecode);
    cafebabe::parse_class_with_options(b, &o)
}

/// The debug text of all public parts. (What the build keeps its references in is not looked at.)
pub fn parts(c: &cafebabe::ClassFile<'_>) -> u64 {
    let mut h = Hash(0xcbf2_9ce4_8422_2325, 0);
    let _ = write!(h, "{} {} {:?} {:?} {:?} {:?} {:?} {:?} {:?} ", c.major_version, c.minor_version, c.access_flags, c.this_class, c.super_class, c.interfaces, c.fields, c.methods, c.attributes);
    h.0 ^ h.1
}

/// And the items of the pool.
pub fn class<'a>(c: &'a cafebabe::ClassFile<'a>) -> u64 {
    let mut h = Hash(parts(c), 0);
    for x in c.constantpool_iter() {
        let _ = writeln!(h, "{x:?}");
    }
    h.0 ^ h.1
}

pub fn look(b: &[u8], bytecode: bool) -> (bool, u64) {
    match parse(b, bytecode) {
        Ok(c) => (true, class(&c)),
        Err(e) => {
            let mut h = Hash(17, 0);
            let _ = write!(h, "{e} {e:?}");
            (false, h.0 ^ h.1)
        }
    }
}

#[allow(dead_code)]
pub struct Case<'a> {
    pub bytecode: bool,
    pub expected: u64,
    pub bytes: &'a [u8],
}

pub fn write(out: &mut Vec<u8>, bytecode: bool, expected: u64, b: &[u8]) {
    out.extend_from_slice(&(b.len() as u32).to_le_bytes());
    out.push(bytecode as u8);
    out.extend_from_slice(&expected.to_le_bytes());
    out.extend_from_slice(b);
}

#[allow(dead_code)]
pub fn cases(mut p: &[u8]) -> Vec<Case<'_>> {
    let mut v = vec![];
    while p.len() >= 13 {
        let n = u32::from_le_bytes(p[..4].try_into().unwrap()) as usize;
        v.push(Case { bytecode: p[4] != 0, expected: u64::from_le_bytes(p[5..13].try_into().unwrap()), bytes: &p[13..13 + n] });
        p = &p[13 + n..];
    }
    v
}
