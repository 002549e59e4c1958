//! Java's modified UTF-8 (JVMS 4.4.7), and names and descriptors (JVMS 4.2, 4.3).
use crate::t;
use crate::value::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Text {
    Str(String),
    Raw,
}

/// What a CONSTANT_Utf8 body denotes, and whether it is well-formed modified UTF-8.
/// Bodies that are not legal modified UTF-8 but are standard UTF-8 (a zero byte, four-byte
/// forms) count as that text, flagged as not strictly legal.
pub fn decode(b: &[u8]) -> (Text, bool) {
    let strict = decode_strict(b);
    match strict {
        Some(x) => (x, true),
        None => match std::str::from_utf8(b) {
            Ok(x) => (Text::Str(x.to_string()), false),
            Err(_) => (Text::Raw, false),
        },
    }
}

fn decode_strict(b: &[u8]) -> Option<Text> {
    let mut units: Vec<u16> = Vec::with_capacity(b.len());
    let mut p = 0;
    let cont = |k: usize| -> Option<u16> {
        let x = *b.get(k)?;
        (x & 0xc0 == 0x80).then_some((x & 0x3f) as u16)
    };
    while p < b.len() {
        let x = b[p];
        if (1..=0x7f).contains(&x) {
            units.push(x as u16);
            p += 1;
        } else if x & 0xe0 == 0xc0 {
            let v = (((x & 0x1f) as u16) << 6) | cont(p + 1)?;
            if v != 0 && v < 0x80 {
                return None;
            }
            units.push(v);
            p += 2;
        } else if x & 0xf0 == 0xe0 {
            let v = (((x & 0x0f) as u16) << 12) | (cont(p + 1)? << 6) | cont(p + 2)?;
            if v < 0x800 {
                return None;
            }
            units.push(v);
            p += 3;
        } else {
            return None;
        }
    }
    match String::from_utf16(&units) {
        Ok(x) => Some(Text::Str(x)),
        Err(_) => Some(Text::Raw), // an unpaired surrogate: legal, but not text
    }
}

pub fn encode(x: &str) -> Vec<u8> {
    let mut o = Vec::with_capacity(x.len());
    for c in x.encode_utf16() {
        encode_unit(c, &mut o);
    }
    o
}

pub fn encode_unit(c: u16, o: &mut Vec<u8>) {
    match c {
        1..=0x7f => o.push(c as u8),
        0 | 0x80..=0x7ff => {
            o.push(0xc0 | (c >> 6) as u8);
            o.push(0x80 | (c & 0x3f) as u8);
        }
        _ => {
            o.push(0xe0 | (c >> 12) as u8);
            o.push(0x80 | ((c >> 6) & 0x3f) as u8);
            o.push(0x80 | (c & 0x3f) as u8);
        }
    }
}

/// 4.2.2: a field or local variable name, or a segment of a binary name.
pub fn is_unqualified(x: &str) -> bool {
    !x.is_empty() && !x.contains(['.', ';', '[', '/'])
}

pub fn is_method_name(x: &str, init: bool, clinit: bool) -> bool {
    if x == "<init>" {
        return init;
    }
    if x == "<clinit>" {
        return clinit;
    }
    is_unqualified(x) && !x.contains(['<', '>'])
}

/// 4.2.1
pub fn is_binary_name(x: &str) -> bool {
    x.split('/').all(is_unqualified)
}

/// 4.2.3
pub fn is_module_name(x: &str) -> bool {
    let c: Vec<char> = x.chars().collect();
    let mut p = 0;
    while p < c.len() {
        if c[p] < ' ' || c[p] == ':' || c[p] == '@' {
            return false;
        }
        if c[p] == '\\' {
            p += 1;
            if p == c.len() || !['\\', ':', '@'].contains(&c[p]) {
                return false;
            }
        }
        p += 1;
    }
    true
}

#[derive(Clone, Debug, PartialEq)]
pub struct Desc {
    pub dims: usize,
    /// 'L' for a class type.
    pub base: char,
    pub class: String,
}

impl Desc {
    pub fn text(&self) -> String {
        let mut o = "[".repeat(self.dims);
        o.push(self.base);
        if self.base == 'L' {
            o.push_str(&self.class);
            o.push(';');
        }
        o
    }
    pub fn value(&self) -> V {
        t!("Desc"; "dims" => u(self.dims as u64),
            "type" => if self.base == 'L' { t!("Object"; "class" => s(&self.class)) } else { s(&self.base.to_string()) },
            "text" => s(&self.text()))
    }
}

fn one(x: &str) -> Option<(Desc, &str)> {
    let rest = x.trim_start_matches('[');
    let dims = x.len() - rest.len();
    if dims > 255 {
        return None;
    }
    let base = rest.chars().next()?;
    match base {
        'B' | 'C' | 'D' | 'F' | 'I' | 'J' | 'S' | 'Z' => Some((Desc { dims, base, class: String::new() }, &rest[1..])),
        'L' => {
            let end = rest.find(';')?;
            let class = &rest[1..end];
            if !is_binary_name(class) {
                return None;
            }
            Some((Desc { dims, base, class: class.to_string() }, &rest[end + 1..]))
        }
        _ => None,
    }
}

pub fn field_desc(x: &str) -> Option<Desc> {
    match one(x) {
        Some((d, "")) => Some(d),
        _ => None,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MDesc {
    pub params: Vec<Desc>,
    pub ret: Option<Desc>,
}

impl MDesc {
    pub fn text(&self) -> String {
        let p: String = self.params.iter().map(|d| d.text()).collect();
        format!("({p}){}", self.ret.as_ref().map(|d| d.text()).unwrap_or("V".into()))
    }
    pub fn value(&self) -> V {
        t!("MDesc"; "params" => V::L(self.params.iter().map(|d| d.value()).collect()),
            "ret" => self.ret.as_ref().map(|d| d.value()).unwrap_or(t!("Void")),
            "text" => s(&self.text()))
    }
}

pub fn return_desc(x: &str) -> Option<Option<Desc>> {
    if x == "V" {
        return Some(None);
    }
    field_desc(x).map(Some)
}

pub fn method_desc(x: &str) -> Option<MDesc> {
    let mut rest = x.strip_prefix('(')?;
    let mut params = Vec::new();
    loop {
        if let Some(r) = rest.strip_prefix(')') {
            return return_desc(r).map(|ret| MDesc { params, ret });
        }
        let (d, r) = one(rest)?;
        params.push(d);
        rest = r;
    }
}
