//! An independent reading of the class file format (JVMS 21 chapter 4), with the documented
//! latitude cafebabe takes. It says what a file means, or why it is refused and where.
use crate::opcodes::{self, F};
use crate::t;
use crate::text::{self, Text};
use crate::value::*;
use std::collections::{BTreeSet, HashSet};

pub mod kind {
    pub const ZERO: u32 = 1;
    pub const UTF8: u32 = 1 << 1;
    pub const UNUSED: u32 = 1 << 2;
    pub const INT: u32 = 1 << 3;
    pub const FLOAT: u32 = 1 << 4;
    pub const LONG: u32 = 1 << 5;
    pub const DOUBLE: u32 = 1 << 6;
    pub const CLASS: u32 = 1 << 7;
    pub const STRING: u32 = 1 << 8;
    pub const FIELD: u32 = 1 << 9;
    pub const METHOD: u32 = 1 << 10;
    pub const IMETHOD: u32 = 1 << 11;
    pub const NT: u32 = 1 << 12;
    pub const HANDLE: u32 = 1 << 15;
    pub const MTYPE: u32 = 1 << 16;
    pub const DYN: u32 = 1 << 17;
    pub const INDY: u32 = 1 << 18;
    pub const MODULE: u32 = 1 << 19;
    pub const PACKAGE: u32 = 1 << 20;
    pub const CONST: u32 = INT | FLOAT | LONG | DOUBLE | STRING;
    pub const LOADABLE: u32 = CONST | CLASS | HANDLE | MTYPE | DYN;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cat {
    Magic,
    /// Truncated or over-long input.
    Structure,
    AttrLen,
    PoolTag,
    PoolContent,
    PoolRef,
    Bootstrap,
    Dup,
    MemberName,
    AttrName,
    Init,
    Module,
    Desc,
    Text,
    AnnoTag,
    StackMapTag,
    Code,
    Branch,
    Flags,
    /// Beyond what this model wants to recurse into: no verdict.
    TooDeep,
}

#[derive(Clone, Debug)]
pub struct Rej {
    pub cat: Cat,
    /// Indices of the faulty element and what encloses it, innermost first.
    pub at: Vec<u64>,
    pub eof: bool,
    pub msg: String,
    /// For faults in a constant pool entry: that entry.
    pub entry: Option<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum What {
    Magic,
    Minor,
    Major,
    PoolCount,
    Tag,
    Utf8Len,
    Utf8,
    RefKind,
    BsmIndex,
    Bits,
    /// One- or two-byte reference into the constant pool.
    CpRef,
    Count,
    AttrLen,
    Flags,
    /// Flags of which undefined bits are refused.
    StrictFlags,
    Num,
    CodeLen,
    Code,
    Opcode,
    Branch,
    Imm,
    Pad,
    SwitchRange,
    Atype,
    AnnoTag,
    TargetType,
    PathKind,
    FrameTag,
    VerTag,
    Raw,
}

#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub pos: usize,
    pub len: usize,
    pub what: What,
    pub site: &'static str,
    /// Constant kinds allowed, for references.
    pub allowed: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Zero,
    Utf8(Text),
    Int(u32),
    Float(u32),
    Long(u64),
    Double(u64),
    Class(u16),
    Str(u16),
    Field(u16, u16),
    Method(u16, u16),
    IMethod(u16, u16),
    NT(u16, u16),
    Handle(u8, u16),
    MType(u16),
    Dyn(u16, u16),
    Indy(u16, u16),
    Module(u16),
    Package(u16),
    Unused,
}

impl E {
    pub fn kind(&self) -> u32 {
        match self {
            E::Zero => kind::ZERO,
            E::Utf8(..) => kind::UTF8,
            E::Int(_) => kind::INT,
            E::Float(_) => kind::FLOAT,
            E::Long(_) => kind::LONG,
            E::Double(_) => kind::DOUBLE,
            E::Class(_) => kind::CLASS,
            E::Str(_) => kind::STRING,
            E::Field(..) => kind::FIELD,
            E::Method(..) => kind::METHOD,
            E::IMethod(..) => kind::IMETHOD,
            E::NT(..) => kind::NT,
            E::Handle(..) => kind::HANDLE,
            E::MType(_) => kind::MTYPE,
            E::Dyn(..) => kind::DYN,
            E::Indy(..) => kind::INDY,
            E::Module(_) => kind::MODULE,
            E::Package(_) => kind::PACKAGE,
            E::Unused => kind::UNUSED,
        }
    }
    pub fn refs(&self) -> Vec<u16> {
        match *self {
            E::Class(a) | E::Str(a) | E::Handle(_, a) | E::MType(a) | E::Dyn(_, a) | E::Indy(_, a) | E::Module(a) | E::Package(a) => vec![a],
            E::Field(a, b) | E::Method(a, b) | E::IMethod(a, b) | E::NT(a, b) => vec![a, b],
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Info {
    pub marks: Vec<Mark>,
    pub pool: Vec<E>,
    pub lenient: BTreeSet<&'static str>,
    /// All Utf8 entries are plain UTF-8 with no re-encoding needed.
    pub plain_text: bool,
    pub code_spans: Vec<(usize, usize)>,
    pub major: u16,
    pub attrs: usize,
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub tree: V,
    pub cp: Vec<V>,
}

pub struct Outcome {
    pub result: Result<Parsed, Rej>,
    pub info: Info,
}

type R<T> = Result<T, Rej>;

struct P<'a> {
    b: &'a [u8],
    p: usize,
    end: usize,
    ctx: Vec<u64>,
    info: Info,
    record: bool,
    bytecode: bool,
    attr_depth: usize,
}

pub fn parse(b: &[u8], bytecode: bool) -> Outcome {
    run(b, bytecode, false)
}

/// Also records where everything is.
pub fn parse_marked(b: &[u8], bytecode: bool) -> Outcome {
    run(b, bytecode, true)
}

fn run(b: &[u8], bytecode: bool, record: bool) -> Outcome {
    let mut p = P { b, p: 0, end: b.len(), ctx: vec![], info: Info { plain_text: true, ..Info::default() }, record, bytecode, attr_depth: 0 };
    let result = p.class();
    Outcome { result, info: p.info }
}

impl P<'_> {
    fn rej<T>(&self, cat: Cat, msg: impl Into<String>) -> R<T> {
        Err(Rej { cat, at: self.ctx.iter().rev().copied().collect(), eof: false, msg: msg.into(), entry: None })
    }
    fn odd(&mut self, what: &'static str) {
        self.info.lenient.insert(what);
    }
    fn mark(&mut self, len: usize, what: What, site: &'static str, allowed: u32) {
        if self.record {
            self.info.marks.push(Mark { pos: self.p, len, what, site, allowed });
        }
    }
    fn take(&mut self, n: usize) -> R<u64> {
        if self.end - self.p < n {
            return Err(Rej { cat: Cat::Structure, at: vec![], eof: true, msg: format!("{n} bytes wanted at {}", self.p), entry: None });
        }
        let mut v = 0;
        for k in 0..n {
            v = v << 8 | self.b[self.p + k] as u64;
        }
        self.p += n;
        Ok(v)
    }
    fn u1(&mut self, what: What, site: &'static str) -> R<u8> {
        self.mark(1, what, site, 0);
        Ok(self.take(1)? as u8)
    }
    fn u2(&mut self, what: What, site: &'static str) -> R<u16> {
        self.mark(2, what, site, 0);
        Ok(self.take(2)? as u16)
    }
    fn u4(&mut self, what: What, site: &'static str) -> R<u32> {
        self.mark(4, what, site, 0);
        Ok(self.take(4)? as u32)
    }
    fn num(&mut self, site: &'static str) -> R<V> {
        Ok(u(self.u2(What::Num, site)?))
    }
    fn each<T>(&mut self, n: usize, mut f: impl FnMut(&mut Self, usize) -> R<T>) -> R<Vec<T>> {
        let mut out = Vec::new();
        for k in 0..n {
            self.ctx.push(k as u64);
            out.push(f(self, k)?);
            self.ctx.pop();
        }
        Ok(out)
    }
    fn table(&mut self, site: &'static str, f: impl FnMut(&mut Self, usize) -> R<V>) -> R<V> {
        let n = self.u2(What::Count, site)?;
        Ok(V::L(self.each(n.into(), f)?))
    }

    // ---- constant pool ----

    fn ent(&self, ix: u16) -> &E {
        self.info.pool.get(ix as usize).unwrap_or(&E::Unused)
    }
    fn check(&self, ix: u16, allowed: u32) -> R<()> {
        match self.info.pool.get(ix as usize) {
            None => self.rej(Cat::PoolRef, format!("index {ix} out of range")),
            Some(e) if e.kind() & allowed == 0 => self.rej(Cat::PoolRef, format!("index {ix} is a {e:?}")),
            Some(_) => Ok(()),
        }
    }
    fn cp(&mut self, allowed: u32, site: &'static str) -> R<u16> {
        self.mark(2, What::CpRef, site, allowed);
        let ix = self.take(2)? as u16;
        self.check(ix, allowed)?;
        Ok(ix)
    }
    fn text(&self, ix: u16) -> R<String> {
        self.check(ix, kind::UTF8)?;
        match self.ent(ix) {
            E::Utf8(Text::Str(x)) => Ok(x.clone()),
            _ => self.rej(Cat::Text, format!("constant {ix} is not text")),
        }
    }
    fn utf8(&mut self, site: &'static str) -> R<String> {
        let ix = self.cp(kind::UTF8, site)?;
        self.text(ix)
    }
    fn utf8_opt(&mut self, site: &'static str) -> R<V> {
        let ix = self.cp(kind::UTF8 | kind::ZERO, site)?;
        if ix == 0 {
            return Ok(V::None);
        }
        Ok(V::S(self.text(ix)?))
    }
    fn class_name(&self, ix: u16) -> R<String> {
        match *self.ent(ix) {
            E::Class(n) => self.text(n),
            _ => unreachable!(),
        }
    }
    fn class_ref(&mut self, site: &'static str) -> R<V> {
        let ix = self.cp(kind::CLASS, site)?;
        Ok(V::S(self.class_name(ix)?))
    }
    fn class_opt(&mut self, site: &'static str) -> R<V> {
        let ix = self.cp(kind::CLASS | kind::ZERO, site)?;
        if ix == 0 {
            return Ok(V::None);
        }
        Ok(V::S(self.class_name(ix)?))
    }
    /// A class name that must not be an array type.
    fn plain_class(&mut self, v: V) -> R<V> {
        if !text::is_binary_name(v.str()) {
            return self.rej(Cat::Desc, format!("{} is not a class name", v.brief()));
        }
        Ok(v)
    }
    fn module_ref(&mut self, site: &'static str) -> R<V> {
        let ix = self.cp(kind::MODULE, site)?;
        match *self.ent(ix) {
            E::Module(n) => Ok(V::S(self.text(n)?)),
            _ => unreachable!(),
        }
    }
    fn package_ref(&mut self, site: &'static str) -> R<V> {
        let ix = self.cp(kind::PACKAGE, site)?;
        match *self.ent(ix) {
            E::Package(n) => Ok(V::S(self.text(n)?)),
            _ => unreachable!(),
        }
    }
    fn nt(&self, ix: u16) -> R<(String, String)> {
        match *self.ent(ix) {
            E::NT(a, b) => Ok((self.text(a)?, self.text(b)?)),
            _ => unreachable!("{ix} is not a name and type"),
        }
    }
    fn member(&self, ix: u16) -> R<V> {
        match *self.ent(ix) {
            E::Field(c, n) | E::Method(c, n) | E::IMethod(c, n) => {
                let (name, desc) = self.nt(n)?;
                Ok(t!("MemberRef"; "class" => V::S(self.class_name(c)?), "name" => V::S(name), "desc" => V::S(desc)))
            }
            _ => unreachable!(),
        }
    }
    fn literal(&self, ix: u16) -> V {
        match self.ent(ix) {
            E::Int(x) => t!("Int"; "v" => i(*x as i32)),
            E::Float(x) => t!("Float"; "v" => V::Bits(*x as u64)),
            E::Long(x) => t!("Long"; "v" => i(*x as i64)),
            E::Double(x) => t!("Double"; "v" => V::Bits(*x)),
            E::Str(n) => match self.ent(*n) {
                E::Utf8(Text::Str(x)) => t!("Str"; "v" => s(x)),
                _ => t!("StrBytes"; "v" => V::B(self.raw(*n))),
            },
            _ => unreachable!(),
        }
    }
    fn raw(&self, ix: u16) -> Vec<u8> {
        // Only called for entries that exist: find the body again from the start.
        let mut q = 10;
        let mut k = 1;
        loop {
            let tag = self.b[q];
            let n = match tag {
                1 => 2 + ((self.b[q + 1] as usize) << 8 | self.b[q + 2] as usize),
                3 | 4 | 9..=12 | 17 | 18 => 4,
                5 | 6 => 8,
                15 => 3,
                _ => 2,
            };
            if k == ix {
                return self.b[q + 3..q + 1 + n].to_vec();
            }
            q += 1 + n;
            k += if tag == 5 || tag == 6 { 2 } else { 1 };
        }
    }
    fn handle(&self, ix: u16) -> R<V> {
        let E::Handle(k, m) = *self.ent(ix) else { unreachable!() };
        let names = ["GetField", "GetStatic", "PutField", "PutStatic", "InvokeVirtual", "InvokeStatic", "InvokeSpecial", "NewInvokeSpecial", "InvokeInterface"];
        let mk = match self.ent(m) {
            E::Field(..) => "Field",
            E::Method(..) => "Method",
            _ => "InterfaceMethod",
        };
        Ok(t!("Handle"; "kind" => s(names[k as usize - 1]), "member_kind" => s(mk), "member" => self.member(m)?))
    }
    fn dynamic(&self, ix: u16) -> R<V> {
        match *self.ent(ix) {
            E::Dyn(x, n) => {
                let (name, desc) = self.nt(n)?;
                Ok(t!("Dyn"; "bsm" => u(x), "name" => V::S(name), "desc" => V::S(desc)))
            }
            E::Indy(x, n) => {
                let (name, desc) = self.nt(n)?;
                Ok(t!("Indy"; "bsm" => u(x), "name" => V::S(name), "desc" => V::S(desc)))
            }
            _ => unreachable!(),
        }
    }
    fn loadable(&self, ix: u16) -> R<V> {
        Ok(match *self.ent(ix) {
            E::Class(n) => t!("ClassInfo"; "name" => V::S(self.text(n)?)),
            E::Handle(..) => self.handle(ix)?,
            E::MType(n) => t!("MType"; "desc" => V::S(self.text(n)?)),
            E::Dyn(..) => self.dynamic(ix)?,
            _ => self.literal(ix),
        })
    }

    fn read_pool(&mut self) -> R<()> {
        let count = self.u2(What::PoolCount, "pool.count")? as usize;
        self.info.pool.push(E::Zero);
        while self.info.pool.len() < count {
            let n = self.info.pool.len();
            self.ctx.push(n as u64);
            let e = self.read_entry(n, count).map_err(|mut e| {
                e.entry = Some(n);
                if e.eof {
                    e.at = vec![n as u64];
                }
                e
            })?;
            self.ctx.pop();
            let wide = matches!(e, E::Long(_) | E::Double(_));
            self.info.pool.push(e);
            if wide {
                self.info.pool.push(E::Unused);
            }
        }
        for n in 0..self.info.pool.len() {
            self.ctx.push(n as u64);
            self.check_entry(n).map_err(|mut e| {
                e.entry = Some(n);
                e
            })?;
            self.ctx.pop();
        }
        Ok(())
    }

    fn raw_ref(&mut self, site: &'static str, allowed: u32) -> R<u16> {
        self.mark(2, What::CpRef, site, allowed);
        Ok(self.take(2)? as u16)
    }

    fn read_entry(&mut self, n: usize, count: usize) -> R<E> {
        use kind::*;
        let tag = self.u1(What::Tag, "pool.tag")?;
        let since = match tag {
            1 | 3..=12 => 0,
            15 | 16 | 18 => 51,
            19 | 20 => 53,
            17 => 55,
            _ => return self.rej(Cat::PoolTag, format!("tag {tag}")),
        };
        if self.info.major < since {
            return self.rej(Cat::PoolTag, format!("tag {tag} in version {}", self.info.major));
        }
        if (tag == 5 || tag == 6) && n + 1 >= count {
            return self.rej(Cat::PoolContent, "wide constant in the last slot");
        }
        Ok(match tag {
            1 => {
                let len = self.u2(What::Utf8Len, "Utf8.length")? as usize;
                self.mark(len, What::Utf8, "Utf8.bytes", 0);
                if self.end - self.p < len {
                    self.take(self.end - self.p + 1)?;
                }
                let body = &self.b[self.p..self.p + len];
                self.p += len;
                let (x, legal) = text::decode(body);
                if !legal {
                    self.info.lenient.insert("illegal modified UTF-8");
                }
                // Anything but NUL and supplementary characters is the same in both encodings.
                if !matches!(&x, Text::Str(y) if y.as_bytes() == body) {
                    self.info.plain_text = false;
                }
                E::Utf8(x)
            }
            3 => E::Int(self.u4(What::Bits, "Integer.bytes")?),
            4 => E::Float(self.u4(What::Bits, "Float.bytes")?),
            5 => {
                self.mark(8, What::Bits, "Long.bytes", 0);
                E::Long(self.take(8)?)
            }
            6 => {
                self.mark(8, What::Bits, "Double.bytes", 0);
                E::Double(self.take(8)?)
            }
            7 => E::Class(self.raw_ref("Class.name", UTF8)?),
            8 => E::Str(self.raw_ref("String.string", UTF8)?),
            9 => E::Field(self.raw_ref("Fieldref.class", CLASS)?, self.raw_ref("Fieldref.nt", NT)?),
            10 => E::Method(self.raw_ref("Methodref.class", CLASS)?, self.raw_ref("Methodref.nt", NT)?),
            11 => E::IMethod(self.raw_ref("InterfaceMethodref.class", CLASS)?, self.raw_ref("InterfaceMethodref.nt", NT)?),
            12 => E::NT(self.raw_ref("NameAndType.name", UTF8)?, self.raw_ref("NameAndType.descriptor", UTF8)?),
            15 => {
                let k = self.u1(What::RefKind, "MethodHandle.kind")?;
                if !(1..=9).contains(&k) {
                    return self.rej(Cat::PoolContent, format!("reference kind {k}"));
                }
                E::Handle(k, self.raw_ref("MethodHandle.reference", FIELD | METHOD | IMETHOD)?)
            }
            16 => E::MType(self.raw_ref("MethodType.descriptor", UTF8)?),
            17 => E::Dyn(self.u2(What::BsmIndex, "Dynamic.bootstrap")?, self.raw_ref("Dynamic.nt", NT)?),
            18 => E::Indy(self.u2(What::BsmIndex, "InvokeDynamic.bootstrap")?, self.raw_ref("InvokeDynamic.nt", NT)?),
            19 => E::Module(self.raw_ref("Module.name", UTF8)?),
            _ => E::Package(self.raw_ref("Package.name", UTF8)?),
        })
    }

    fn nt_parts(&self, ix: u16) -> R<(String, String)> {
        self.check(ix, kind::NT)?;
        let E::NT(a, b) = *self.ent(ix) else { unreachable!() };
        Ok((self.text(a)?, self.text(b)?))
    }

    fn check_entry(&mut self, n: usize) -> R<()> {
        use kind::*;
        match self.info.pool[n] {
            E::Class(x) => {
                let name = self.text(x)?;
                let ok = if name.starts_with('[') { text::field_desc(&name).is_some() } else { text::is_binary_name(&name) };
                if !ok {
                    return self.rej(Cat::PoolContent, format!("class name {name:?}"));
                }
            }
            E::Str(x) => self.check(x, UTF8)?,
            E::Field(c, m) => {
                self.check(c, CLASS)?;
                let (_, d) = self.nt_parts(m)?;
                if text::field_desc(&d).is_none() {
                    return self.rej(Cat::PoolContent, format!("field descriptor {d:?}"));
                }
            }
            E::Method(c, m) | E::IMethod(c, m) => {
                let iface = matches!(self.info.pool[n], E::IMethod(..));
                self.check(c, CLASS)?;
                let (name, d) = self.nt_parts(m)?;
                let Some(md) = text::method_desc(&d) else {
                    return self.rej(Cat::PoolContent, format!("method descriptor {d:?}"));
                };
                if !text::is_method_name(&name, true, iface) {
                    return self.rej(Cat::PoolContent, format!("method name {name:?}"));
                }
                if iface && name.starts_with('<') {
                    self.odd("special name in an interface method reference");
                }
                if !iface && name == "<init>" && md.ret.is_some() {
                    return self.rej(Cat::PoolContent, "<init> returning something");
                }
            }
            E::NT(a, b) => {
                let name = self.text(a)?;
                self.text(b)?;
                if !text::is_unqualified(&name) {
                    return self.rej(Cat::PoolContent, format!("name {name:?}"));
                }
            }
            E::Handle(k, m) => {
                let new = self.info.major >= 52;
                let allowed = match k {
                    1..=4 => FIELD,
                    5 | 8 => METHOD,
                    6 | 7 => METHOD | if new { IMETHOD } else { 0 },
                    _ => IMETHOD,
                };
                self.check(m, allowed)?;
                if let E::Method(_, x) | E::IMethod(_, x) = *self.ent(m) {
                    let (name, _) = self.nt_parts(x)?;
                    if (name == "<init>") != (k == 8) || name == "<clinit>" {
                        return self.rej(Cat::PoolContent, format!("handle of kind {k} to {name}"));
                    }
                }
            }
            E::MType(x) => {
                let d = self.text(x)?;
                if text::method_desc(&d).is_none() {
                    return self.rej(Cat::PoolContent, format!("method type {d:?}"));
                }
            }
            E::Dyn(_, m) => {
                let (name, d) = self.nt_parts(m)?;
                if text::field_desc(&d).is_none() {
                    return self.rej(Cat::PoolContent, format!("dynamic descriptor {d:?}"));
                }
                if name == "<init>" {
                    self.odd("special name in a dynamic constant");
                }
            }
            E::Indy(_, m) => {
                let (name, d) = self.nt_parts(m)?;
                if text::method_desc(&d).is_none() {
                    return self.rej(Cat::PoolContent, format!("invokedynamic descriptor {d:?}"));
                }
                if name.contains(['<', '>']) {
                    self.odd("angle brackets in an invokedynamic name");
                }
            }
            E::Module(x) => {
                let name = self.text(x)?;
                if !text::is_module_name(&name) {
                    return self.rej(Cat::PoolContent, format!("module name {name:?}"));
                }
                if name.is_empty() {
                    self.odd("empty module name");
                }
            }
            E::Package(x) => {
                let name = self.text(x)?;
                if !text::is_binary_name(&name) {
                    return self.rej(Cat::PoolContent, format!("package name {name:?}"));
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn pool_items(&self) -> R<Vec<V>> {
        let mut out = vec![];
        for n in 0..self.info.pool.len() {
            let ix = n as u16;
            let rename = |v: V, name: &'static str| match v {
                V::T(_, f) => V::T(name, f),
                v => v,
            };
            out.push(match self.info.pool[n] {
                E::Zero | E::Utf8(_) | E::Unused => continue,
                E::Int(_) | E::Float(_) | E::Long(_) | E::Double(_) | E::Str(_) => self.literal(ix),
                E::Class(_) | E::MType(_) | E::Handle(..) | E::Dyn(..) => self.loadable(ix)?,
                E::Indy(..) => self.dynamic(ix)?,
                E::Field(..) => rename(self.member(ix)?, "FieldRef"),
                E::Method(..) => rename(self.member(ix)?, "MethodRef"),
                E::IMethod(..) => rename(self.member(ix)?, "InterfaceMethodRef"),
                E::NT(..) => {
                    let (name, desc) = self.nt(ix)?;
                    t!("NameAndType"; "name" => V::S(name), "desc" => V::S(desc))
                }
                E::Module(x) => t!("Module"; "name" => V::S(self.text(x)?)),
                E::Package(x) => t!("Package"; "name" => V::S(self.text(x)?)),
            });
        }
        Ok(out)
    }

    // ---- class ----

    fn class(&mut self) -> R<Parsed> {
        if self.u4(What::Magic, "magic")? != 0xcafebabe {
            return self.rej(Cat::Magic, "magic");
        }
        let minor = self.u2(What::Minor, "minor")?;
        let major = self.u2(What::Major, "major")?;
        self.info.major = major;
        if !(45..=65).contains(&major) {
            self.odd("version not known to Java 21");
        }
        self.read_pool()?;
        let access = self.u2(What::Flags, "class.access")? & 0xf631;
        let module = access & 0x8000 != 0;
        if module {
            if major < 53 {
                return self.rej(Cat::Module, "module before version 53");
            }
            if access != 0x8000 {
                return self.rej(Cat::Module, "module with other flags");
            }
        } else if let Some(n) = self.info.pool.iter().position(|e| matches!(e, E::Module(_) | E::Package(_))) {
            self.ctx.push(n as u64);
            let r = self.rej(Cat::PoolContent, "module or package constant in a class");
            return r.map_err(|mut e: Rej| {
                e.entry = Some(n);
                e
            });
        }
        let this = self.class_ref("this_class")?;
        let this = self.plain_class(this)?;
        let mut sup = self.class_opt("super_class")?;
        if sup != V::None {
            sup = self.plain_class(sup)?;
        }
        let interfaces = self.table("interfaces.count", |p, _| {
            let c = p.class_ref("interface")?;
            p.plain_class(c)
        })?;
        let mut seen = HashSet::new();
        let fields = self.table("fields.count", |p, _| {
            let access = p.u2(What::Flags, "field.access")? & 0x50df;
            let name = p.utf8("field.name")?;
            if !text::is_unqualified(&name) {
                return p.rej(Cat::MemberName, format!("field name {name:?}"));
            }
            let desc = p.field_desc("field.descriptor")?;
            if !seen.insert((name.clone(), desc.get("text").str().to_string())) {
                return p.rej(Cat::Dup, format!("field {name}"));
            }
            let attributes = p.attributes("field.attributes.count")?;
            Ok(t!("Field"; "access" => u(access), "name" => V::S(name), "desc" => desc, "attributes" => attributes))
        })?;
        let iface = access & 0x200 != 0;
        let mut seen = HashSet::new();
        let methods = self.table("methods.count", |p, _| {
            let access = p.u2(What::Flags, "method.access")? & 0x1dff;
            let name = p.utf8("method.name")?;
            if iface && name == "<init>" {
                return p.rej(Cat::Init, "<init> in an interface");
            }
            if !text::is_method_name(&name, true, true) {
                return p.rej(Cat::MemberName, format!("method name {name:?}"));
            }
            let d = p.utf8("method.descriptor")?;
            let Some(desc) = text::method_desc(&d) else {
                return p.rej(Cat::Desc, format!("method descriptor {d:?}"));
            };
            if (name == "<init>" || name == "<clinit>") && desc.ret.is_some() {
                return p.rej(Cat::Init, format!("{name} returning something"));
            }
            if name == "<clinit>" && major >= 51 && !desc.params.is_empty() {
                return p.rej(Cat::Init, "<clinit> with parameters");
            }
            if !seen.insert((name.clone(), d.clone())) {
                return p.rej(Cat::Dup, format!("method {name}{d}"));
            }
            let attributes = p.attributes("method.attributes.count")?;
            Ok(t!("Method"; "access" => u(access), "name" => V::S(name), "desc" => desc.value(), "attributes" => attributes))
        })?;
        let attributes = self.attributes("class.attributes.count")?;
        if self.p != self.b.len() {
            return self.rej(Cat::Structure, "extra bytes");
        }
        if module && (sup != V::None || [&interfaces, &fields, &methods].iter().any(|x| !x.list().is_empty())) {
            return self.rej(Cat::Module, "module with superclass, interfaces, fields or methods");
        }
        let tables: Vec<usize> = attributes.list().iter().map(|a| a.get("data")).filter(|d| d.tag() == "BootstrapMethods").map(|d| d.get("entries").list().len()).collect();
        for (n, e) in self.info.pool.iter().enumerate() {
            if let E::Dyn(x, _) | E::Indy(x, _) = e {
                if tables.len() != 1 || *x as usize >= tables[0] {
                    return Err(Rej { cat: Cat::Bootstrap, at: vec![n as u64], eof: false, msg: format!("bootstrap method {x} of tables {tables:?}"), entry: Some(n) });
                }
            }
        }
        let tree = t!("Class"; "major" => u(major), "minor" => u(minor), "access" => u(access), "this" => this, "super" => sup,
            "interfaces" => interfaces, "fields" => fields, "methods" => methods, "attributes" => attributes);
        Ok(Parsed { tree, cp: self.pool_items()? })
    }

    fn field_desc(&mut self, site: &'static str) -> R<V> {
        let d = self.utf8(site)?;
        match text::field_desc(&d) {
            Some(x) => Ok(x.value()),
            None => self.rej(Cat::Desc, format!("field descriptor {d:?}")),
        }
    }
    fn unqualified(&mut self, site: &'static str) -> R<V> {
        let name = self.utf8(site)?;
        if !text::is_unqualified(&name) {
            return self.rej(Cat::AttrName, format!("name {name:?}"));
        }
        Ok(V::S(name))
    }

    // ---- attributes ----

    fn attributes(&mut self, site: &'static str) -> R<V> {
        self.attr_depth += 1;
        if self.attr_depth > 4 {
            self.odd("attributes nested deeply");
        }
        if self.attr_depth > 200 {
            return self.rej(Cat::TooDeep, "attributes");
        }
        let n = self.u2(What::Count, site)?;
        let r = self.each(n.into(), |p, _| p.attribute())?;
        self.attr_depth -= 1;
        Ok(V::L(r))
    }

    fn attribute(&mut self) -> R<V> {
        self.info.attrs += 1;
        let name = self.utf8("attribute.name")?;
        let len = self.u4(What::AttrLen, "attribute.length")? as usize;
        if self.end - self.p < len {
            let mut r = self.rej::<()>(Cat::AttrLen, "attribute beyond its container").unwrap_err();
            if self.b.len() - self.p >= len {
                r.at.remove(0);
            }
            return Err(r);
        }
        let end = std::mem::replace(&mut self.end, self.p + len);
        let depth = self.ctx.len();
        let data = self.attribute_data(&name, len).map_err(|mut e| {
            if e.eof && e.at.is_empty() {
                e.cat = Cat::AttrLen;
                e.at = self.ctx[..depth].iter().rev().copied().collect();
            }
            e
        })?;
        if self.p != self.end {
            return self.rej(Cat::AttrLen, format!("{name} attribute longer than its contents"));
        }
        self.end = end;
        Ok(t!("Attr"; "name" => V::S(name), "data" => data))
    }

    fn attribute_data(&mut self, name: &str, len: usize) -> R<V> {
        use kind::*;
        Ok(match name {
            "ConstantValue" => {
                let ix = self.cp(CONST, "ConstantValue.value")?;
                t!("ConstantValue"; "value" => self.literal(ix))
            }
            "Code" => self.code()?,
            "StackMapTable" => t!("StackMapTable"; "frames" => self.table("StackMapTable.count", |p, _| p.frame())?),
            "Exceptions" => t!("Exceptions"; "classes" => self.table("Exceptions.count", |p, _| p.class_ref("Exceptions.class"))?),
            "InnerClasses" => t!("InnerClasses"; "classes" => self.table("InnerClasses.count", |p, _| {
                Ok(t!("Inner"; "inner" => p.class_ref("InnerClasses.inner")?, "outer" => p.class_opt("InnerClasses.outer")?,
                    "name" => p.utf8_opt("InnerClasses.name")?, "access" => u(p.u2(What::Flags, "inner.access")? & 0x761f)))
            })?),
            "EnclosingMethod" => {
                let class = self.class_ref("EnclosingMethod.class")?;
                let m = self.cp(NT | ZERO, "EnclosingMethod.method")?;
                let method = if m == 0 {
                    V::None
                } else {
                    let (name, desc) = self.nt(m)?;
                    t!("NameAndType"; "name" => V::S(name), "desc" => V::S(desc))
                };
                t!("EnclosingMethod"; "class" => class, "method" => method)
            }
            "Synthetic" => t!("Synthetic"),
            "Deprecated" => t!("Deprecated"),
            "Signature" => t!("Signature"; "text" => V::S(self.utf8("Signature.signature")?)),
            "SourceFile" => t!("SourceFile"; "text" => V::S(self.utf8("SourceFile.file")?)),
            "SourceDebugExtension" => {
                self.mark(len, What::Utf8, "SourceDebugExtension.bytes", 0);
                let body = &self.b[self.p..self.p + len];
                let (x, legal) = text::decode(body);
                if !legal {
                    self.odd("illegal modified UTF-8");
                }
                if !matches!(&x, Text::Str(y) if y.as_bytes() == body) {
                    self.info.plain_text = false;
                }
                let Text::Str(x) = x else {
                    return self.rej(Cat::Text, "debug extension is not text");
                };
                self.p += len;
                t!("SourceDebugExtension"; "text" => V::S(x))
            }
            "LineNumberTable" => t!("LineNumberTable"; "lines" => self.table("LineNumberTable.count", |p, _| {
                Ok(t!("Line"; "start" => p.num("LineNumberTable.start_pc")?, "line" => p.num("LineNumberTable.line")?))
            })?),
            "LocalVariableTable" => t!("LocalVariableTable"; "vars" => self.table("LocalVariableTable.count", |p, _| {
                Ok(t!("Var"; "start" => p.num("LocalVariableTable.start_pc")?, "length" => p.num("LocalVariableTable.length")?,
                    "name" => p.unqualified("LocalVariableTable.name")?, "desc" => p.field_desc("LocalVariableTable.descriptor")?,
                    "index" => p.num("LocalVariableTable.index")?))
            })?),
            "LocalVariableTypeTable" => t!("LocalVariableTypeTable"; "vars" => self.table("LocalVariableTypeTable.count", |p, _| {
                Ok(t!("VarType"; "start" => p.num("LocalVariableTypeTable.start_pc")?, "length" => p.num("LocalVariableTypeTable.length")?,
                    "name" => p.unqualified("LocalVariableTypeTable.name")?, "signature" => V::S(p.utf8("LocalVariableTypeTable.signature")?),
                    "index" => p.num("LocalVariableTypeTable.index")?))
            })?),
            "RuntimeVisibleAnnotations" => t!("RuntimeVisibleAnnotations"; "annotations" => self.annotations()?),
            "RuntimeInvisibleAnnotations" => t!("RuntimeInvisibleAnnotations"; "annotations" => self.annotations()?),
            "RuntimeVisibleParameterAnnotations" => t!("RuntimeVisibleParameterAnnotations"; "parameters" => self.parameter_annotations()?),
            "RuntimeInvisibleParameterAnnotations" => t!("RuntimeInvisibleParameterAnnotations"; "parameters" => self.parameter_annotations()?),
            "RuntimeVisibleTypeAnnotations" => t!("RuntimeVisibleTypeAnnotations"; "annotations" => self.table("TypeAnnotations.count", |p, _| p.type_annotation())?),
            "RuntimeInvisibleTypeAnnotations" => t!("RuntimeInvisibleTypeAnnotations"; "annotations" => self.table("TypeAnnotations.count", |p, _| p.type_annotation())?),
            "AnnotationDefault" => t!("AnnotationDefault"; "value" => self.element_value(0)?),
            "BootstrapMethods" => t!("BootstrapMethods"; "entries" => self.table("BootstrapMethods.count", |p, _| {
                let h = p.cp(HANDLE, "BootstrapMethods.method")?;
                let method = p.handle(h)?;
                let args = p.table("BootstrapMethods.arguments.count", |p, _| {
                    let a = p.cp(LOADABLE, "BootstrapMethods.argument")?;
                    p.loadable(a)
                })?;
                Ok(t!("Bootstrap"; "method" => method, "args" => args))
            })?),
            "MethodParameters" => {
                let n = self.u1(What::Count, "MethodParameters.count")?;
                let l = self.each(n.into(), |p, _| {
                    let name = p.utf8_opt("MethodParameters.name")?;
                    if name != V::None && !text::is_unqualified(name.str()) {
                        return p.rej(Cat::AttrName, "parameter name");
                    }
                    Ok(t!("Param"; "name" => name, "access" => p.strict_flags(0x9010, "parameter.access")?))
                })?;
                t!("MethodParameters"; "params" => V::L(l))
            }
            "Module" => {
                let name = self.module_ref("Module.name")?;
                let access = self.strict_flags(0x9020, "module.flags")?;
                let version = self.utf8_opt("Module.version")?;
                let requires = self.table("Module.requires.count", |p, _| {
                    Ok(t!("Requires"; "name" => p.module_ref("Module.requires")?, "access" => p.strict_flags(0x9060, "requires.flags")?,
                        "version" => p.utf8_opt("Module.requires.version")?))
                })?;
                let exports = self.table("Module.exports.count", |p, _| {
                    Ok(t!("Exports"; "package" => p.package_ref("Module.exports")?, "access" => p.strict_flags(0x9000, "exports.flags")?,
                        "to" => p.table("Module.exports.to.count", |p, _| p.module_ref("Module.exports.to"))?))
                })?;
                let opens = self.table("Module.opens.count", |p, _| {
                    Ok(t!("Opens"; "package" => p.package_ref("Module.opens")?, "access" => p.strict_flags(0x9000, "opens.flags")?,
                        "to" => p.table("Module.opens.to.count", |p, _| p.module_ref("Module.opens.to"))?))
                })?;
                let uses = self.table("Module.uses.count", |p, _| p.class_ref("Module.uses"))?;
                let provides = self.table("Module.provides.count", |p, _| {
                    Ok(t!("Provides"; "service" => p.class_ref("Module.provides")?,
                        "with" => p.table("Module.provides.with.count", |p, _| p.class_ref("Module.provides.with"))?))
                })?;
                t!("Module"; "name" => name, "access" => access, "version" => version, "requires" => requires, "exports" => exports,
                    "opens" => opens, "uses" => uses, "provides" => provides)
            }
            "ModulePackages" => t!("ModulePackages"; "packages" => self.table("ModulePackages.count", |p, _| p.package_ref("ModulePackages.package"))?),
            "ModuleMainClass" => t!("ModuleMainClass"; "class" => self.class_ref("ModuleMainClass.class")?),
            "NestHost" => t!("NestHost"; "class" => self.class_ref("NestHost.class")?),
            "NestMembers" => t!("NestMembers"; "classes" => self.table("NestMembers.count", |p, _| p.class_ref("NestMembers.class"))?),
            "PermittedSubclasses" => t!("PermittedSubclasses"; "classes" => self.table("PermittedSubclasses.count", |p, _| p.class_ref("PermittedSubclasses.class"))?),
            "Record" => t!("Record"; "components" => self.table("Record.count", |p, _| {
                Ok(t!("Component"; "name" => p.unqualified("Record.name")?, "desc" => p.field_desc("Record.descriptor")?,
                    "attributes" => p.attributes("Record.attributes.count")?))
            })?),
            _ => {
                self.mark(len, What::Raw, "unknown attribute", 0);
                let x = self.b[self.p..self.p + len].to_vec();
                self.p += len;
                t!("Other"; "bytes" => V::B(x))
            }
        })
    }

    fn strict_flags(&mut self, defined: u16, site: &'static str) -> R<V> {
        let f = self.u2(What::StrictFlags, site)?;
        if f & !defined != 0 {
            return self.rej(Cat::Flags, format!("{site} {f:#x}"));
        }
        Ok(u(f))
    }

    fn frame(&mut self) -> R<V> {
        let tag = self.u1(What::FrameTag, "StackMapTable.frame")?;
        let short = tag as u64;
        Ok(match tag {
            0..=63 => t!("Same"; "delta" => u(short)),
            64..=127 => t!("Same1"; "delta" => u(short - 64), "stack" => self.vtype()?),
            128..=246 => return self.rej(Cat::StackMapTag, format!("frame type {tag}")),
            247 => t!("Same1"; "delta" => self.num("frame.delta")?, "stack" => self.vtype()?),
            248..=250 => t!("Chop"; "delta" => self.num("frame.delta")?, "count" => u(251 - short)),
            251 => t!("Same"; "delta" => self.num("frame.delta")?),
            252..=254 => t!("Append"; "delta" => self.num("frame.delta")?, "locals" => V::L(self.each(tag as usize - 251, |p, _| p.vtype())?)),
            255 => t!("Full"; "delta" => self.num("frame.delta")?, "locals" => self.table("frame.locals.count", |p, _| p.vtype())?,
                "stack" => self.table("frame.stack.count", |p, _| p.vtype())?),
        })
    }

    fn vtype(&mut self) -> R<V> {
        Ok(match self.u1(What::VerTag, "StackMapTable.type")? {
            0 => t!("Top"),
            1 => t!("Integer"),
            2 => t!("Float"),
            3 => t!("Double"),
            4 => t!("Long"),
            5 => t!("Null"),
            6 => t!("UninitializedThis"),
            7 => t!("Object"; "class" => self.class_ref("StackMapTable.class")?),
            8 => t!("Uninitialized"; "offset" => self.num("StackMapTable.offset")?),
            x => return self.rej(Cat::StackMapTag, format!("verification type {x}")),
        })
    }

    fn annotations(&mut self) -> R<V> {
        self.table("annotations.count", |p, _| p.annotation(0))
    }
    fn parameter_annotations(&mut self) -> R<V> {
        let n = self.u1(What::Count, "parameters.count")?;
        Ok(V::L(self.each(n.into(), |p, _| p.annotations())?))
    }
    fn annotation(&mut self, depth: usize) -> R<V> {
        let ty = self.field_desc("annotation.type")?;
        let elements = self.table("annotation.elements.count", |p, _| {
            Ok(t!("Element"; "name" => V::S(p.utf8("annotation.element.name")?), "value" => p.element_value(depth)?))
        })?;
        Ok(t!("Annotation"; "type" => ty, "elements" => elements))
    }
    fn element_value(&mut self, depth: usize) -> R<V> {
        use kind::*;
        if depth > 16 {
            self.odd("annotations nested deeply");
        }
        if depth > 400 {
            return self.rej(Cat::TooDeep, "annotations");
        }
        let tag = self.u1(What::AnnoTag, "element_value.tag")?;
        let constant = |p: &mut Self, name: &'static str, k: u32| -> R<V> {
            let ix = p.cp(k, "element_value.const")?;
            Ok(V::T(name, vec![("value", p.literal(ix))]))
        };
        Ok(match tag {
            b'B' => constant(self, "Byte", INT)?,
            b'C' => constant(self, "Char", INT)?,
            b'D' => constant(self, "Double", DOUBLE)?,
            b'F' => constant(self, "Float", FLOAT)?,
            b'I' => constant(self, "Int", INT)?,
            b'J' => constant(self, "Long", LONG)?,
            b'S' => constant(self, "Short", INT)?,
            b'Z' => constant(self, "Boolean", INT)?,
            b's' => t!("String"; "text" => V::S(self.utf8("element_value.string")?)),
            b'e' => t!("Enum"; "type" => self.field_desc("element_value.enum.type")?, "name" => V::S(self.utf8("element_value.enum.name")?)),
            b'c' => {
                let d = self.utf8("element_value.class")?;
                if text::return_desc(&d).is_none() {
                    return self.rej(Cat::Desc, format!("class literal {d:?}"));
                }
                t!("Class"; "desc" => V::S(d))
            }
            b'@' => t!("Nested"; "annotation" => self.annotation(depth + 1)?),
            b'[' => t!("Array"; "values" => self.table("element_value.array.count", |p, _| p.element_value(depth + 1))?),
            x => return self.rej(Cat::AnnoTag, format!("element value tag {x:#x}")),
        })
    }
    fn type_annotation(&mut self) -> R<V> {
        let tag = self.u1(What::TargetType, "type_annotation.target_type")?;
        let one = |p: &mut Self| -> R<V> { Ok(u(p.u1(What::Num, "type_annotation.target")?)) };
        let two = |p: &mut Self| -> R<V> { p.num("type_annotation.target") };
        let target = match tag {
            0x00 | 0x01 => t!("TypeParameter"; "index" => one(self)?),
            0x10 => t!("Supertype"; "index" => two(self)?),
            0x11 | 0x12 => t!("TypeParameterBound"; "parameter" => one(self)?, "bound" => one(self)?),
            0x13..=0x15 => t!("Empty"),
            0x16 => t!("FormalParameter"; "index" => one(self)?),
            0x17 => t!("Throws"; "index" => two(self)?),
            0x40 | 0x41 => t!("LocalVar"; "vars" => self.table("type_annotation.localvar.count", |p, _| {
                Ok(t!("Range"; "start" => two(p)?, "length" => two(p)?, "index" => two(p)?))
            })?),
            0x42 => t!("Catch"; "index" => two(self)?),
            0x43..=0x46 => t!("Offset"; "offset" => two(self)?),
            0x47..=0x4b => t!("TypeArgument"; "offset" => two(self)?, "index" => one(self)?),
            x => return self.rej(Cat::AnnoTag, format!("target type {x:#x}")),
        };
        let n = self.u1(What::Count, "type_annotation.path.count")?;
        let path = self.each(n.into(), |p, _| {
            let k = p.u1(What::PathKind, "type_annotation.path.kind")?;
            let Some(name) = ["DeeperArray", "DeeperNested", "WildcardTypeArgument", "TypeArgument"].get(k as usize) else {
                return p.rej(Cat::AnnoTag, format!("path kind {k}"));
            };
            Ok(t!("Path"; "kind" => s(name), "index" => u(p.u1(What::Num, "type_annotation.path.index")?)))
        })?;
        Ok(t!("TypeAnnotation"; "target" => target, "path" => V::L(path), "annotation" => self.annotation(0)?))
    }

    // ---- code ----

    fn code(&mut self) -> R<V> {
        let max_stack = self.num("Code.max_stack")?;
        let max_locals = self.num("Code.max_locals")?;
        let len = self.u4(What::CodeLen, "Code.code_length")? as usize;
        self.mark(len, What::Code, "Code.code", 0);
        if self.end - self.p < len {
            self.take(self.end - self.p + 1)?;
        }
        if len == 0 || len > 65535 {
            self.odd("code array of illegal size");
        }
        let (start, stop) = (self.p, self.p + len);
        self.info.code_spans.push((start, stop));
        self.p = stop;
        let exceptions = self.table("Code.exceptions.count", |p, _| {
            Ok(t!("Handler"; "start" => p.num("Code.exception.start")?, "end" => p.num("Code.exception.end")?, "handler" => p.num("Code.exception.handler")?,
                "catch" => p.class_opt("Code.exception.catch_type")?))
        })?;
        let attributes = self.attributes("Code.attributes.count")?;
        let insns = if self.bytecode {
            let (p, end) = (std::mem::replace(&mut self.p, start), std::mem::replace(&mut self.end, stop));
            let insns = self.instructions(start)?;
            self.p = p;
            self.end = end;
            V::L(insns)
        } else {
            V::None
        };
        let bytes = V::B(self.b[start..stop].to_vec());
        Ok(t!("Code"; "max_stack" => max_stack, "max_locals" => max_locals, "code" => bytes, "insns" => insns,
            "exceptions" => exceptions, "attributes" => attributes))
    }

    fn instructions(&mut self, start: usize) -> R<Vec<V>> {
        let mut out = vec![];
        let mut branches: Vec<(u64, i64)> = vec![];
        let mut at = HashSet::new();
        while self.p < self.end {
            let off = self.p - start;
            at.insert(off as i64);
            self.ctx.push(off as u64);
            let op = self.instruction(start, off, &mut branches).map_err(|mut e| {
                if e.eof {
                    e.eof = false;
                    e.cat = Cat::Code;
                    e.at = self.ctx.iter().rev().copied().collect();
                }
                e
            })?;
            self.ctx.pop();
            out.push(t!("Insn"; "offset" => u(off as u64), "op" => op));
        }
        for (from, to) in branches {
            if !at.contains(&to) {
                self.ctx.push(from);
                return self.rej(Cat::Branch, format!("branch from {from} to {to}"));
            }
        }
        Ok(out)
    }

    fn instruction(&mut self, start: usize, off: usize, branches: &mut Vec<(u64, i64)>) -> R<V> {
        use kind::*;
        let code = self.u1(What::Opcode, "opcode")?;
        let Some(op) = opcodes::by_code()[code as usize] else {
            return self.rej(Cat::Code, format!("opcode {code:#x}"));
        };
        if op.reserved {
            self.odd("reserved opcode");
        }
        let site = op.name;
        let mk = |f: Vec<(&'static str, V)>| V::T(op.name, f);
        let mut branch = |d: i64| {
            branches.push((off as u64, off as i64 + d));
            i(d)
        };
        let cp = |p: &mut Self, allowed: u32| p.cp(allowed, site);
        Ok(match op.f {
            F::No => mk(vec![]),
            F::I1 => mk(vec![("v", i(self.u1(What::Imm, site)? as i8))]),
            F::I2 => mk(vec![("v", i(self.u2(What::Imm, site)? as i16))]),
            F::Local => mk(vec![("v", u(self.u1(What::Imm, site)?))]),
            F::Fixed(k) => mk(vec![("v", u(k))]),
            F::Load1 | F::Load2 => {
                let ix = if op.f == F::Load1 {
                    self.mark(1, What::CpRef, site, LOADABLE);
                    let ix = self.take(1)? as u16;
                    self.check(ix, LOADABLE)?;
                    ix
                } else {
                    cp(self, LOADABLE)?
                };
                let wide = match self.ent(ix) {
                    E::Long(_) | E::Double(_) => true,
                    E::Dyn(_, n) => matches!(self.nt(*n)?.1.as_str(), "J" | "D"),
                    _ => false,
                };
                if wide != (code == 0x14) {
                    self.odd("constant of the other width");
                }
                mk(vec![("v", self.loadable(ix)?)])
            }
            F::Field => {
                let ix = cp(self, FIELD)?;
                mk(vec![("ref", self.member(ix)?)])
            }
            F::Method => {
                let ix = cp(self, METHOD)?;
                mk(vec![("ref", self.member(ix)?)])
            }
            F::AnyMethod => {
                let ix = cp(self, METHOD | IMETHOD)?;
                if self.info.major < 52 && matches!(self.ent(ix), E::IMethod(..)) {
                    self.odd("interface method called directly before version 52");
                }
                mk(vec![("ref", self.member(ix)?)])
            }
            F::Iface => {
                let ix = cp(self, IMETHOD)?;
                let count = self.u1(What::Imm, site)?;
                if self.u1(What::Pad, "invokeinterface.zero")? != 0 {
                    return self.rej(Cat::Code, "invokeinterface padding");
                }
                mk(vec![("ref", self.member(ix)?), ("count", u(count))])
            }
            F::Indy => {
                let ix = cp(self, INDY)?;
                if self.u2(What::Pad, "invokedynamic.zero")? != 0 {
                    return self.rej(Cat::Code, "invokedynamic padding");
                }
                mk(vec![("ref", self.dynamic(ix)?)])
            }
            F::Class => {
                let ix = cp(self, CLASS)?;
                let name = self.class_name(ix)?;
                if name.starts_with('[') {
                    self.odd("new of an array type");
                }
                mk(vec![("class", V::S(name))])
            }
            F::Type => mk(vec![("type", self.object_type(site)?)]),
            F::Multi => {
                let ty = self.object_type(site)?;
                let dims = self.u1(What::Imm, site)?;
                if dims == 0 || ty.get("desc").get("dims").num() < dims as i128 {
                    self.odd("multianewarray dimensions");
                }
                mk(vec![("type", ty), ("dims", u(dims))])
            }
            F::B2 => {
                let d = self.u2(What::Branch, site)? as i16;
                mk(vec![("offset", branch(d as i64))])
            }
            F::B4 => {
                let d = self.u4(What::Branch, site)? as i32;
                mk(vec![("offset", branch(d as i64))])
            }
            F::Iinc => mk(vec![("local", u(self.u1(What::Imm, site)?)), ("delta", i(self.u1(What::Imm, site)? as i8))]),
            F::NewArray => {
                let k = self.u1(What::Atype, site)?;
                let Some(a) = opcodes::ATYPES.iter().find(|a| a.0 == k) else {
                    return self.rej(Cat::Code, format!("array type {k}"));
                };
                mk(vec![("type", s(a.1))])
            }
            F::Table | F::Lookup => {
                while (self.p - start) % 4 != 0 {
                    if self.u1(What::Pad, "switch.padding")? != 0 {
                        self.odd("nonzero switch padding");
                    }
                }
                let default = self.u4(What::Branch, "switch.default")? as i32;
                let default = branch(default as i64);
                if op.f == F::Table {
                    let low = self.u4(What::SwitchRange, "switch.low")? as i32;
                    let high = self.u4(What::SwitchRange, "switch.high")? as i32;
                    if low > high {
                        return self.rej(Cat::Code, "empty tableswitch");
                    }
                    let mut jumps = vec![];
                    for _ in low as i64..=high as i64 {
                        let d = self.u4(What::Branch, "tableswitch.arm")? as i32;
                        jumps.push(branch(d as i64));
                    }
                    mk(vec![("default", default), ("low", i(low)), ("high", i(high)), ("jumps", V::L(jumps))])
                } else {
                    let n = self.u4(What::SwitchRange, "switch.npairs")? as i32;
                    if n < 0 {
                        return self.rej(Cat::Code, "negative pair count");
                    }
                    let mut pairs = vec![];
                    let mut last = i64::MIN;
                    for _ in 0..n {
                        let k = self.u4(What::Imm, "lookupswitch.match")? as i32;
                        let d = self.u4(What::Branch, "lookupswitch.arm")? as i32;
                        if (k as i64) <= last {
                            self.odd("unsorted lookupswitch");
                        }
                        last = k as i64;
                        pairs.push(t!("Pair"; "match" => i(k), "offset" => branch(d as i64)));
                    }
                    mk(vec![("default", default), ("pairs", V::L(pairs))])
                }
            }
            F::Wide => {
                let code = self.u1(What::Opcode, "wide.opcode")?;
                let inner = opcodes::by_code()[code as usize].filter(|o| o.wide);
                let Some(inner) = inner else {
                    return self.rej(Cat::Code, format!("wide {code:#x}"));
                };
                let local = u(self.u2(What::Imm, inner.name)?);
                if inner.f == F::Iinc {
                    V::T(inner.name, vec![("local", local), ("delta", i(self.u2(What::Imm, inner.name)? as i16))])
                } else {
                    V::T(inner.name, vec![("v", local)])
                }
            }
        })
    }

    fn object_type(&mut self, site: &'static str) -> R<V> {
        let ix = self.cp(kind::CLASS, site)?;
        let name = self.class_name(ix)?;
        Ok(if name.starts_with('[') {
            t!("Array"; "desc" => text::field_desc(&name).unwrap().value())
        } else {
            t!("Class"; "name" => V::S(name))
        })
    }
}
