//! Puts class files together: constants are interned by content, the pool is laid out in any
//! order at the end, and references are patched in.
use crate::rng::Rng;
use crate::text;
use std::collections::HashMap;

pub type Id = usize;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum C {
    Utf8(Vec<u8>),
    Int(u32),
    Float(u32),
    Long(u64),
    Double(u64),
    Class(Id),
    Str(Id),
    Field(Id, Id),
    Method(Id, Id),
    IMethod(Id, Id),
    NT(Id, Id),
    Handle(u8, Id),
    MType(Id),
    Dyn(u16, Id),
    Indy(u16, Id),
    Module(Id),
    Package(Id),
}

#[derive(Clone, Default)]
pub struct Asm {
    pub pool: Vec<C>,
    by_content: HashMap<C, Id>,
    pub body: Vec<u8>,
    fix: Vec<(usize, Id, u8)>,
    narrow: Vec<Id>,
    pub minor: u16,
    pub major: u16,
    pub no_shuffle: bool,
    /// Filler constants put after the first 120 or so, which pushes the rest to high indexes.
    pub pad: usize,
}

impl Asm {
    pub fn new(major: u16) -> Asm {
        Asm { major, ..Asm::default() }
    }
    pub fn add(&mut self, c: C) -> Id {
        if let Some(id) = self.by_content.get(&c) {
            return *id;
        }
        let id = self.pool.len();
        self.pool.push(c.clone());
        self.by_content.insert(c, id);
        id
    }
    /// The same constant again, as an entry of its own.
    pub fn duplicate(&mut self, c: C) -> Id {
        self.pool.push(c);
        self.pool.len() - 1
    }
    pub fn utf8(&mut self, x: &str) -> Id {
        self.add(C::Utf8(text::encode(x)))
    }
    pub fn bytes(&mut self, x: &[u8]) -> Id {
        self.add(C::Utf8(x.to_vec()))
    }
    pub fn class(&mut self, x: &str) -> Id {
        let n = self.utf8(x);
        self.add(C::Class(n))
    }
    pub fn string(&mut self, x: &str) -> Id {
        let n = self.utf8(x);
        self.add(C::Str(n))
    }
    pub fn nt(&mut self, name: &str, desc: &str) -> Id {
        let (a, b) = (self.utf8(name), self.utf8(desc));
        self.add(C::NT(a, b))
    }
    pub fn field(&mut self, class: &str, name: &str, desc: &str) -> Id {
        let (c, n) = (self.class(class), self.nt(name, desc));
        self.add(C::Field(c, n))
    }
    pub fn method(&mut self, class: &str, name: &str, desc: &str) -> Id {
        let (c, n) = (self.class(class), self.nt(name, desc));
        self.add(C::Method(c, n))
    }
    pub fn imethod(&mut self, class: &str, name: &str, desc: &str) -> Id {
        let (c, n) = (self.class(class), self.nt(name, desc));
        self.add(C::IMethod(c, n))
    }
    pub fn mtype(&mut self, desc: &str) -> Id {
        let n = self.utf8(desc);
        self.add(C::MType(n))
    }
    pub fn module(&mut self, name: &str) -> Id {
        let n = self.utf8(name);
        self.add(C::Module(n))
    }
    pub fn package(&mut self, name: &str) -> Id {
        let n = self.utf8(name);
        self.add(C::Package(n))
    }

    pub fn u1(&mut self, x: u8) -> &mut Self {
        self.body.push(x);
        self
    }
    pub fn u2(&mut self, x: u16) -> &mut Self {
        self.body.extend_from_slice(&x.to_be_bytes());
        self
    }
    pub fn u4(&mut self, x: u32) -> &mut Self {
        self.body.extend_from_slice(&x.to_be_bytes());
        self
    }
    pub fn raw(&mut self, x: &[u8]) -> &mut Self {
        self.body.extend_from_slice(x);
        self
    }
    pub fn r(&mut self, id: Id) -> &mut Self {
        self.fix.push((self.body.len(), id, 2));
        self.u2(0)
    }
    pub fn r_opt(&mut self, id: Option<Id>) -> &mut Self {
        match id {
            Some(id) => self.r(id),
            None => self.u2(0),
        }
    }
    /// A one-byte reference; its entry gets an index below 256.
    pub fn r1(&mut self, id: Id) -> &mut Self {
        self.fix.push((self.body.len(), id, 1));
        if !self.narrow.contains(&id) {
            self.narrow.push(id);
        }
        self.u1(0)
    }
    /// Where the body and its references are at, for [`Asm::again`].
    pub fn here(&self) -> (usize, usize) {
        (self.body.len(), self.fix.len())
    }
    /// Writes once more what was written between two places.
    pub fn again(&mut self, from: (usize, usize), to: (usize, usize)) {
        let at = self.body.len();
        self.body.extend_from_within(from.0..to.0);
        for k in from.1..to.1 {
            let (pos, id, width) = self.fix[k];
            self.fix.push((pos - from.0 + at, id, width));
        }
    }
    pub fn narrow_left(&self) -> usize {
        100usize.saturating_sub(self.narrow.len())
    }
    pub fn is_narrow(&self, id: Id) -> bool {
        self.narrow.contains(&id)
    }
    pub fn open_attr(&mut self, name: &str) -> usize {
        let n = self.utf8(name);
        self.r(n).u4(0);
        self.body.len()
    }
    pub fn close_attr(&mut self, start: usize) {
        let n = (self.body.len() - start) as u32;
        self.body[start - 4..start].copy_from_slice(&n.to_be_bytes());
    }
    pub fn set_u2(&mut self, pos: usize, x: u16) {
        self.body[pos..pos + 2].copy_from_slice(&x.to_be_bytes());
    }
    pub fn set_u4(&mut self, pos: usize, x: u32) {
        self.body[pos..pos + 4].copy_from_slice(&x.to_be_bytes());
    }

    pub fn slots(&self) -> usize {
        1 + self.pad + self.pool.len() + self.pool.iter().filter(|c| matches!(c, C::Long(_) | C::Double(_))).count()
    }

    pub fn finish(&self, rng: &mut Rng) -> Vec<u8> {
        let mut order: Vec<Id> = (0..self.pool.len()).collect();
        if !self.no_shuffle {
            rng.shuffle(&mut order);
        }
        let mut head: Vec<Id> = self.narrow.clone();
        let mut tail: Vec<Id> = vec![];
        for id in order {
            if head.contains(&id) {
                continue;
            }
            if head.len() < 120 {
                head.push(id);
            } else {
                tail.push(id);
            }
        }
        if !self.no_shuffle {
            rng.shuffle(&mut head);
        } else {
            head.sort();
        }
        head.extend(tail);
        let mut index = vec![0u16; self.pool.len()];
        let mut n = 1usize;
        let pad_at = if self.pad == 0 { usize::MAX } else { head.len().min(120) };
        for (k, id) in head.iter().enumerate() {
            if k == pad_at {
                n += self.pad;
            }
            index[*id] = n as u16;
            n += if matches!(self.pool[*id], C::Long(_) | C::Double(_)) { 2 } else { 1 };
        }
        if pad_at == head.len() {
            n += self.pad;
        }
        assert!(n <= 65535, "pool too big: {n}");
        let mut o = vec![0xca, 0xfe, 0xba, 0xbe];
        o.extend_from_slice(&self.minor.to_be_bytes());
        o.extend_from_slice(&self.major.to_be_bytes());
        o.extend_from_slice(&(n as u16).to_be_bytes());
        let e2 = |o: &mut Vec<u8>, x: u16| o.extend_from_slice(&x.to_be_bytes());
        let fill = |o: &mut Vec<u8>| {
            for k in 0..self.pad {
                o.push(3);
                o.extend_from_slice(&(k as u32).to_be_bytes());
            }
        };
        for (k, id) in head.iter().enumerate() {
            if k == pad_at {
                fill(&mut o);
            }
            match &self.pool[*id] {
                C::Utf8(x) => {
                    o.push(1);
                    e2(&mut o, x.len() as u16);
                    o.extend_from_slice(x);
                }
                C::Int(x) | C::Float(x) => {
                    o.push(if matches!(self.pool[*id], C::Int(_)) { 3 } else { 4 });
                    o.extend_from_slice(&x.to_be_bytes());
                }
                C::Long(x) | C::Double(x) => {
                    o.push(if matches!(self.pool[*id], C::Long(_)) { 5 } else { 6 });
                    o.extend_from_slice(&x.to_be_bytes());
                }
                C::Handle(k, x) => {
                    o.push(15);
                    o.push(*k);
                    e2(&mut o, index[*x]);
                }
                C::Dyn(b, x) | C::Indy(b, x) => {
                    o.push(if matches!(self.pool[*id], C::Dyn(..)) { 17 } else { 18 });
                    e2(&mut o, *b);
                    e2(&mut o, index[*x]);
                }
                C::Class(x) | C::Str(x) | C::MType(x) | C::Module(x) | C::Package(x) => {
                    o.push(match self.pool[*id] {
                        C::Class(_) => 7,
                        C::Str(_) => 8,
                        C::MType(_) => 16,
                        C::Module(_) => 19,
                        _ => 20,
                    });
                    e2(&mut o, index[*x]);
                }
                C::Field(x, y) | C::Method(x, y) | C::IMethod(x, y) | C::NT(x, y) => {
                    o.push(match self.pool[*id] {
                        C::Field(..) => 9,
                        C::Method(..) => 10,
                        C::IMethod(..) => 11,
                        _ => 12,
                    });
                    e2(&mut o, index[*x]);
                    e2(&mut o, index[*y]);
                }
            }
        }
        if pad_at == head.len() {
            fill(&mut o);
        }
        let base = o.len();
        o.extend_from_slice(&self.body);
        for (pos, id, width) in &self.fix {
            let x = index[*id];
            if *width == 1 {
                assert!(x < 256);
                o[base + pos] = x as u8;
            } else {
                o[base + pos..base + pos + 2].copy_from_slice(&x.to_be_bytes());
            }
        }
        o
    }
}
