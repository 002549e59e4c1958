//! Inputs meant to hurt a parser: cycles, depth, extremes, counts nothing backs, noise.
use crate::assemble::C;
use crate::generate::*;
use crate::rng::Rng;

#[derive(Clone, Default)]
pub struct Raw {
    pub major: u16,
    pub pool: Vec<u8>,
    pub count: usize,
    pub body: Vec<u8>,
}

impl Raw {
    pub fn new(major: u16) -> Raw {
        Raw { major, count: 1, ..Raw::default() }
    }
    pub fn entry(&mut self, b: &[u8]) -> u16 {
        self.pool.extend_from_slice(b);
        let k = self.count;
        self.count += if b[0] == 5 || b[0] == 6 { 2 } else { 1 };
        k as u16
    }
    pub fn utf8(&mut self, x: &[u8]) -> u16 {
        let mut b = vec![1];
        b.extend((x.len() as u16).to_be_bytes());
        b.extend_from_slice(x);
        self.entry(&b)
    }
    pub fn e1(&mut self, tag: u8, a: u16) -> u16 {
        self.entry(&[tag, (a >> 8) as u8, a as u8])
    }
    pub fn e2(&mut self, tag: u8, a: u16, b: u16) -> u16 {
        self.entry(&[tag, (a >> 8) as u8, a as u8, (b >> 8) as u8, b as u8])
    }
    pub fn class(&mut self, x: &str) -> u16 {
        let n = self.utf8(x.as_bytes());
        self.e1(7, n)
    }
    pub fn u1(&mut self, x: u8) -> &mut Raw {
        self.body.push(x);
        self
    }
    pub fn u2(&mut self, x: u16) -> &mut Raw {
        self.body.extend(x.to_be_bytes());
        self
    }
    pub fn u4(&mut self, x: u32) -> &mut Raw {
        self.body.extend(x.to_be_bytes());
        self
    }
    pub fn raw(&mut self, x: &[u8]) -> &mut Raw {
        self.body.extend_from_slice(x);
        self
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![0xca, 0xfe, 0xba, 0xbe, 0, 0];
        o.extend(self.major.to_be_bytes());
        o.extend((self.count as u16).to_be_bytes());
        o.extend_from_slice(&self.pool);
        o.extend_from_slice(&self.body);
        o
    }
    /// Flags, class, superclass and no interfaces.
    pub fn head(&mut self) -> &mut Raw {
        let (t, s) = (self.class("T"), self.class("S"));
        self.u2(0x21).u2(t).u2(s).u2(0)
    }
    /// The rest of a class with nothing in it.
    pub fn empty(&mut self) -> &mut Raw {
        self.head().u2(0).u2(0).u2(0)
    }
    pub fn attr(&mut self, name: u16, body: &[u8]) -> &mut Raw {
        self.u2(name).u4(body.len() as u32).raw(body)
    }
    /// A class of one method of this code.
    pub fn method(&mut self, code: &[u8]) -> &mut Raw {
        let (c, n, d) = (self.utf8(b"Code"), self.utf8(b"m"), self.utf8(b"()V"));
        self.head().u2(0).u2(1).u2(1).u2(n).u2(d).u2(1);
        self.u2(c).u4(12 + code.len() as u32).u2(3).u2(4).u4(code.len() as u32).raw(code).u2(0).u2(0).u2(0)
    }
}

pub const FAMILIES: [&str; 15] = [
    "pool cycle",
    "pool chain",
    "nested attributes",
    "nested annotations",
    "switch extremes",
    "branch extremes",
    "long lengths",
    "empty counts",
    "long descriptors",
    "bad text",
    "attribute noise",
    "code noise",
    "tiny",
    "pool noise",
    "many",
];

pub const DEPTHS: [usize; 18] = [1, 2, 3, 4, 8, 15, 16, 17, 33, 63, 64, 65, 128, 256, 1000, 4000, 16000, 50000];

/// The k-th input of a family; small k are the extreme cases.
pub fn make(family: &str, k: u64, r: &mut Rng) -> Vec<u8> {
    match family {
        "pool cycle" => cycle(k, r),
        "pool chain" => chain(k, r),
        "nested attributes" => nested(k, r),
        "nested annotations" => annotations(k, r),
        "switch extremes" => switch(r),
        "branch extremes" => branch(r),
        "long lengths" => lengths(r),
        "empty counts" => counts(k, r),
        "long descriptors" => descriptors(k, r),
        "bad text" => bad_text(r),
        "attribute noise" => attribute_noise(r),
        "code noise" => code_noise(r),
        "tiny" => tiny(k, r),
        "pool noise" => pool_noise(r),
        _ => many(k, r),
    }
}

const REFS1: [u8; 6] = [7, 8, 16, 19, 20, 15];
const REFS2: [u8; 6] = [9, 10, 11, 12, 17, 18];

fn referrer(p: &mut Raw, tag: u8, a: u16, b: u16, r: &mut Rng) {
    match tag {
        15 => {
            let k = 1 + r.below(9) as u8;
            p.entry(&[15, k, (a >> 8) as u8, a as u8]);
        }
        t if REFS1.contains(&t) => {
            p.e1(t, a);
        }
        t => {
            p.e2(t, a, b);
        }
    }
}

fn tag(r: &mut Rng) -> u8 {
    if r.one_in(2) {
        *r.pick(&REFS1)
    } else {
        *r.pick(&REFS2)
    }
}

/// References that go round in circles, of every kind and length.
fn cycle(k: u64, r: &mut Rng) -> Vec<u8> {
    let mut p = Raw::new(if r.one_in(3) { 53 } else { 65 });
    let n = if k < 12 { 1 } else { 1 + r.small(12) };
    let t = if k < 12 { [REFS1, REFS2].concat()[k as usize] } else { tag(r) };
    let same = r.one_in(2);
    let lead = r.below(3);
    for _ in 0..lead {
        p.utf8(b"()V");
    }
    let first = p.count;
    for j in 0..n {
        let next = first + (j + 1) % n;
        let other = if r.one_in(2) { next } else { first + r.below(n) };
        let t = if same || k < 12 { t } else { tag(r) };
        referrer(&mut p, t, next as u16, other as u16, r);
    }
    p.empty();
    p.bytes()
}

/// Long chains of references, forwards and backwards, most of them of wrong kinds.
fn chain(k: u64, r: &mut Rng) -> Vec<u8> {
    let mut p = Raw::new(65);
    let n = if k < 24 { 60000 } else { 2 + r.below(300) };
    let t = if k < 24 { [REFS1, REFS2].concat()[k as usize % 12] } else { tag(r) };
    let back = if k < 24 { k >= 12 } else { r.one_in(2) };
    if back {
        p.utf8(b"()V");
    }
    for j in 0..n {
        let next = if back { p.count - 1 } else { p.count + 1 };
        let a = if k >= 24 && r.one_in(20) { 1 + r.below(n) } else { next };
        let t = if k < 24 || j % 7 != 0 { t } else { tag(r) };
        referrer(&mut p, t, a as u16, next as u16, r);
    }
    if !back {
        p.utf8(b"A");
    }
    p.empty();
    p.bytes()
}

/// Code within Code, Record within Record, and both.
fn nested(k: u64, r: &mut Rng) -> Vec<u8> {
    let depth = if k < 3 * DEPTHS.len() as u64 { DEPTHS[k as usize / 3] } else { 1 + r.below(40) };
    let mode = if k < 3 * DEPTHS.len() as u64 { k % 3 } else { r.below(3) as u64 };
    let mut p = Raw::new(65);
    let (c, rec, n, d) = (p.utf8(b"Code"), p.utf8(b"Record"), p.utf8(b"n"), p.utf8(b"I"));
    let md = p.utf8(b"()V");
    // From the outside in: lengths are known from what is left.
    let is_code = |j: usize| match mode {
        0 => true,
        1 => false,
        _ => j % 2 == 0,
    };
    let size = |j: usize| if is_code(j) { 2 + 2 + 4 + 1 + 2 + 2 } else { 2 + 2 + 2 + 2 };
    let mut left: Vec<usize> = vec![0; depth + 1];
    for j in (0..depth).rev() {
        left[j] = size(j) + left[j + 1] + if j + 1 < depth { 6 } else { 0 };
    }
    p.head().u2(0);
    if is_code(0) {
        p.u2(1).u2(1).u2(n).u2(md);
    } else {
        p.u2(0);
    }
    p.u2(1);
    for j in 0..depth {
        p.u2(if is_code(j) { c } else { rec }).u4(left[j] as u32);
        if is_code(j) {
            p.u2(0).u2(0).u4(1).u1(0xb1).u2(0);
        } else {
            p.u2(1).u2(n).u2(d);
        }
        p.u2((j + 1 < depth) as u16);
    }
    if is_code(0) {
        p.u2(0);
    }
    p.bytes()
}

/// Annotations in annotations, arrays in arrays.
fn annotations(k: u64, r: &mut Rng) -> Vec<u8> {
    let directed = k < 3 * DEPTHS.len() as u64;
    let depth = if directed { DEPTHS[k as usize / 3] } else { 1 + r.below(70) };
    let mode = if directed { k % 3 } else { r.below(3) as u64 };
    let mut p = Raw::new(65);
    let which = if directed { (k / 3) as usize % 7 } else { r.below(7) };
    let name = p.utf8(ANNOTATIONS[which].as_bytes());
    let (t, n, i) = (p.utf8(b"LA;"), p.utf8(b"n"), p.entry(&[3, 0, 0, 0, 7]));
    let mut b: Vec<u8> = vec![];
    let u2 = |b: &mut Vec<u8>, x: u16| b.extend(x.to_be_bytes());
    match which {
        0 | 1 => u2(&mut b, 1),
        2 | 3 => b.extend([1, 0, 1]),
        4 | 5 => b.extend([0, 1, 0x13, 0]),
        _ => {}
    }
    if which != 6 {
        u2(&mut b, t);
        u2(&mut b, 1);
        u2(&mut b, n);
    }
    for j in 0..depth {
        let anno = match mode {
            0 => true,
            1 => false,
            _ => j % 2 == 0,
        };
        if anno {
            b.push(b'@');
            u2(&mut b, t);
            u2(&mut b, 1);
            u2(&mut b, n);
        } else {
            b.push(b'[');
            u2(&mut b, 1);
        }
    }
    if r.pct(80) {
        b.push(b'I');
        u2(&mut b, i);
    }
    p.head().u2(0).u2(0).u2(1);
    p.attr(name, &b);
    p.bytes()
}

fn edge(r: &mut Rng) -> u32 {
    let base = *r.pick(&[0u32, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff, 0x10000, 0x4000_0000, 0xc000_0000, 0x2000_0000, 0x1fff_ffff, 0x5555_5555]);
    base.wrapping_add(r.below(9) as u32).wrapping_sub(4)
}

fn switch(r: &mut Rng) -> Vec<u8> {
    let mut code = vec![0u8; r.below(4)];
    let table = r.one_in(2);
    code.push(if table { 0xaa } else { 0xab });
    while code.len() % 4 != 0 {
        code.push(if r.one_in(30) { 1 } else { 0 });
    }
    let small = |r: &mut Rng| if r.one_in(2) { 0 } else { edge(r) };
    code.extend(small(r).to_be_bytes());
    let arms = r.below(5);
    if table {
        let low = edge(r);
        let high = match r.below(3) {
            0 => edge(r),
            1 => low.wrapping_add(arms as u32).wrapping_sub(1),
            _ => low.wrapping_add(edge(r)),
        };
        code.extend(low.to_be_bytes());
        code.extend(high.to_be_bytes());
    } else {
        let n = if r.one_in(2) { arms as u32 } else { edge(r) };
        code.extend(n.to_be_bytes());
    }
    for j in 0..arms {
        if !table {
            code.extend((j as u32 * 5).wrapping_sub(7).to_be_bytes());
        }
        code.extend(small(r).to_be_bytes());
    }
    if r.one_in(3) {
        code.push(0xb1);
    }
    let mut p = Raw::new(60);
    p.method(&code);
    p.bytes()
}

fn branch(r: &mut Rng) -> Vec<u8> {
    let ops = [0x99u8, 0xa7, 0xa8, 0xc6, 0xc8, 0xc9, 0xc8, 0xc9];
    let op = *r.pick(&ops);
    let mut code = vec![0u8; *r.pick(&[0, 1, 3, 4, 100, 32766, 32767, 32768, 65000])];
    let at = code.len() as i64;
    code.push(op);
    let v = match r.below(4) {
        0 => edge(r),
        1 => (-at) as u32,
        2 => ((-at) as u32).wrapping_add(r.below(5) as u32).wrapping_sub(2),
        _ => r.below(6) as u32,
    };
    if op >= 0xc8 {
        code.extend(v.to_be_bytes());
    } else {
        code.extend((v as u16).to_be_bytes());
    }
    code.resize(code.len() + *r.pick(&[0, 1, 2, 500]), 0);
    let mut p = Raw::new(60);
    p.method(&code);
    p.bytes()
}

fn lengths(r: &mut Rng) -> Vec<u8> {
    let mut p = Raw::new(*r.pick(&[50, 65]));
    let kind = *r.pick(&ALL_ATTRS);
    let name = p.utf8(kind.as_bytes());
    let code = p.utf8(b"Code");
    let (n, d) = (p.utf8(b"m"), p.utf8(b"()V"));
    p.head().u2(0);
    let inside = r.below(3);
    if inside == 0 {
        p.u2(0).u2(1);
    } else {
        p.u2(1).u2(1).u2(n).u2(d).u2(1);
        if inside == 2 {
            let outer = edge(r);
            p.u2(code).u4(if r.one_in(2) { outer } else { 1000 }).u2(0).u2(0);
            if r.one_in(3) {
                let l = edge(r);
                p.u4(l);
            } else {
                p.u4(1).u1(0xb1);
            }
            p.u2(0).u2(1);
        }
    }
    let l = edge(r);
    p.u2(name).u4(l);
    for _ in 0..r.below(40) {
        let x = if r.one_in(2) { 0 } else { r.u8() };
        p.u1(x);
    }
    p.bytes()
}

/// Counts of 65535 (or nearly) with nothing, or little, behind them.
fn counts(k: u64, r: &mut Rng) -> Vec<u8> {
    let mut p = Raw::new(65);
    let kind = ALL_ATTRS[k as usize % ALL_ATTRS.len()];
    let name = p.utf8(kind.as_bytes());
    let (n, d, md) = (p.utf8(b"m"), p.utf8(b"I"), p.utf8(b"()V"));
    let cl = p.class("A");
    let m = p.e2(12, n, md);
    let m = p.e2(10, cl, m);
    let h = p.entry(&[15, 6, (m >> 8) as u8, m as u8]);
    let md_ = p.utf8(b"mod");
    let _ = p.e1(19, md_);
    let big = |r: &mut Rng| *r.pick(&[0xffffu16, 0xfffe, 0x8000, 0x7fff]);
    match k as usize / ALL_ATTRS.len() {
        0 => {
            // Interfaces, fields, methods, attributes in turn.
            let j = k as usize % 4;
            let (t, s) = (p.class("T"), p.class("S"));
            p.u2(0x21).u2(t).u2(s);
            for q in 0..j {
                let _ = q;
                p.u2(0);
            }
            p.u2(0xffff);
            if r.one_in(2) {
                p.u2(cl).u2(cl).u2(cl);
            }
            return p.bytes();
        }
        _ => {}
    }
    let _ = (d, h);
    let mut b: Vec<u8> = vec![];
    // A body in which every pair of bytes is a big count or a plausible reference.
    for _ in 0..1 + r.below(40) {
        let x = match r.below(5) {
            0 | 1 => big(r),
            2 => 1 + r.below(p.count) as u16,
            3 => 0xff5b, // 255, '['
            _ => r.below(4) as u16,
        };
        if r.one_in(6) {
            b.push(*r.pick(&[b'[', b'@', 0, 255, 0x40, b'I']));
        }
        b.extend(x.to_be_bytes());
    }
    if matches!(kind, "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations" | "AnnotationDefault") && r.one_in(2) {
        // Every level claims as many as it can.
        b.clear();
        if kind != "AnnotationDefault" {
            b.extend(0xffffu16.to_be_bytes());
            b.extend(d.to_be_bytes());
            b.extend(0xffffu16.to_be_bytes());
            b.extend(n.to_be_bytes());
        }
        for _ in 0..1 + r.below(63) {
            b.extend([b'[', 0xff, 0xff]);
        }
    }
    if matches!(kind, "Record" | "Code") && r.one_in(2) {
        b.clear();
        for _ in 0..1 + r.below(15) {
            if kind == "Record" {
                b.extend([0xff, 0xff]);
                b.extend(n.to_be_bytes());
                b.extend(d.to_be_bytes());
            } else {
                b.extend([0, 0, 0, 0, 0, 0, 0, 1, 0xb1, 0, 0]);
            }
            b.extend([0xff, 0xff]);
            b.extend(name.to_be_bytes());
            b.extend([0, 0, 0x40, 0]);
        }
        b.resize(70000, 0);
    }
    p.head().u2(0);
    match r.below(2) {
        0 => p.u2(0),
        _ => p.u2(big(r)).u2(1).u2(n).u2(md),
    };
    p.u2(big(r));
    p.attr(name, &b);
    p.bytes()
}

fn descriptors(k: u64, r: &mut Rng) -> Vec<u8> {
    let n = if k < 12 { 65535 } else { *r.pick(&[254usize, 255, 256, 257, 1000, 32768, 65534, 65535]) };
    let rep = |x: &str, n: usize| x.repeat(n / x.len());
    let text = match if k < 12 { k as usize } else { r.below(12) } {
        0 => rep("[", n),
        1 => format!("{}I", rep("[", n - 1)),
        2 => rep("(", n),
        3 => format!("({})V", rep("I", n - 3)),
        4 => format!("({})V", rep("[", n - 3)),
        5 => format!("({})V", rep("[I", n - 3)),
        6 => format!("({})V", rep("La;", n - 3)),
        7 => rep("L", n),
        8 => format!("L{};", rep("a", n - 2)),
        9 => format!("L{};", rep("a/", n - 2)),
        10 => format!("(L{};)V", rep("é", n - 5)),
        _ => rep("()", n),
    };
    let mut p = Raw::new(65);
    let (t, x) = (p.utf8(text.as_bytes()), p.utf8(b"x"));
    p.e2(12, x, t);
    if r.one_in(3) {
        p.e1(7, t);
    }
    if r.one_in(3) {
        p.e1(16, t);
    }
    p.head();
    match r.below(3) {
        0 => p.u2(1).u2(1).u2(x).u2(t).u2(0).u2(0).u2(0),
        1 => p.u2(0).u2(1).u2(1).u2(x).u2(t).u2(0).u2(0),
        _ => p.u2(0).u2(0).u2(0),
    };
    p.bytes()
}

fn bad_text(r: &mut Rng) -> Vec<u8> {
    let mut p = Raw::new(65);
    let mut last = 0;
    for _ in 0..1 + r.below(4) {
        let mut x = raw_text(r);
        if r.one_in(2) {
            x = crate::mutate::text_body(r, &x);
        }
        last = p.utf8(&x);
        match r.below(4) {
            0 => p.e1(8, last),
            1 => p.e1(7, last),
            2 => p.e2(12, last, last),
            _ => 0,
        };
    }
    p.head();
    match r.below(4) {
        0 => p.u2(1).u2(1).u2(last).u2(last).u2(0).u2(0).u2(0),
        1 => p.u2(0).u2(0).u2(1).attr(last, b"x"),
        _ => p.u2(0).u2(0).u2(0),
    };
    p.bytes()
}

/// A pool holding something of every kind, so that small numbers are plausible references.
pub fn rich(r: &mut Rng, c: &Cfg) -> Gen {
    let mut g = Gen::new(r, c.clone());
    for x in ["A", "n", "I", "()V", "La/B;", "[J", "v"] {
        g.a.utf8(x);
    }
    g.a.class("A");
    g.a.class("[I");
    g.a.add(C::Int(7));
    g.a.add(C::Float(0x40490fdb));
    g.a.add(C::Long(u64::MAX - 3));
    g.a.add(C::Double(0x4009_21fb_5444_2d18));
    g.a.string("text");
    g.a.nt("n", "()V");
    g.a.nt("f", "I");
    g.field_ref();
    g.method_ref(false);
    g.method_ref(true);
    g.init_ref();
    if c.major >= 51 {
        g.handle();
        g.mtype();
    }
    if g.can_dynamic() {
        g.dynamic();
        g.wide_dynamic();
    }
    if g.can_indy() {
        g.indy();
    }
    if c.shape == Shape::Module {
        g.module_id();
        g.package_id();
    }
    g
}

fn noise(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut b = vec![];
    while b.len() < n {
        match r.below(8) {
            0..=4 => b.extend([0, r.below(40) as u8]),
            5 => b.push(r.below(8) as u8),
            6 => b.push(*r.pick(b"BCDFIJSZsec@[")),
            _ => b.push(r.u8()),
        }
    }
    b
}

/// A known attribute name over noise that looks a little like contents.
fn attribute_noise(r: &mut Rng) -> Vec<u8> {
    let mut c = Cfg { interfaces: 0, fields: 0, methods: 0, attrs: 0, bootstraps: 0, extra: 0, pad: 0, ..Cfg::any(r) };
    if r.one_in(2) {
        c.major = 65;
    }
    let mut g = rich(r, &c);
    g.class();
    // Put the attribute where the count of class attributes is.
    let n = g.a.body.len();
    g.a.set_u2(n - 2, 1);
    let kind = *r.pick(&ALL_ATTRS);
    let at = g.a.open_attr(kind);
    if r.one_in(2) {
        g.contents(kind);
        let len = g.a.body.len() - at;
        for _ in 0..1 + r.small(4) {
            if len > 0 {
                let p = at + r.below(len);
                g.a.body[p] = if r.one_in(2) { r.below(40) as u8 } else { r.u8() };
            }
        }
        // References are filled in over the damage, which keeps most of the rest alive.
    } else {
        let k = r.below(40);
        let b = noise(r, k);
        g.a.raw(&b);
    }
    if r.pct(90) {
        g.a.close_attr(at);
    }
    g.done()
}

fn code_noise(r: &mut Rng) -> Vec<u8> {
    let mut c = Cfg { interfaces: 0, fields: 0, methods: 0, attrs: 0, bootstraps: 0, extra: 0, pad: 0, shape: Shape::Class, ..Cfg::any(r) };
    c.major = *r.pick(&[48, 52, 65]);
    let mut g = rich(r, &c);
    let (n, d) = (g.a.utf8("n"), g.a.utf8("()V"));
    g.class();
    let b = g.a.body.len();
    // Methods count, then class attributes count, end the body.
    g.a.body.truncate(b - 4);
    g.a.u2(1).u2(1).r(n).r(d).u2(1);
    let at = g.a.open_attr("Code");
    g.a.u2(1).u2(1).u4(0);
    let start = g.a.body.len();
    if r.one_in(2) {
        let k = 1 + r.below(12);
        g.c.branchy = 30;
        g.instructions(start, k, 1000);
    }
    let k = r.below(24);
    let tail = if r.one_in(2) { noise(r, k) } else { (0..k).map(|_| r.u8()).collect() };
    g.a.raw(&tail);
    let len = g.a.body.len() - start;
    g.a.set_u4(start - 4, len as u32);
    g.a.u2(0).u2(0);
    g.a.close_attr(at);
    g.a.u2(0);
    g.done()
}

fn tiny(k: u64, r: &mut Rng) -> Vec<u8> {
    let full = [0xca, 0xfe, 0xba, 0xbe, 0, 0, 0, 65, 0, 1, 0, 0x21, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    if k < 257 {
        return if k == 0 { vec![] } else { vec![(k - 1) as u8] };
    }
    let k = (k - 257) as usize;
    if k <= full.len() {
        return full[..k].to_vec();
    }
    let mut b = if r.one_in(3) { vec![] } else { full[..r.below(full.len() + 1)].to_vec() };
    for _ in 0..r.below(12) {
        let x = if r.one_in(2) { r.below(21) as u8 } else { r.u8() };
        b.push(x);
    }
    b
}

/// Random tags over small indices.
fn pool_noise(r: &mut Rng) -> Vec<u8> {
    let mut p = Raw::new(*r.pick(&[48, 52, 53, 65]));
    let n = 1 + r.below(14) as u16;
    while p.count <= n as usize {
        let (a, b) = (r.below(n as usize + 2) as u16, r.below(n as usize + 2) as u16);
        match r.below(10) {
            0 | 1 => {
                let t = *r.pick(&["A", "()V", "I", "<init>", "m", "[I", ""]);
                p.utf8(t.as_bytes());
            }
            2 => {
                p.entry(&[3 + r.below(2) as u8, 0, 0, 0, 1]);
            }
            3 => {
                p.entry(&[5 + r.below(2) as u8, 0, 0, 0, 1, 0, 0, 0, 1]);
            }
            4 => {
                let t = r.below(22) as u8;
                p.entry(&[t, 0, 1, 0, 1]);
            }
            _ => {
                let t = tag(r);
                referrer(&mut p, t, a, b, r);
            }
        }
    }
    if r.one_in(6) {
        p.count = r.below(20);
    }
    p.empty();
    p.bytes()
}

/// Many of one thing, all valid or all the same.
fn many(k: u64, r: &mut Rng) -> Vec<u8> {
    let kinds = crate::tables::KINDS;
    let (kind, most) = kinds[(k as usize) % kinds.len()];
    let most = if r.one_in(2) { most } else { most.min(300) };
    let mut b = crate::tables::big(r, kind, most);
    match r.below(4) {
        0 => {
            let cut = r.below(b.len());
            b.truncate(cut);
        }
        1 => {
            let p = r.below(b.len());
            b[p] ^= 1 << r.below(8);
        }
        _ => {}
    }
    b
}
