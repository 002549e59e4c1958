//! Random well-formed class files.
use crate::assemble::*;
use crate::opcodes::{self, F};
use crate::rng::Rng;
use crate::text;
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    Class,
    Interface,
    Module,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Place {
    Class,
    Field,
    Method,
    Code,
    Record,
}

/// What a generated class is made of.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub major: u16,
    pub shape: Shape,
    pub interfaces: usize,
    pub fields: usize,
    pub methods: usize,
    /// Most attributes per element.
    pub attrs: usize,
    /// Restricts the attributes generated, when not empty.
    pub only: Vec<&'static str>,
    /// Percent of names with unusual characters.
    pub exotic: usize,
    /// Percent of methods with code, and instructions in it.
    pub code: usize,
    pub insns: usize,
    /// Percent of branches among instructions, on top of chance.
    pub branchy: usize,
    /// Percent of constant loads among instructions, on top of chance.
    pub loady: usize,
    pub anno_depth: usize,
    pub bootstraps: usize,
    /// Unused and duplicate constants added.
    pub extra: usize,
    /// Percent of attributes put where they do not belong.
    pub misplaced: usize,
    pub nest: usize,
    /// Filler constants, so that references take high indexes.
    pub pad: usize,
}

impl Cfg {
    pub fn any(r: &mut Rng) -> Cfg {
        let major = match r.below(10) {
            0 => 45 + r.below(6) as u16,
            1 => 51 + r.below(4) as u16,
            _ => 45 + r.below(21) as u16,
        };
        let shape = match r.below(10) {
            0 if major >= 53 => Shape::Module,
            1 | 2 => Shape::Interface,
            _ => Shape::Class,
        };
        Cfg {
            major,
            shape,
            interfaces: r.small(4),
            fields: r.small(6),
            methods: r.small(6),
            attrs: 3,
            only: vec![],
            exotic: *r.pick(&[0, 5, 20, 60]),
            code: 70,
            insns: *r.pick(&[1, 4, 15, 60]),
            branchy: 10,
            loady: 5,
            anno_depth: 3,
            bootstraps: if major >= 51 { *r.pick(&[0, 0, 1, 2, 5]) } else { 0 },
            extra: *r.pick(&[0, 0, 3, 12]),
            misplaced: *r.pick(&[0, 0, 10, 40]),
            nest: 2,
            pad: 0,
        }
    }
}

pub const ANNOTATIONS: [&str; 7] = [
    "RuntimeVisibleAnnotations",
    "RuntimeInvisibleAnnotations",
    "RuntimeVisibleParameterAnnotations",
    "RuntimeInvisibleParameterAnnotations",
    "RuntimeVisibleTypeAnnotations",
    "RuntimeInvisibleTypeAnnotations",
    "AnnotationDefault",
];

pub const ALL_ATTRS: [&str; 31] = [
    "ConstantValue",
    "Code",
    "StackMapTable",
    "Exceptions",
    "InnerClasses",
    "EnclosingMethod",
    "Synthetic",
    "Signature",
    "SourceFile",
    "SourceDebugExtension",
    "LineNumberTable",
    "LocalVariableTable",
    "LocalVariableTypeTable",
    "Deprecated",
    "RuntimeVisibleAnnotations",
    "RuntimeInvisibleAnnotations",
    "RuntimeVisibleParameterAnnotations",
    "RuntimeInvisibleParameterAnnotations",
    "RuntimeVisibleTypeAnnotations",
    "RuntimeInvisibleTypeAnnotations",
    "AnnotationDefault",
    "BootstrapMethods",
    "MethodParameters",
    "Module",
    "ModulePackages",
    "ModuleMainClass",
    "NestHost",
    "NestMembers",
    "PermittedSubclasses",
    "Record",
    "(unknown)",
];

fn usual(p: Place) -> &'static [&'static str] {
    match p {
        Place::Class => &[
            "SourceFile",
            "InnerClasses",
            "EnclosingMethod",
            "SourceDebugExtension",
            "Module",
            "ModulePackages",
            "ModuleMainClass",
            "NestHost",
            "NestMembers",
            "PermittedSubclasses",
            "Record",
            "Record",
            "Synthetic",
            "Deprecated",
            "Signature",
            "RuntimeVisibleAnnotations",
            "RuntimeInvisibleAnnotations",
            "RuntimeVisibleTypeAnnotations",
            "RuntimeInvisibleTypeAnnotations",
            "(unknown)",
        ],
        Place::Field => &[
            "ConstantValue",
            "ConstantValue",
            "Synthetic",
            "Deprecated",
            "Signature",
            "RuntimeVisibleAnnotations",
            "RuntimeInvisibleAnnotations",
            "RuntimeVisibleTypeAnnotations",
            "RuntimeInvisibleTypeAnnotations",
            "(unknown)",
        ],
        Place::Method => &[
            "Exceptions",
            "RuntimeVisibleParameterAnnotations",
            "RuntimeInvisibleParameterAnnotations",
            "AnnotationDefault",
            "MethodParameters",
            "Synthetic",
            "Deprecated",
            "Signature",
            "RuntimeVisibleAnnotations",
            "RuntimeInvisibleAnnotations",
            "RuntimeVisibleTypeAnnotations",
            "RuntimeInvisibleTypeAnnotations",
            "(unknown)",
        ],
        Place::Code => &[
            "LineNumberTable",
            "LocalVariableTable",
            "LocalVariableTypeTable",
            "StackMapTable",
            "StackMapTable",
            "RuntimeVisibleTypeAnnotations",
            "RuntimeInvisibleTypeAnnotations",
            "(unknown)",
        ],
        Place::Record => &[
            "Signature",
            "RuntimeVisibleAnnotations",
            "RuntimeInvisibleAnnotations",
            "RuntimeVisibleTypeAnnotations",
            "RuntimeInvisibleTypeAnnotations",
            "(unknown)",
        ],
    }
}

pub const EXOTIC: [&str; 28] = [
    "\0", "\u{1}", " ", "\u{7f}", "\u{80}", "é", "\u{7ff}", "\u{800}", "漢", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "😀", "\u{10ffff}", "<", ">", "(", ")", ":", "@", "\\", "-", "$",
    "\u{feff}", "V", "L", "\u{2028}",
];

const SPECIAL_NAMES: [&str; 22] = [
    "<init>", "<clinit>", "this", "super", "length", "class", "main", "values", "valueOf", "finalize", "this$0", "val$x", "$VALUES", "$assertionsDisabled", "serialVersionUID", "lambda$main$0", "access$000",
    "package-info", "module-info", "0", "V", "default",
];
const SPECIAL_CLASSES: [&str; 14] = [
    "java/lang/Object", "java/lang/String", "A", "a/B", "java/lang/Enum", "java/lang/Record", "java/lang/Throwable", "java/lang/Class", "package-info", "a/package-info", "module-info", "a/B$1", "a/B$C",
    "java/lang/invoke/MethodHandle",
];
const SPECIAL_TEXTS: [&str; 14] = [
    "", "A.java", "Ljava/lang/Object;", "()V", "I", "V", "Ljava/util/List<Ljava/lang/String;>;", "<T:Ljava/lang/Object;>(TT;)V", "TT;", "1.0", "\0", "java.base", "Code", "<init>",
];

pub struct Gen {
    pub a: Asm,
    pub r: Rng,
    pub c: Cfg,
    depth: usize,
    recent: [u16; 4],
    names: Vec<String>,
}

pub fn class(r: &mut Rng, c: Cfg) -> Vec<u8> {
    let mut g = Gen::new(r, c);
    g.class();
    g.done()
}

pub fn int_bits(r: &mut Rng) -> u32 {
    r.u32()
}
pub fn float_bits(r: &mut Rng) -> u32 {
    match r.below(3) {
        0 => *r.pick(&[0, 0x80000000, 1, 0x80000001, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001, 0xff800001, 0x7fffffff, 0xffffffff, 0x007fffff, 0x00800000, 0x7f7fffff, 0x7fa00000]),
        _ => r.u64() as u32,
    }
}
pub fn long_bits(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => *r.pick(&[0, 1, u64::MAX, 1 << 63, (1 << 63) - 1, 0xffffffff, 0x80000000, 0x100000000, 0x00000000ffffffff, 0xffffffff00000000]),
        1 => (r.u32() as u64) << 32 | r.u32() as u64,
        _ => r.u64(),
    }
}
pub fn double_bits(r: &mut Rng) -> u64 {
    match r.below(3) {
        0 => *r.pick(&[
            0,
            1 << 63,
            1,
            0x7ff0000000000000,
            0xfff0000000000000,
            0x7ff8000000000000,
            0xfff8000000000000,
            0x7ff0000000000001,
            0xfff0000000000001,
            0x7ff4000000000000,
            0x7fffffffffffffff,
            u64::MAX,
            0x000fffffffffffff,
            0x0010000000000000,
            0x7fefffffffffffff,
        ]),
        _ => r.u64(),
    }
}

pub fn any_text(r: &mut Rng, exotic: usize, max: usize) -> String {
    let mut o = String::new();
    for _ in 0..r.below(max + 1) {
        if r.pct(exotic) {
            o.push_str(r.pick(&EXOTIC[..]));
        } else {
            o.push(*r.pick(&['a', 'b', 'x', 'Z', '0', '9', '_', '/', '.', ';', '[']));
        }
    }
    o
}

/// Legal modified UTF-8 that is not text: an unpaired surrogate somewhere.
pub fn raw_text(r: &mut Rng) -> Vec<u8> {
    let mut o = text::encode(&any_text(r, 40, 6));
    let unit = match r.below(4) {
        0 => 0xd800,
        1 => 0xdfff,
        _ => 0xd800 + r.below(0x800) as u16,
    };
    text::encode_unit(unit, &mut o);
    o.push(b'!');
    o.extend(text::encode(&any_text(r, 40, 6)));
    o
}

pub fn name(r: &mut Rng, exotic: usize, method: bool) -> String {
    let mut o = String::new();
    let ex = r.pct(exotic);
    let len = if r.one_in(60) { 40 + r.below(200) } else { 1 + r.small(7) };
    while o.len() < len {
        if ex && r.one_in(2) {
            let x = *r.pick(&EXOTIC[..]);
            if method && (x == "<" || x == ">") {
                continue;
            }
            o.push_str(x);
        } else {
            o.push(*r.pick(&['a', 'b', 'c', 'i', 'n', 't', 'x', 'V', 'L', 'I', '$', '_', '1', '9']));
        }
    }
    o
}

pub fn binary_name(r: &mut Rng, exotic: usize) -> String {
    let n = 1 + r.small(4);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        v.push(name(r, exotic, false));
    }
    v.join("/")
}

pub fn field_desc(r: &mut Rng, exotic: usize) -> String {
    let dims = match r.below(20) {
        0..=3 => 1 + r.below(3),
        4 if r.one_in(4) => *r.pick(&[254, 255, 128, 16]),
        _ => 0,
    };
    let mut o = "[".repeat(dims);
    match r.below(12) {
        0..=7 => o.push(*r.pick(&['B', 'C', 'D', 'F', 'I', 'J', 'S', 'Z'])),
        _ => {
            o.push('L');
            o.push_str(&binary_name(r, exotic));
            o.push(';');
        }
    }
    o
}

pub fn method_desc(r: &mut Rng, exotic: usize) -> String {
    let n = if r.one_in(80) { 30 + r.below(200) } else { r.small(5) };
    let mut o = String::from("(");
    for _ in 0..n {
        o.push_str(&field_desc(r, exotic));
    }
    o.push(')');
    if r.one_in(3) {
        o.push('V');
    } else {
        o.push_str(&field_desc(r, exotic));
    }
    o
}

pub fn module_name(r: &mut Rng, exotic: usize) -> String {
    let mut o = String::new();
    for _ in 0..1 + r.small(6) {
        if r.pct(exotic) {
            o.push_str(r.pick(&["\\:", "\\@", "\\\\", "é", "漢", "😀", " ", "/", ";", "[", "\u{7f}"]));
        } else {
            o.push_str(r.pick(&["a", "b.c", "java", ".", "x1"]));
        }
    }
    o
}

impl Gen {
    pub fn new(r: &mut Rng, c: Cfg) -> Gen {
        let mut a = Asm::new(c.major);
        a.minor = if r.one_in(3) { r.u16() } else { 0 };
        Gen { a, r: Rng::new(r.u64()), c, depth: 0, recent: [0; 4], names: vec![] }
    }
    pub fn done(mut self) -> Vec<u8> {
        self.a.pad = self.c.pad.min(65535 - self.a.slots());
        let mut r = self.r.clone();
        self.a.finish(&mut r)
    }
    pub fn name(&mut self, method: bool) -> String {
        if self.r.one_in(12) && !self.names.is_empty() {
            let n = self.r.pick(&self.names).clone();
            if !method || !n.contains(['<', '>']) {
                return n;
            }
        }
        if self.r.one_in(24) {
            let n = self.r.pick(&SPECIAL_NAMES).to_string();
            if !method || !n.contains(['<', '>']) {
                return n;
            }
        }
        let n = name(&mut self.r, self.c.exotic, method);
        if self.names.len() < 8 {
            self.names.push(n.clone());
        } else if self.r.one_in(4) {
            let k = self.r.below(8);
            self.names[k] = n.clone();
        }
        n
    }
    pub fn class_text(&mut self) -> String {
        if self.r.one_in(4) {
            return self.r.pick(&SPECIAL_CLASSES).to_string();
        }
        binary_name(&mut self.r, self.c.exotic)
    }
    /// A class, or now and then an array class.
    pub fn class_or_array(&mut self) -> Id {
        let n = if self.r.one_in(6) { self.array_text() } else { self.class_text() };
        self.a.class(&n)
    }
    pub fn plain_class(&mut self) -> Id {
        let n = self.class_text();
        self.a.class(&n)
    }
    pub fn array_text(&mut self) -> String {
        let d = field_desc(&mut self.r, self.c.exotic);
        if d.starts_with('[') {
            d
        } else {
            format!("[{d}")
        }
    }
    pub fn fdesc(&mut self) -> String {
        field_desc(&mut self.r, self.c.exotic)
    }
    pub fn mdesc(&mut self) -> String {
        method_desc(&mut self.r, self.c.exotic)
    }
    pub fn int(&mut self) -> Id {
        let v = int_bits(&mut self.r);
        self.a.add(C::Int(v))
    }
    pub fn float(&mut self) -> Id {
        let v = float_bits(&mut self.r);
        self.a.add(C::Float(v))
    }
    pub fn long(&mut self) -> Id {
        let v = long_bits(&mut self.r);
        self.a.add(C::Long(v))
    }
    pub fn double(&mut self) -> Id {
        let v = double_bits(&mut self.r);
        self.a.add(C::Double(v))
    }
    pub fn string(&mut self) -> Id {
        if self.r.one_in(8) {
            let b = raw_text(&mut self.r);
            let n = self.a.bytes(&b);
            return self.a.add(C::Str(n));
        }
        let ex = self.c.exotic;
        let x = any_text(&mut self.r, ex, 8);
        self.a.string(&x)
    }
    pub fn literal(&mut self) -> Id {
        match self.r.below(5) {
            0 => self.int(),
            1 => self.float(),
            2 => self.long(),
            3 => self.double(),
            _ => self.string(),
        }
    }
    pub fn field_ref(&mut self) -> Id {
        let (c, n, d) = (self.class_or_array(), self.name(false), self.fdesc());
        let n = self.a.nt(&n, &d);
        self.a.add(C::Field(c, n))
    }
    pub fn method_ref(&mut self, iface: bool) -> Id {
        let (c, n, d) = (self.class_or_array(), self.name(true), self.mdesc());
        let n = self.a.nt(&n, &d);
        self.a.add(if iface { C::IMethod(c, n) } else { C::Method(c, n) })
    }
    pub fn init_ref(&mut self) -> Id {
        let c = self.plain_class();
        let mut d = self.mdesc();
        d.truncate(d.rfind(')').unwrap() + 1);
        d.push('V');
        // A parameter's class name may itself hold a ')'.
        if text::method_desc(&d).is_none() {
            d = "()V".into();
        }
        let n = self.a.nt("<init>", &d);
        self.a.add(C::Method(c, n))
    }
    pub fn handle(&mut self) -> Id {
        let k = 1 + self.r.below(9) as u8;
        let m = match k {
            1..=4 => self.field_ref(),
            5 => self.method_ref(false),
            6 | 7 => {
                let i = self.c.major >= 52 && self.r.one_in(2);
                self.method_ref(i)
            }
            8 => self.init_ref(),
            _ => self.method_ref(true),
        };
        self.a.add(C::Handle(k, m))
    }
    pub fn mtype(&mut self) -> Id {
        let d = self.mdesc();
        self.a.mtype(&d)
    }
    pub fn dynamic(&mut self) -> Id {
        let (n, d, b) = (self.name(false), self.fdesc(), self.r.below(self.c.bootstraps) as u16);
        let n = self.a.nt(&n, &d);
        self.a.add(C::Dyn(b, n))
    }
    pub fn wide_dynamic(&mut self) -> Id {
        let (n, d, b) = (self.name(false), *self.r.pick(&["J", "D"]), self.r.below(self.c.bootstraps) as u16);
        let n = self.a.nt(&n, d);
        self.a.add(C::Dyn(b, n))
    }
    pub fn narrow_dynamic(&mut self) -> Id {
        let n = self.name(false);
        let mut d = self.fdesc();
        if d == "J" || d == "D" {
            d = "I".into();
        }
        let b = self.r.below(self.c.bootstraps) as u16;
        let n = self.a.nt(&n, &d);
        self.a.add(C::Dyn(b, n))
    }
    pub fn indy(&mut self) -> Id {
        let (n, d, b) = (self.name(true), self.mdesc(), self.r.below(self.c.bootstraps) as u16);
        let n = self.a.nt(&n, &d);
        self.a.add(C::Indy(b, n))
    }
    pub fn can_dynamic(&self) -> bool {
        self.c.bootstraps > 0 && self.c.major >= 55
    }
    pub fn can_indy(&self) -> bool {
        self.c.bootstraps > 0 && self.c.major >= 51
    }
    /// A constant for ldc (one slot) or ldc2_w (two).
    pub fn loadable(&mut self, wide: bool) -> Id {
        if wide {
            return match self.r.below(3) {
                0 => self.long(),
                1 => self.double(),
                _ if self.can_dynamic() => self.wide_dynamic(),
                _ => self.long(),
            };
        }
        match self.r.below(7) {
            0 => self.int(),
            1 => self.float(),
            2 => self.class_or_array(),
            3 if self.c.major >= 51 => self.handle(),
            4 if self.c.major >= 51 => self.mtype(),
            5 if self.can_dynamic() => self.narrow_dynamic(),
            _ => self.string(),
        }
    }
    pub fn any_loadable(&mut self) -> Id {
        if self.r.one_in(4) {
            return self.loadable(true);
        }
        self.loadable(false)
    }
    pub fn text_id(&mut self) -> Id {
        if self.r.one_in(8) {
            let x = *self.r.pick(&SPECIAL_TEXTS);
            return self.a.utf8(x);
        }
        let ex = self.c.exotic.max(10);
        let x = any_text(&mut self.r, ex, 8);
        self.a.utf8(&x)
    }
    /// A constant of any kind, for no one to use.
    pub fn any_constant(&mut self) -> Id {
        loop {
            return match self.r.below(16) {
                0 => self.text_id(),
                1..=3 => self.literal(),
                4 => self.class_or_array(),
                5 => self.field_ref(),
                6 => self.method_ref(false),
                7 => self.method_ref(true),
                8 => self.init_ref(),
                9 => {
                    let (n, d) = (self.name(false), self.text_id());
                    let n = self.a.utf8(&n);
                    self.a.add(C::NT(n, d))
                }
                10 if self.c.major >= 51 => self.handle(),
                11 if self.c.major >= 51 => self.mtype(),
                12 if self.can_dynamic() => self.dynamic(),
                13 if self.can_indy() => self.indy(),
                14 if self.c.shape == Shape::Module => {
                    let n = module_name(&mut self.r, self.c.exotic);
                    self.a.module(&n)
                }
                15 if self.c.shape == Shape::Module => {
                    let n = self.class_text();
                    self.a.package(&n)
                }
                _ => continue,
            };
        }
    }

    pub fn access(&mut self) -> u16 {
        let all = match self.c.shape {
            Shape::Module => return 0x8000,
            Shape::Interface => 0x0200,
            Shape::Class => 0,
        };
        let noise = if self.r.one_in(4) { self.r.u16() } else { *self.r.pick(&[0x21, 0x31, 0x20, 0x421, 1, 0x1000, 0x4031]) };
        (noise & !0x8200) | all
    }

    pub fn class(&mut self) {
        let acc = self.access();
        let module = self.c.shape == Shape::Module;
        self.a.u2(acc);
        let this = if module { self.a.class("module-info") } else { self.plain_class() };
        self.a.r(this);
        if module {
            self.a.u2(0);
            self.c.interfaces = 0;
            self.c.fields = 0;
            self.c.methods = 0;
        } else {
            let sup = if self.r.one_in(10) { None } else { Some(self.plain_class()) };
            self.a.r_opt(sup);
        }
        self.a.u2(self.c.interfaces as u16);
        self.times(self.c.interfaces, |g| {
            let c = g.plain_class();
            g.a.r(c);
        });
        self.fields();
        self.methods();
        self.class_attributes();
    }

    pub fn fields(&mut self) {
        let mut seen: Vec<(String, String)> = vec![];
        let mut set = HashSet::new();
        self.a.u2(self.c.fields as u16);
        while seen.len() < self.c.fields {
            let (mut n, mut d) = (self.name(false), self.fdesc());
            if let Some(o) = (!seen.is_empty()).then(|| seen[self.r.below(seen.len())].clone()) {
                match self.r.below(4) {
                    0 => n = o.0,
                    1 => d = o.1,
                    _ => {}
                }
            }
            if !set.insert((n.clone(), d.clone())) {
                continue;
            }
            let acc = self.r.u16();
            let (ni, di) = (self.a.utf8(&n), self.a.utf8(&d));
            self.a.u2(acc).r(ni).r(di);
            seen.push((n, d));
            self.attributes(Place::Field);
        }
    }

    pub fn methods(&mut self) {
        let iface = self.c.shape == Shape::Interface;
        let mut seen: Vec<(String, String)> = vec![];
        let mut set = HashSet::new();
        self.a.u2(self.c.methods as u16);
        while seen.len() < self.c.methods {
            let (mut n, mut d) = (self.name(true), self.mdesc());
            if let Some(o) = (!seen.is_empty()).then(|| seen[self.r.below(seen.len())].clone()) {
                match self.r.below(4) {
                    0 if !o.0.starts_with('<') => n = o.0,
                    1 => d = o.1,
                    _ => {}
                }
            }
            match self.r.below(12) {
                0 if !iface => {
                    n = "<init>".into();
                    let b = self.fdesc();
                    d = if self.r.one_in(2) { "()V".into() } else { format!("({b})V") };
                }
                1 => {
                    n = "<clinit>".into();
                    d = if self.c.major < 51 && self.r.one_in(2) { "(I)V".into() } else { "()V".into() };
                }
                _ => {}
            }
            if !set.insert((n.clone(), d.clone())) {
                continue;
            }
            let acc = self.r.u16();
            let (ni, di) = (self.a.utf8(&n), self.a.utf8(&d));
            self.a.u2(acc).r(ni).r(di);
            seen.push((n, d));
            self.attributes(Place::Method);
        }
    }

    fn choose(&mut self, p: Place) -> Option<&'static str> {
        if !self.c.only.is_empty() {
            let l: Vec<&'static str> = self.c.only.iter().copied().filter(|n| *n != "Code" || p == Place::Method).collect();
            return if l.is_empty() { None } else { Some(*self.r.pick(&l)) };
        }
        let n = if self.r.pct(self.c.misplaced) { *self.r.pick(&ALL_ATTRS) } else { *self.r.pick(usual(p)) };
        let module = self.c.shape == Shape::Module;
        let needs_module = matches!(n, "Module" | "ModulePackages");
        if needs_module != module && needs_module {
            return None;
        }
        // The class's own table is written last.
        if n == "BootstrapMethods" && (p == Place::Class || self.c.major < 51) {
            return None;
        }
        Some(n)
    }

    pub fn attributes(&mut self, p: Place) {
        let pos = self.a.body.len();
        self.a.u2(0);
        let n = self.some_attributes(p);
        self.a.set_u2(pos, n);
    }

    fn some_attributes(&mut self, p: Place) -> u16 {
        let mut n = 0;
        self.depth += 1;
        let most = if self.depth > self.c.nest { self.c.attrs.min(1) } else { self.c.attrs };
        let code = p == Place::Method && (self.c.only.is_empty() || self.c.only.contains(&"Code")) && self.r.pct(self.c.code);
        let before = if code { self.r.small(most) } else { 0 };
        let total = before + self.r.small(most);
        for k in 0..=total {
            if k == before && code {
                self.attribute("Code");
                n += 1;
            }
            if k == total {
                break;
            }
            if let Some(name) = self.choose(p) {
                if self.depth > self.c.nest && matches!(name, "Code" | "Record") {
                    continue;
                }
                self.attribute(name);
                n += 1;
            }
        }
        self.depth -= 1;
        n
    }

    pub fn class_attributes(&mut self) {
        let pos = self.a.body.len();
        self.a.u2(0);
        let mut n = 0;
        if self.c.shape == Shape::Module && self.r.pct(90) && self.c.only.is_empty() {
            self.attribute("Module");
            n += 1;
        }
        n += self.some_attributes(Place::Class);
        let mut late = 0;
        for _ in 0..self.c.extra {
            let id = self.any_constant();
            if self.r.one_in(3) {
                let c = self.a.pool[id].clone();
                self.a.duplicate(c);
            }
        }
        if self.c.bootstraps > 0 {
            self.attribute("BootstrapMethods");
            late += 1;
            if self.r.one_in(4) {
                self.attribute("(unknown)");
                late += 1;
            }
        }
        self.a.set_u2(pos, n + late);
    }

    fn list(&mut self, max: usize, f: impl FnMut(&mut Self)) {
        let n = if self.r.one_in(150) { 256 + self.r.below(80) } else { self.r.small(max) };
        self.a.u2(n as u16);
        self.times(n, f);
    }
    /// The elements of a table, of which some are the one before or an earlier one again.
    fn times(&mut self, n: usize, mut f: impl FnMut(&mut Self)) {
        let mut at = vec![self.a.here()];
        for k in 0..n {
            if k > 0 && self.r.one_in(10) {
                let j = if self.r.one_in(2) { k - 1 } else { self.r.below(k) };
                self.a.again(at[j], at[j + 1]);
            } else {
                f(self);
            }
            at.push(self.a.here());
        }
    }
    /// Numbers: any, or one of the last few again.
    fn n2(&mut self) {
        let k = self.r.below(4);
        let x = if self.r.one_in(8) { self.recent[k] } else { self.r.u16() };
        let k = self.r.below(4);
        self.recent[k] = x;
        self.a.u2(x);
    }
    fn n1(&mut self) {
        let k = self.r.below(4);
        let x = if self.r.one_in(8) { self.recent[k] as u8 } else { self.r.u8() };
        let k = self.r.below(4);
        self.recent[k] = x.into();
        self.a.u1(x);
    }
    fn class_list(&mut self) {
        self.list(4, |g| {
            let c = g.class_or_array();
            g.a.r(c);
        })
    }
    fn opt(&mut self, f: impl FnOnce(&mut Self) -> Id) -> Option<Id> {
        if self.r.one_in(3) {
            None
        } else {
            Some(f(self))
        }
    }
    pub fn module_id(&mut self) -> Id {
        let n = module_name(&mut self.r, self.c.exotic);
        self.a.module(&n)
    }
    pub fn package_id(&mut self) -> Id {
        let n = self.class_text();
        self.a.package(&n)
    }

    pub fn attribute(&mut self, kind: &str) {
        let name = if kind == "(unknown)" {
            let x = match self.r.below(6) {
                0 => self.r.pick(&["code", "Code ", "StackMap", "Synthetics", "RuntimeVisibleAnnotation", "SourceFil", "Exception", "org.foo.Bar", "Deprecate", "ModuleTarget", "ModuleHashes", "ModuleResolution", ""]).to_string(),
                1 => {
                    let mut n = self.r.pick(&ALL_ATTRS).to_string();
                    n.insert(self.r.below(n.len() + 1), *self.r.pick(&['s', 'X', ' ', '\0', 'é']));
                    n
                }
                _ => any_text(&mut self.r, 30, 12),
            };
            if ALL_ATTRS.contains(&x.as_str()) {
                format!("{x}?")
            } else {
                x
            }
        } else {
            kind.to_string()
        };
        let at = self.a.open_attr(&name);
        self.contents(kind);
        self.a.close_attr(at);
    }

    pub fn contents(&mut self, kind: &str) {
        match kind {
            "ConstantValue" => {
                let l = self.literal();
                self.a.r(l);
            }
            "Code" => self.code(),
            "StackMapTable" => self.list(6, |g| g.frame()),
            "Exceptions" | "NestMembers" | "PermittedSubclasses" => self.class_list(),
            "InnerClasses" => self.list(4, |g| {
                let i = g.class_or_array();
                let o = g.opt(|g| g.class_or_array());
                let n = g.opt(|g| {
                    if g.r.one_in(6) {
                        return g.text_id();
                    }
                    let n = g.name(false);
                    g.a.utf8(&n)
                });
                g.a.r(i).r_opt(o).r_opt(n);
                g.n2();
            }),
            "EnclosingMethod" => {
                let c = self.class_or_array();
                let m = self.opt(|g| {
                    let n = if g.r.one_in(5) { g.r.pick(&["<init>", "<clinit>"]).to_string() } else { g.name(true) };
                    let d = if g.r.one_in(3) { "()V".to_string() } else { g.mdesc() };
                    g.a.nt(&n, &d)
                });
                self.a.r(c).r_opt(m);
            }
            "Synthetic" | "Deprecated" => {}
            "Signature" | "SourceFile" => {
                let t = self.text_id();
                self.a.r(t);
            }
            "SourceDebugExtension" => {
                let t = any_text(&mut self.r, 30, 30);
                self.a.raw(&text::encode(&t));
            }
            "LineNumberTable" => self.list(6, |g| {
                g.n2();
                g.n2();
            }),
            "LocalVariableTable" | "LocalVariableTypeTable" => {
                let types = kind == "LocalVariableTypeTable";
                self.list(5, |g| {
                    g.n2();
                    g.n2();
                    let n = g.name(false);
                    let n = g.a.utf8(&n);
                    let d = if types {
                        g.text_id()
                    } else {
                        let d = g.fdesc();
                        g.a.utf8(&d)
                    };
                    g.a.r(n).r(d);
                    g.n2();
                })
            }
            "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations" => self.annotations(),
            "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations" => {
                let n = if self.r.one_in(60) { 255 } else { self.r.small(4) };
                self.a.u1(n as u8);
                self.times(n, |g| {
                    if n > 10 {
                        g.a.u2(0);
                    } else {
                        g.annotations();
                    }
                });
            }
            "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" => {
                let n = self.r.small(4);
                self.a.u2(n as u16);
                self.times(n, |g| g.type_annotation());
            }
            "AnnotationDefault" => {
                let d = self.c.anno_depth;
                self.element_value(d)
            }
            "BootstrapMethods" => {
                self.a.u2(self.c.bootstraps as u16);
                self.times(self.c.bootstraps, |g| {
                    let h = g.handle();
                    g.a.r(h);
                    let n = if g.c.bootstraps > 50 { 0 } else { g.r.small(5) };
                    g.a.u2(n as u16);
                    g.times(n, |g| {
                        let l = g.any_loadable();
                        g.a.r(l);
                    });
                });
            }
            "MethodParameters" => {
                let n = if self.r.one_in(60) { 255 } else { self.r.small(5) };
                self.a.u1(n as u8);
                self.times(n, |g| {
                    let id = g.opt(|g| {
                        let n = g.name(false);
                        g.a.utf8(&n)
                    });
                    let f = g.r.u16() & 0x9010;
                    g.a.r_opt(id).u2(f);
                });
            }
            "Module" => {
                let n = self.module_id();
                let f = self.r.u16() & 0x9020;
                self.a.r(n).u2(f);
                self.version();
                self.list(3, |g| {
                    let n = g.module_id();
                    let f = g.r.u16() & 0x9060;
                    g.a.r(n).u2(f);
                    g.version();
                });
                for _ in 0..2 {
                    self.list(3, |g| {
                        let n = g.package_id();
                        let f = g.r.u16() & 0x9000;
                        g.a.r(n).u2(f);
                        let k = g.r.small(3);
                        g.a.u2(k as u16);
                        g.times(k, |g| {
                            let n = g.module_id();
                            g.a.r(n);
                        });
                    });
                }
                self.class_list();
                self.list(3, |g| {
                    let n = g.class_or_array();
                    g.a.r(n);
                    g.class_list();
                });
            }
            "ModulePackages" => self.list(4, |g| {
                let n = g.package_id();
                g.a.r(n);
            }),
            "ModuleMainClass" | "NestHost" => {
                let c = self.class_or_array();
                self.a.r(c);
            }
            "Record" => {
                let n = self.r.small(4);
                self.a.u2(n as u16);
                self.times(n, |g| {
                    let (n, d) = (g.name(false), g.fdesc());
                    let (n, d) = (g.a.utf8(&n), g.a.utf8(&d));
                    g.a.r(n).r(d);
                    g.attributes(Place::Record);
                });
            }
            _ => {
                let n = if self.r.one_in(40) { 300 } else { self.r.small(20) };
                for _ in 0..n {
                    self.n1();
                }
            }
        }
    }
    fn version(&mut self) {
        let v = self.opt(|g| g.text_id());
        self.a.r_opt(v);
    }

    pub fn frame(&mut self) {
        let tag = match self.r.below(7) {
            0 => self.r.below(64),
            1 => 64 + self.r.below(64),
            2 => 247,
            3 => 248 + self.r.below(3),
            4 => 251,
            5 => 252 + self.r.below(3),
            _ => 255,
        };
        self.a.u1(tag as u8);
        if tag >= 247 {
            self.n2();
        }
        match tag {
            64..=127 | 247 => self.vtype(),
            252..=254 => self.times(tag - 251, |g| g.vtype()),
            255 => {
                self.list(3, |g| g.vtype());
                self.list(3, |g| g.vtype());
            }
            _ => {}
        }
    }
    pub fn vtype(&mut self) {
        let t = self.r.below(9) as u8;
        self.a.u1(t);
        match t {
            7 => {
                let c = self.class_or_array();
                self.a.r(c);
            }
            8 => self.n2(),
            _ => {}
        }
    }

    fn annotations(&mut self) {
        let n = self.r.small(3);
        self.a.u2(n as u16);
        self.times(n, |g| {
            let d = g.c.anno_depth;
            g.annotation(d);
        });
    }
    pub fn annotation(&mut self, depth: usize) {
        let t = if self.r.one_in(3) { self.fdesc() } else { format!("L{};", self.class_text()) };
        let t = self.a.utf8(&t);
        let n = if depth == 0 { 0 } else { self.r.small(4) };
        self.a.r(t).u2(n as u16);
        self.times(n, |g| {
            let n = g.name(true);
            let n = g.a.utf8(&n);
            g.a.r(n);
            g.element_value(depth - 1);
        });
    }
    pub fn element_value(&mut self, depth: usize) {
        let tags: &[u8] = if depth == 0 { b"BCDFIJSZsec" } else { b"BCDFIJSZsec@[@[" };
        let tag = *self.r.pick(tags);
        self.a.u1(tag);
        match tag {
            b'B' | b'C' | b'I' | b'S' | b'Z' => {
                let k = self.int();
                self.a.r(k);
            }
            b'D' => {
                let k = self.double();
                self.a.r(k);
            }
            b'F' => {
                let k = self.float();
                self.a.r(k);
            }
            b'J' => {
                let k = self.long();
                self.a.r(k);
            }
            b's' => {
                let k = self.text_id();
                self.a.r(k);
            }
            b'e' => {
                let (t, n) = (self.fdesc(), self.name(false));
                let (t, n) = (self.a.utf8(&t), if self.r.one_in(6) { self.text_id() } else { self.a.utf8(&n) });
                self.a.r(t).r(n);
            }
            b'c' => {
                let d = if self.r.one_in(4) { "V".to_string() } else { self.fdesc() };
                let d = self.a.utf8(&d);
                self.a.r(d);
            }
            b'@' => self.annotation(depth - 1),
            _ => {
                let n = self.r.small(4);
                self.a.u2(n as u16);
                self.times(n, |g| g.element_value(depth - 1));
            }
        }
    }
    pub fn type_annotation(&mut self) {
        let tag = *self.r.pick(&[
            0x00, 0x01, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b,
        ]);
        self.a.u1(tag);
        match tag {
            0x00 | 0x01 | 0x16 => self.n1(),
            0x10 | 0x17 | 0x42..=0x46 => self.n2(),
            0x11 | 0x12 => {
                self.n1();
                self.n1();
            }
            0x40 | 0x41 => self.list(3, |g| {
                g.n2();
                g.n2();
                g.n2();
            }),
            0x47..=0x4b => {
                self.n2();
                self.n1();
            }
            _ => {}
        }
        let n = if self.r.one_in(100) { 255 } else { self.r.small(4) };
        self.a.u1(n as u8);
        self.times(n, |g| {
            let k = g.r.below(4) as u8;
            g.a.u1(k);
            g.n1();
        });
        let d = self.c.anno_depth;
        self.annotation(d);
    }

    pub fn code(&mut self) {
        self.n2();
        self.n2();
        let pos = self.a.body.len();
        self.a.u4(0);
        let start = self.a.body.len();
        let n = 1 + self.r.below(self.c.insns);
        self.instructions(start, n, 65000);
        let len = (self.a.body.len() - start) as u32;
        self.a.set_u4(pos, len);
        let n = self.r.small(3);
        self.a.u2(n as u16);
        self.times(n, |g| {
            g.n2();
            g.n2();
            g.n2();
            let c = g.opt(|g| g.class_or_array());
            g.a.r_opt(c);
        });
        self.attributes(Place::Code);
    }

    /// Emits about n instructions whose branches all land on one of them.
    pub fn instructions(&mut self, start: usize, n: usize, most: usize) {
        let mut offs: Vec<usize> = vec![];
        let mut patches: Vec<(usize, usize, usize)> = vec![];
        for _ in 0..n {
            if self.a.body.len() - start > most {
                break;
            }
            let off = self.a.body.len() - start;
            offs.push(off);
            let code = if self.r.pct(self.c.branchy) {
                *self.r.pick(&[0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xc6, 0xc7, 0xc8, 0xc9, 0xaa, 0xab, 0xaa, 0xab])
            } else if self.r.pct(self.c.loady) {
                *self.r.pick(&[0x12, 0x13, 0x14])
            } else {
                self.r.u8()
            };
            let op = opcodes::by_code()[code as usize].filter(|o| !o.reserved || self.r.one_in(200));
            let op = op.unwrap_or(opcodes::by_code()[0].unwrap());
            self.instruction(start, off, op, &mut patches);
        }
        for (pos, width, from) in patches {
            let mut to = offs[self.r.below(offs.len())] as i64 - from as i64;
            if width == 2 && !(-32768..=32767).contains(&to) {
                to = 0;
            }
            if self.r.one_in(8) {
                // The extremes are where range checks go wrong.
                let edge = if self.r.one_in(2) { 0 } else { *offs.last().unwrap() };
                let d = edge as i64 - from as i64;
                if width == 4 || (-32768..=32767).contains(&d) {
                    to = d;
                }
            }
            if width == 2 {
                self.a.set_u2(pos, to as i16 as u16);
            } else {
                self.a.set_u4(pos, to as i32 as u32);
            }
        }
    }

    fn instruction(&mut self, start: usize, off: usize, op: opcodes::Op, patches: &mut Vec<(usize, usize, usize)>) {
        match op.f {
            F::Indy if !self.can_indy() => {
                self.a.u1(0);
                return;
            }
            F::Load1 if self.a.narrow_left() == 0 => {
                self.a.u1(0);
                return;
            }
            _ => {}
        }
        self.a.u1(op.code);
        match op.f {
            F::No | F::Fixed(_) => {}
            F::I1 | F::Local => self.n1(),
            F::I2 => self.n2(),
            F::Load1 => {
                let k = self.loadable(false);
                self.a.r1(k);
            }
            F::Load2 => {
                let k = self.loadable(op.code == 0x14);
                self.a.r(k);
            }
            F::Field => {
                let k = self.field_ref();
                self.a.r(k);
            }
            F::Method => {
                let k = self.method_ref(false);
                self.a.r(k);
            }
            F::AnyMethod => {
                let k = match self.r.below(3) {
                    0 if self.c.major >= 52 => self.method_ref(true),
                    1 if op.code == 0xb7 => self.init_ref(),
                    _ => self.method_ref(false),
                };
                self.a.r(k);
            }
            F::Iface => {
                let k = self.method_ref(true);
                self.a.r(k);
                self.n1();
                self.a.u1(0);
            }
            F::Indy => {
                let k = self.indy();
                self.a.r(k).u2(0);
            }
            F::Class => {
                let k = self.plain_class();
                self.a.r(k);
            }
            F::Type => {
                let k = self.class_or_array();
                self.a.r(k);
            }
            F::Multi => {
                let t = self.array_text();
                let dims = t.len() - t.trim_start_matches('[').len();
                let k = self.a.class(&t);
                let d = 1 + self.r.below(dims) as u8;
                self.a.r(k).u1(d);
            }
            F::B2 => {
                patches.push((self.a.body.len(), 2, off));
                self.a.u2(0);
            }
            F::B4 => {
                patches.push((self.a.body.len(), 4, off));
                self.a.u4(0);
            }
            F::Iinc => {
                self.n1();
                self.n1();
            }
            F::NewArray => {
                let k = 4 + self.r.below(8) as u8;
                self.a.u1(k);
            }
            F::Table => {
                while (self.a.body.len() - start) % 4 != 0 {
                    self.a.u1(0);
                }
                let n = if self.r.one_in(40) { 300 } else { 1 + self.r.small(6) } as i64;
                let low = match self.r.below(4) {
                    0 => i32::MIN as i64,
                    1 => i32::MAX as i64 - n + 1,
                    2 => -(self.r.below(n as usize + 1) as i64),
                    _ => (self.r.u64() as i32 as i64).min(i32::MAX as i64 - n),
                };
                patches.push((self.a.body.len(), 4, off));
                self.a.u4(0).u4(low as i32 as u32).u4((low + n - 1) as i32 as u32);
                for _ in 0..n {
                    patches.push((self.a.body.len(), 4, off));
                    self.a.u4(0);
                }
            }
            F::Lookup => {
                while (self.a.body.len() - start) % 4 != 0 {
                    self.a.u1(0);
                }
                let n = if self.r.one_in(40) { 300 } else { self.r.small(6) };
                patches.push((self.a.body.len(), 4, off));
                self.a.u4(0).u4(n as u32);
                let mut keys: Vec<i32> = (0..n).map(|_| self.r.u32() as i32).collect();
                keys.sort();
                keys.dedup();
                while keys.len() < n {
                    let k = self.r.u64() as i32;
                    if let Err(p) = keys.binary_search(&k) {
                        keys.insert(p, k);
                    }
                }
                for k in keys {
                    self.a.u4(k as u32);
                    patches.push((self.a.body.len(), 4, off));
                    self.a.u4(0);
                }
            }
            F::Wide => {
                let ops: Vec<u8> = opcodes::all().iter().filter(|o| o.wide).map(|o| o.code).collect();
                let c = *self.r.pick(&ops);
                self.a.u1(c);
                self.n2();
                if c == 0x84 {
                    self.n2();
                }
            }
        }
    }
}
