//! Class files of one big table each: every entry different from its neighbours.
use crate::assemble::*;
use crate::rng::Rng;

pub const SIZES: [usize; 17] = [0, 1, 2, 3, 127, 128, 129, 254, 255, 256, 257, 300, 4096, 32767, 32768, 65534, 65535];

/// Name, most entries, and the size in bytes of an entry where a table has to stay small.
pub const KINDS: [(&str, usize); 44] = [
    ("interfaces", 65535),
    ("fields", 65535),
    ("methods", 65535),
    ("class attributes", 65535),
    ("field attributes", 65535),
    ("method attributes", 65535),
    ("code attributes", 65535),
    ("record attributes", 65535),
    ("pool ints", 60000),
    ("pool longs", 30000),
    ("pool strings", 30000),
    ("pool text", 60000),
    ("Exceptions", 65535),
    ("NestMembers", 65535),
    ("PermittedSubclasses", 65535),
    ("InnerClasses", 65535),
    ("LineNumberTable", 65535),
    ("LocalVariableTable", 65535),
    ("LocalVariableTypeTable", 65535),
    ("StackMapTable", 65535),
    ("full frame locals", 65535),
    ("full frame stack", 65535),
    ("annotations", 65535),
    ("annotation elements", 65535),
    ("annotation array", 65535),
    ("parameter annotations", 255),
    ("annotations of a parameter", 65535),
    ("type annotations", 65535),
    ("local variable targets", 65535),
    ("type path", 255),
    ("BootstrapMethods", 65535),
    ("bootstrap arguments", 65535),
    ("MethodParameters", 255),
    ("requires", 65535),
    ("exports", 65535),
    ("opens", 65535),
    ("uses", 65535),
    ("provides", 65535),
    ("exports to", 65535),
    ("provides with", 65535),
    ("ModulePackages", 65535),
    ("Record", 65535),
    ("exception table", 65535),
    ("descriptor parameters", 60000),
];

struct B {
    a: Asm,
    r: Rng,
    names: Vec<Id>,
    descs: Vec<Id>,
    mdescs: Vec<Id>,
    classes: Vec<Id>,
    ints: Vec<Id>,
}

impl B {
    fn name(&self, k: usize) -> Id {
        self.names[k % self.names.len()]
    }
    fn class(&self, k: usize) -> Id {
        self.classes[k % self.classes.len()]
    }
    fn desc(&self, k: usize) -> Id {
        self.descs[k % self.descs.len()]
    }
    fn int(&self, k: usize) -> Id {
        self.ints[k % self.ints.len()]
    }
    fn n2(&mut self) {
        let x = self.r.u16();
        self.a.u2(x);
    }
}

/// A class with a table of n entries of this kind.
pub fn big(r: &mut Rng, kind: &str, n: usize) -> Vec<u8> {
    let module = matches!(kind, "requires" | "exports" | "opens" | "uses" | "provides" | "exports to" | "provides with" | "ModulePackages");
    let mut a = Asm::new(if module { 53 + r.below(13) as u16 } else { 55 + r.below(11) as u16 });
    // Pairs of a name and a descriptor are distinct up to 65535.
    let m = n.clamp(8, 300);
    let names: Vec<Id> = (0..m).map(|k| a.utf8(&format!("n{k}"))).collect();
    let descs: Vec<Id> = (0..m).map(|k| a.utf8(&format!("{}La/C{k};", "[".repeat(k % 4)))).collect();
    let mdescs: Vec<Id> = (0..m).map(|k| a.utf8(&format!("(La/C{k};{}){}", "I".repeat(k % 7), ["V", "I", "[J", "La/B;"][k % 4]))).collect();
    let classes: Vec<Id> = (0..m).map(|k| a.class(&format!("c/D{k}"))).collect();
    let ints: Vec<Id> = (0..m).map(|k| a.add(C::Int(k as u32))).collect();
    let mut b = B { a, r: r.clone(), names, descs, mdescs, classes, ints };
    r.u64();
    let this = b.a.class(if module { "module-info" } else { "This" });
    let sup = b.a.class("java/lang/Object");
    b.a.u2(if module { 0x8000 } else { 0x21 }).r(this).r_opt(if module { None } else { Some(sup) });

    // Interfaces, fields, methods.
    if kind == "interfaces" {
        b.a.u2(n as u16);
        for k in 0..n {
            let c = b.class(k);
            b.a.r(c);
        }
    } else {
        b.a.u2(0);
    }
    match kind {
        "fields" | "field attributes" => {
            let lead = b.r.below(4);
            let count = if kind == "fields" { n } else { 1 + lead };
            b.a.u2(count as u16);
            for k in 0..count {
                let (x, y) = (b.name(k), b.desc(k / b.names.len() + k));
                b.n2();
                b.a.r(x).r(y);
                if kind == "fields" {
                    some(&mut b, k, n);
                } else if k < lead {
                    b.a.u2(0);
                } else {
                    deep(&mut b, n);
                }
            }
            b.a.u2(0);
        }
        "methods" | "method attributes" | "descriptor parameters" => {
            b.a.u2(0);
            let lead = b.r.below(4);
            let count = if kind == "methods" { n } else { 1 + lead };
            b.a.u2(count as u16);
            for k in 0..count {
                let mut x = b.name(k);
                let mut y = b.mdescs[(k / b.names.len() + k) % b.mdescs.len()];
                if kind == "methods" && k % 97 == 13 {
                    x = b.a.utf8("<init>");
                    y = b.a.utf8(&format!("(Lc/K{k};)V"));
                } else if kind == "methods" && k == n / 2 {
                    x = b.a.utf8("<clinit>");
                    y = b.a.utf8("()V");
                }
                if kind == "descriptor parameters" && k == lead {
                    let p: String = (0..n).map(|k| b"BCDFIJSZ"[(k * k + k / 8) % 8] as char).collect();
                    y = b.a.utf8(&format!("({p})V"));
                }
                b.n2();
                b.a.r(x).r(y);
                if kind == "method attributes" && k >= lead {
                    deep(&mut b, n);
                } else {
                    some(&mut b, k, n);
                }
            }
        }
        "code attributes" | "exception table" | "LineNumberTable" | "LocalVariableTable" | "LocalVariableTypeTable" | "StackMapTable" | "full frame locals" | "full frame stack" => {
            b.a.u2(0).u2(1);
            let (x, y) = (b.name(0), b.mdescs[0]);
            b.a.u2(1).r(x).r(y).u2(1);
            let at = b.a.open_attr("Code");
            b.a.u2(1).u2(2).u4(1).u1(0xb1);
            if kind == "exception table" {
                b.a.u2(n as u16);
                for k in 0..n {
                    b.n2();
                    b.n2();
                    b.n2();
                    let c = (k % 3 != 0).then(|| b.class(k));
                    b.a.r_opt(c);
                }
                b.a.u2(0);
            } else {
                b.a.u2(0);
                if kind == "code attributes" {
                    deep(&mut b, n);
                } else {
                    b.a.u2(1);
                    table(&mut b, kind, n);
                }
            }
            b.a.close_attr(at);
        }
        _ => {
            b.a.u2(0).u2(0);
        }
    }
    // Attributes of the class.
    match kind {
        "interfaces" | "fields" | "methods" | "field attributes" | "method attributes" | "descriptor parameters" | "code attributes" | "exception table" | "LineNumberTable" | "LocalVariableTable"
        | "LocalVariableTypeTable" | "StackMapTable" | "full frame locals" | "full frame stack" => {
            b.a.u2(0);
        }
        "class attributes" => deep(&mut b, n),
        "pool ints" | "pool longs" | "pool strings" | "pool text" => {
            for k in 0..n {
                let x = b.r.u64() << 17 | k as u64;
                match kind {
                    "pool ints" => b.a.duplicate(if k % 2 == 0 { C::Int(x as u32) } else { C::Float(x as u32) }),
                    "pool longs" => b.a.duplicate(if k % 2 == 0 { C::Long(x) } else { C::Double(x) }),
                    "pool strings" => b.a.string(&format!("s{k}")),
                    _ => b.a.utf8(&format!("t{k}")),
                };
            }
            b.a.u2(0);
        }
        _ => {
            b.a.u2(1);
            table(&mut b, kind, n);
        }
    }
    let mut rr = b.r.clone();
    b.a.finish(&mut rr)
}

/// Attributes for some of the elements of a table, wherever they are in it.
fn some(b: &mut B, k: usize, n: usize) {
    if k % 43 != 40 && k + 2 != n {
        b.a.u2(0);
        return;
    }
    b.a.u2(2);
    let at = b.a.open_attr("Deprecated");
    b.a.close_attr(at);
    annotations(b, k);
}

fn annotations(b: &mut B, k: usize) {
    let at = b.a.open_attr("RuntimeVisibleTypeAnnotations");
    b.a.u2(2);
    for j in 0..2 {
        b.a.u1(0x13).u1(1).u1(3).u1(j as u8);
        anno(b, k + j);
    }
    b.a.close_attr(at);
}

fn deep(b: &mut B, n: usize) {
    b.a.u2(n as u16);
    for k in 0..n {
        if k % 43 == 40 || k + 2 == n {
            annotations(b, k);
            continue;
        }
        let name = b.name(k);
        let at = k % 3;
        b.a.r(name).u4(at as u32).raw(&[k as u8, (k >> 8) as u8][..at.min(2)]);
    }
}

fn anno(b: &mut B, k: usize) {
    let (d, n, v) = (b.desc(k), b.name(k), b.int(k));
    b.a.r(d);
    if k % 3 == 0 {
        b.a.u2(0);
    } else {
        b.a.u2(1).r(n).u1(*b"ISZBC".get(k % 5).unwrap()).r(v);
    }
}

fn table(b: &mut B, kind: &str, n: usize) {
    let attr = match kind {
        "full frame locals" | "full frame stack" => "StackMapTable",
        "annotations" | "annotation elements" => "RuntimeVisibleAnnotations",
        "annotation array" => "AnnotationDefault",
        "parameter annotations" | "annotations of a parameter" => "RuntimeInvisibleParameterAnnotations",
        "type annotations" | "local variable targets" | "type path" => "RuntimeVisibleTypeAnnotations",
        "bootstrap arguments" => "BootstrapMethods",
        "requires" | "exports" | "opens" | "uses" | "provides" | "exports to" | "provides with" => "Module",
        "record attributes" => "Record",
        k => k,
    };
    let at = b.a.open_attr(attr);
    let c = n as u16;
    match kind {
        "Exceptions" | "NestMembers" | "PermittedSubclasses" => {
            b.a.u2(c);
            for k in 0..n {
                let x = b.class(k);
                b.a.r(x);
            }
        }
        "InnerClasses" => {
            b.a.u2(c);
            for k in 0..n {
                let (x, y, z) = (b.class(k), (k % 3 != 0).then(|| b.class(k + 1)), (k % 5 != 0).then(|| b.name(k)));
                b.a.r(x).r_opt(y).r_opt(z);
                b.n2();
            }
        }
        "LineNumberTable" => {
            b.a.u2(c);
            for _ in 0..n {
                b.n2();
                b.n2();
            }
        }
        "LocalVariableTable" | "LocalVariableTypeTable" => {
            b.a.u2(c);
            for k in 0..n {
                b.n2();
                b.n2();
                let (x, y) = (b.name(k), b.desc(k));
                b.a.r(x).r(y);
                b.n2();
            }
        }
        "StackMapTable" => {
            b.a.u2(c);
            for k in 0..n {
                match k % 4 {
                    0 => {
                        b.a.u1((k / 4 % 64) as u8);
                    }
                    1 => {
                        b.a.u1(64 + (k / 4 % 64) as u8).u1((k % 7) as u8);
                    }
                    2 => {
                        b.a.u1(248 + (k / 4 % 4) as u8);
                        b.n2();
                    }
                    _ => {
                        let x = b.class(k);
                        b.a.u1(252);
                        b.n2();
                        b.a.u1(7).r(x);
                    }
                }
            }
        }
        "full frame locals" | "full frame stack" => {
            let lead = b.r.below(4);
            b.a.u2(1 + lead as u16);
            for k in 0..lead {
                b.a.u1(k as u8);
            }
            b.a.u1(255);
            b.n2();
            for half in ["full frame locals", "full frame stack"] {
                let n = if kind == half { n } else { n.min(2) };
                b.a.u2(n as u16);
                for k in 0..n {
                    let t = (k + k / 9) % 9;
                    b.a.u1(t as u8);
                    if t == 7 {
                        let x = b.class(k);
                        b.a.r(x);
                    } else if t == 8 {
                        b.n2();
                    }
                }
            }
        }
        "annotations" => {
            b.a.u2(c);
            (0..n).for_each(|k| anno(b, k));
        }
        "annotation elements" => {
            let d = b.desc(0);
            let lead = b.r.below(4);
            b.a.u2(1 + lead as u16);
            (0..lead).for_each(|k| anno(b, k));
            b.a.r(d).u2(c);
            for k in 0..n {
                let (x, v) = (b.name(k), b.name(k + 1));
                b.a.r(x).u1(b's').r(v);
            }
        }
        "annotation array" => {
            b.a.u1(b'[').u2(c);
            for k in 0..n {
                if k % 2 == 0 {
                    let v = b.int(k);
                    b.a.u1(b'I').r(v);
                } else {
                    let v = b.desc(k);
                    b.a.u1(b'c').r(v);
                }
            }
        }
        "parameter annotations" => {
            b.a.u1(n as u8);
            for k in 0..n {
                b.a.u2((k % 3) as u16);
                (0..k % 3).for_each(|j| anno(b, k + j));
            }
        }
        "annotations of a parameter" => {
            let lead = b.r.below(4);
            b.a.u1(1 + lead as u8);
            for k in 0..lead {
                b.a.u2((k % 2) as u16);
                (0..k % 2).for_each(|k| anno(b, k));
            }
            b.a.u2(c);
            (0..n).for_each(|k| anno(b, k));
        }
        "type annotations" => {
            b.a.u2(c);
            for k in 0..n {
                match k % 4 {
                    0 => b.a.u1(0x13),
                    1 => b.a.u1(0).u1(k as u8),
                    2 => b.a.u1(0x17).u2(k as u16),
                    _ => b.a.u1(0x47).u2(k as u16).u1(k as u8),
                };
                b.a.u1((k % 3) as u8);
                for j in 0..k % 3 {
                    b.a.u1(((k + j) % 4) as u8).u1(k as u8);
                }
                anno(b, k);
            }
        }
        "local variable targets" => {
            let lead = b.r.below(4);
            b.a.u2(1 + lead as u16);
            for k in 0..lead {
                b.a.u1(0x13).u1(0);
                anno(b, k);
            }
            b.a.u1(0x40).u2(c);
            for _ in 0..n {
                b.n2();
                b.n2();
                b.n2();
            }
            b.a.u1(0);
            anno(b, 1);
        }
        "type path" => {
            let lead = b.r.below(4);
            b.a.u2(1 + lead as u16);
            for k in 0..lead {
                b.a.u1(0x13).u1(0);
                anno(b, k);
            }
            b.a.u1(0x14).u1(n as u8);
            for k in 0..n {
                b.a.u1((k % 4) as u8).u1(k as u8);
            }
            anno(b, 1);
        }
        "BootstrapMethods" => {
            b.a.u2(c);
            let hs: Vec<Id> = (0..n.clamp(1, 50))
                .map(|k| {
                    let m = b.a.method("x/Y", &format!("boot{k}"), "()V");
                    b.a.add(C::Handle(6, m))
                })
                .collect();
            for k in 0..n {
                let (h, v) = (hs[k % hs.len()], b.int(k));
                b.a.r(h);
                if k % 4 == 0 {
                    b.a.u2(1).r(v);
                } else {
                    b.a.u2(0);
                }
            }
        }
        "bootstrap arguments" => {
            let m = b.a.method("x/Y", "boot", "()V");
            let h = b.a.add(C::Handle(6, m));
            let lead = b.r.below(4);
            b.a.u2(1 + lead as u16);
            for k in 0..lead {
                let v = b.int(k);
                b.a.r(h).u2(1).r(v);
            }
            b.a.r(h).u2(c);
            for k in 0..n {
                let v = if k % 2 == 0 { b.int(k) } else { b.class(k) };
                b.a.r(v);
            }
        }
        "MethodParameters" => {
            b.a.u1(n as u8);
            for k in 0..n {
                let x = (k % 4 != 0).then(|| b.name(k));
                b.a.r_opt(x).u2([0, 0x10, 0x1000, 0x8000, 0x9010][k % 5]);
            }
        }
        "ModulePackages" => {
            b.a.u2(c);
            for k in 0..n {
                let p = b.a.package(&format!("p/q{}", k % 300));
                b.a.r(p);
            }
        }
        "record attributes" => {
            let (x, y) = (b.name(0), b.desc(0));
            let lead = b.r.below(4);
            b.a.u2(1 + lead as u16);
            for _ in 0..lead {
                b.a.r(x).r(y).u2(0);
            }
            b.a.r(x).r(y);
            deep(b, n);
        }
        "Record" => {
            b.a.u2(c);
            for k in 0..n {
                let (x, y) = (b.name(k), b.desc(k));
                b.a.r(x).r(y);
                some(b, k, n);
            }
        }
        _ => {
            let name = b.a.module("mod.x");
            let mods: Vec<Id> = (0..100).map(|k| b.a.module(&format!("m{k}"))).collect();
            let packs: Vec<Id> = (0..100).map(|k| b.a.package(&format!("p/q{k}"))).collect();
            b.a.r(name).u2(0x20).u2(0);
            let n_if = |x: bool| if x { n } else { 0 };
            let c = n_if(kind == "requires");
            b.a.u2(c as u16);
            for k in 0..c {
                let v = (k % 2 == 0).then(|| b.name(k));
                b.a.r(mods[k % 100]).u2([0x20, 0x40, 0x1000, 0x8000, 0][k % 5]).r_opt(v);
            }
            for which in ["exports", "opens"] {
                if kind == "exports to" {
                    let lead = b.r.below(4);
                    b.a.u2(1 + lead as u16);
                    for k in 0..lead {
                        b.a.r(packs[2 + k]).u2(0).u2(1).r(mods[0]);
                    }
                    b.a.r(packs[1]).u2(0).u2(n as u16);
                    (0..n).for_each(|k| {
                        b.a.r(mods[k % 100]);
                    });
                    continue;
                }
                let c = n_if(kind == which);
                b.a.u2(c as u16);
                for k in 0..c {
                    b.a.r(packs[k % 100]).u2([0, 0x1000, 0x8000][k % 3]).u2((k % 3) as u16);
                    (0..k % 3).for_each(|j| {
                        b.a.r(mods[(k + j) % 100]);
                    });
                }
            }
            let c = n_if(kind == "uses");
            b.a.u2(c as u16);
            for k in 0..c {
                let x = b.class(k);
                b.a.r(x);
            }
            if kind == "provides with" {
                let x = b.class(0);
                let lead = b.r.below(4);
                b.a.u2(1 + lead as u16);
                for k in 0..lead {
                    let y = b.class(k);
                    b.a.r(y).u2(1).r(x);
                }
                b.a.r(x).u2(n as u16);
                for k in 0..n {
                    let x = b.class(k);
                    b.a.r(x);
                }
            } else {
                let c = n_if(kind == "provides");
                b.a.u2(c as u16);
                for k in 0..c {
                    let x = b.class(k);
                    b.a.r(x).u2((k % 3) as u16);
                    for j in 0..k % 3 {
                        let x = b.class(k + j + 1);
                        b.a.r(x);
                    }
                }
            }
        }
    }
    b.a.close_attr(at);
}
