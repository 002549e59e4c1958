//! Classes that go deep (values within values, attributes within attributes) or far (long code).
use crate::assemble::*;
use crate::rng::Rng;

fn up_to(r: &mut Rng, tops: &[usize]) -> usize {
    let n = *r.pick(tops);
    r.below(n)
}

/// Nested to a depth that the parser may refuse, though nothing else is wrong with the class.
pub fn class(r: &mut Rng, k: u64) -> Vec<u8> {
    let major = if r.one_in(2) { 60 } else { 65 };
    let mut a = Asm::new(major);
    let (this, sup) = (a.class("This"), a.class("Super"));
    let (name, int, desc, anno) = (a.utf8("n"), a.add(C::Int(7)), a.utf8("I"), a.utf8("LA;"));
    a.u2(0x21).r(this).r(sup).u2(0);
    match k % 3 {
        0 => {
            // The default of an annotation's element.
            let mdesc = a.utf8("()I");
            a.u2(0);
            a.u2(1).u2(1).r(name).r(mdesc).u2(1);
            let at = a.open_attr("AnnotationDefault");
            let depth = 1 + up_to(r, &[5, 15, 61]);
            let mut after = vec![];
            for _ in 0..depth {
                let (before, then) = (r.small(4), r.small(3));
                let array = r.one_in(2);
                if array {
                    a.u1(b'[').u2(1 + (before + then) as u16);
                } else {
                    a.u1(b'@').r(anno).u2(1 + (before + then) as u16);
                }
                for _ in 0..before {
                    if !array {
                        a.r(name);
                    }
                    a.u1(b'I').r(int);
                }
                if !array {
                    a.r(name);
                }
                after.push((array, then));
            }
            a.u1(b'I').r(int);
            for (array, then) in after.into_iter().rev() {
                for _ in 0..then {
                    if !array {
                        a.r(name);
                    }
                    a.u1(b'I').r(int);
                }
            }
            a.close_attr(at);
            a.u2(0);
        }
        1 => {
            // Record components, each with a record.
            a.u2(0).u2(0);
            let depth = 1 + up_to(r, &[4, 12, 20]);
            let mut open = vec![];
            a.u2(1);
            for d in 0..depth {
                let at = a.open_attr("Record");
                let (before, then) = (r.small(4), r.small(3));
                a.u2(1 + (before + then) as u16);
                for _ in 0..before {
                    a.r(name).r(desc).u2(0);
                }
                let plain = r.small(3);
                a.r(name).r(desc).u2(plain as u16 + 1);
                for _ in 0..plain {
                    let x = a.open_attr("Deprecated");
                    a.close_attr(x);
                }
                open.push((at, then));
                if d + 1 == depth {
                    last(&mut a, r, &[name, desc, int]);
                }
            }
            for (at, then) in open.into_iter().rev() {
                for _ in 0..then {
                    a.r(name).r(desc).u2(0);
                }
                a.close_attr(at);
            }
        }
        _ => {
            // Code, with code among its attributes.
            let mdesc = a.utf8("()V");
            a.u2(0);
            a.u2(1).u2(1).r(name).r(mdesc);
            let depth = 1 + up_to(r, &[4, 12, 20]);
            let mut open = vec![];
            for d in 0..depth {
                let plain = r.small(3);
                a.u2(plain as u16 + 1);
                for _ in 0..plain {
                    let x = a.open_attr("Deprecated");
                    a.close_attr(x);
                }
                open.push(a.open_attr("Code"));
                a.u2(1).u2(1);
                if r.one_in(3) {
                    a.u4(3).u1(0).u1(0).u1(0xb1);
                } else {
                    a.u4(2).u1(0).u1(0xb1);
                }
                let n = r.small(3);
                a.u2(n as u16);
                for j in 0..n {
                    a.u2(0).u2(1).u2(j as u16 % 2).r_opt((j > 0).then_some(sup));
                }
                if d + 1 == depth {
                    a.u2(1);
                    last(&mut a, r, &[name, desc, int]);
                }
            }
            for at in open.into_iter().rev() {
                a.close_attr(at);
            }
            a.u2(0);
        }
    }
    a.finish(r)
}

/// The attribute that lies deepest.
fn last(a: &mut Asm, r: &mut Rng, ids: &[Id]) {
    let (name, desc, int) = (ids[0], ids[1], ids[2]);
    match r.below(12) {
        4 => {
            let x = a.open_attr("LineNumberTable");
            let n = r.small(4);
            a.u2(n as u16);
            for k in 0..n {
                a.u2(k as u16).u2(7);
            }
            a.close_attr(x);
        }
        5 => {
            let x = a.open_attr("SourceFile");
            a.r(name);
            a.close_attr(x);
        }
        6 => {
            let x = a.open_attr("ConstantValue");
            a.r(int);
            a.close_attr(x);
        }
        7 => {
            let x = a.open_attr("StackMapTable");
            a.u2(3).u1(7).u1(64).u1(1).u1(255).u2(1).u2(1).u1(8).u2(0).u2(1).u1(5);
            a.close_attr(x);
        }
        8 => {
            let x = a.open_attr("MethodParameters");
            a.u1(2).r(name).u2(0x10).u2(0).u2(0x1000);
            a.close_attr(x);
        }
        9 => {
            let x = a.open_attr("InnerClasses");
            let c = a.class("In");
            a.u2(1).r(c).u2(0).r(name).u2(1);
            a.close_attr(x);
        }
        10 => {
            let x = a.open_attr("AnnotationDefault");
            a.u1(b'[').u2(2).u1(b'I').r(int).u1(b's').r(name);
            a.close_attr(x);
        }
        11 => {
            let x = a.open_attr("ModulePackages");
            a.u2(0);
            a.close_attr(x);
        }
        0 => {
            let x = a.open_attr("Signature");
            a.r(name);
            a.close_attr(x);
        }
        1 => {
            let x = a.open_attr("LocalVariableTable");
            let n = 1 + r.small(4);
            a.u2(n as u16);
            for _ in 0..n {
                a.u2(0).u2(1).r(name).r(desc).u2(0);
            }
            a.close_attr(x);
        }
        2 => {
            let x = a.open_attr("RuntimeVisibleTypeAnnotations");
            a.u2(1).u1(0x13).u1(1).u1(3).u1(0).r(desc).u2(2).r(name).u1(b'I').r(int).r(name).u1(b'[').u2(2).u1(b's').r(name).u1(b'c').r(desc);
            a.close_attr(x);
        }
        _ => {
            let x = a.open_attr("SourceDebugExtension");
            let n = r.small(30);
            a.raw(&vec![b'x'; n]);
            a.close_attr(x);
        }
    }
}

/// One to three methods with code of about n bytes each: plain stretches, and between them
/// instructions of every kind that refers to something.
pub fn long(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut a = Asm::new(*r.pick(&[50, 52, 55, 65]));
    let (this, sup) = (a.class("This"), a.class("Super"));
    let desc = a.utf8("()V");
    let field = a.field("a/B", "f", "[I");
    let method = a.method("a/B", "m", "(J)V");
    let imethod = a.imethod("a/C", "i", "(J)V");
    let class = a.class("[[Lx;");
    let (int, long) = (a.add(C::Int(7)), a.add(C::Long(7)));
    let text = a.string("s");
    a.u2(0x21).r(this).r(sup).u2(0).u2(0);
    let methods = 1 + r.small(2);
    a.u2(methods as u16);
    for k in 0..methods {
        let name = a.utf8(&format!("m{k}"));
        a.u2(1).r(name).r(desc).u2(1);
        let at = a.open_attr("Code");
        a.u2(1).u2(1).u4(0);
        let start = a.body.len();
        let mut begins: Vec<usize> = vec![];
        while a.body.len() - start < n {
            let left = n - (a.body.len() - start);
            let many = match r.below(3) {
                0 => r.below(8),
                1 => r.below(1000),
                _ => r.below(left + 1),
            };
            let unit: &[u8] = *r.pick(&[&[0u8][..], &[4], &[0x10, 9], &[0x11, 0xab, 0xcd], &[0x84, 1, 255], &[0xc4, 0x15, 1, 2], &[0xbc, 10]]);
            for _ in 0..(many / unit.len()).max(1) {
                begins.push(a.body.len() - start);
                a.raw(unit);
            }
            for _ in 0..1 + r.small(6) {
                let here = a.body.len() - start;
                let near = |r: &mut Rng, begins: &[usize], reach: usize| {
                    let back = r.below(begins.len());
                    let t = if r.one_in(2) { begins[begins.len() - 1 - back.min(5)] } else { begins[back] };
                    (here - t <= reach).then_some(here - t).unwrap_or(0)
                };
                match r.below(12) {
                    0 | 1 => {
                        let back = near(r, &begins, 32768);
                        let op = *r.pick(&[0x99u8, 0xa5, 0xa7, 0xa8, 0xc6, 0xc7]);
                        a.u1(op).u2((back as u16).wrapping_neg());
                    }
                    2 => {
                        let back = near(r, &begins, 1 << 30);
                        let op = *r.pick(&[0xc8u8, 0xc9]);
                        a.u1(op).u4((back as u32).wrapping_neg());
                    }
                    3 => {
                        let op = r.range(0xb2, 0xb5) as u8;
                        a.u1(op).r(field);
                    }
                    4 => {
                        let op = r.range(0xb6, 0xb7) as u8;
                        a.u1(op).r(method);
                    }
                    5 => {
                        a.u1(0xb9).r(imethod).u1(3).u1(0);
                    }
                    6 => {
                        let op = *r.pick(&[0xbdu8, 0xc0, 0xc1]);
                        a.u1(op).r(class);
                    }
                    7 => {
                        a.u1(0xc5).r(class).u1(2);
                    }
                    8 => {
                        let x = if r.one_in(2) { int } else { text };
                        a.u1(0x13).r(x);
                    }
                    9 => {
                        a.u1(0x14).r(long);
                    }
                    _ => {
                        let table = r.one_in(2);
                        let m = r.small(5);
                        a.u1(if table { 0xaa } else { 0xab });
                        while (a.body.len() - start) % 4 != 0 {
                            a.u1(0);
                        }
                        let d = near(r, &begins, 1 << 30) as u32;
                        a.u4(d.wrapping_neg());
                        if table {
                            a.u4(5).u4(5 + m as u32);
                        } else {
                            a.u4(m as u32 + 1);
                        }
                        for j in 0..=m {
                            if !table {
                                a.u4(j as u32 * 3);
                            }
                            let d = near(r, &begins, 1 << 30) as u32;
                            a.u4(d.wrapping_neg());
                        }
                    }
                }
                begins.push(here);
            }
        }
        begins.push(a.body.len() - start);
        a.u1(0xb1);
        let len = a.body.len() - start;
        a.set_u4(start - 4, len as u32);
        let n = r.small(4);
        a.u2(n as u16);
        for _ in 0..n {
            let x = *r.pick(&begins) as u16;
            a.u2(x).u2(x.saturating_add(1)).u2(x).r(sup);
        }
        a.u2(0);
        a.close_attr(at);
    }
    a.u2(0);
    a.finish(r)
}
