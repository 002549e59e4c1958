//! Workloads and judgements, continued: C10 to C16 and C19 to C21.
use crate::checks::*;
use crate::work::*;
use cafebabe::bytecode::Opcode;
use refmodel::generate::{self, Cfg, Shape};
use refmodel::hostile::{self, Raw};
use refmodel::mutate;
use refmodel::reference::{self, Cat, Mark, What};
use refmodel::rng::Rng;
use refmodel::text;
use refmodel::value;
use std::borrow::Cow;

/// The relative destinations of an instruction.
pub fn jumps(op: &Opcode<'_>) -> Vec<i64> {
    match op {
        Opcode::Goto(x)
        | Opcode::Jsr(x)
        | Opcode::IfAcmpeq(x)
        | Opcode::IfAcmpne(x)
        | Opcode::IfIcmpeq(x)
        | Opcode::IfIcmpge(x)
        | Opcode::IfIcmpgt(x)
        | Opcode::IfIcmple(x)
        | Opcode::IfIcmplt(x)
        | Opcode::IfIcmpne(x)
        | Opcode::Ifeq(x)
        | Opcode::Ifge(x)
        | Opcode::Ifgt(x)
        | Opcode::Ifle(x)
        | Opcode::Iflt(x)
        | Opcode::Ifne(x)
        | Opcode::Ifnonnull(x)
        | Opcode::Ifnull(x) => vec![*x as i64],
        Opcode::Tableswitch(t) => std::iter::once(t.default as i64).chain(t.jumps.iter().map(|x| *x as i64)).collect(),
        Opcode::Lookupswitch(t) => std::iter::once(t.default as i64).chain(t.match_offsets.iter().map(|x| x.1 as i64)).collect(),
        _ => vec![],
    }
}

/// A number below one of these.
fn up_to(r: &mut Rng, most: &[usize]) -> usize {
    let n = *r.pick(most);
    r.below(n)
}

// ---------------------------------------------------------------- C10

pub const NAMES: [&str; 74] = [
    "", "a", "A", "n", "<init>", "<clinit>", "<init", "init>", "<", ">", "<>", "<a>", "a<b", "a>b", "<Init>", "<INIT>", "<clinit", "clinit>", "<clinit>x", "x<init>", "a.b", "a;b", "a[b", "a/b", ".", ";", "[", "/", "a/", "/a", "a//b", "a/b/c", "a.b/c",
    "a/b;", "a/[b", "[a", "[I", "[[I", "[La;", "[La", "[La/b;", "[La//b;", "[L;", "[V", "[", "[[", "[Lx.y;", "[II", "[La;b", "I", "V", "La;", "La/b;", "()V", "a b", " ", "\t", "a\nb", "a\u{0}b", "\u{1}", "a\u{1f}", "a:b", "a@b", "a\\b", "a\\\\b", "a\\:b",
    "a\\@b", "\\", "a\\", "é", "日本/語", "\u{10000}/x", "java/lang/Object", "module-info",
];

pub const DESCS: [&str; 60] = [
    "", "B", "C", "D", "F", "I", "J", "S", "Z", "V", "L;", "La;", "La", "a;", "La/b;", "La/;", "L/a;", "La//b;", "La.b;", "La[b;", "La;b", "[", "[I", "[[I", "[V", "[La;", "[L;", "II", "IV", "i", "Q", "()V", "()I", "(I)V", "(V)V", "()", "(", ")", "(I", "I)V", "()VV", "()V ", " ()V",
    "(I)", "([)V", "([I)[I", "(La;)La;", "(La)V", "(L;)V", "(I)VI", "(IJ[D[[La/b;)Lc/d$e;", "((I))V", "()[V", "([V)V", "(I,I)V", "<a>", "L<a>;", "Lé/日;", "(Lé;)V", "()L\u{10000};",
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Role {
    Class,
    This,
    NtOnly,
    Field,
    Method,
    IMethod,
    Dyn,
    Indy,
    Module,
    Package,
    MType,
    FieldDecl,
    MethodDecl,
    Str,
}

pub const ROLES: [Role; 14] = [
    Role::Class, Role::This, Role::NtOnly, Role::Field, Role::Method, Role::IMethod, Role::Dyn, Role::Indy, Role::Module, Role::Package, Role::MType, Role::FieldDecl, Role::MethodDecl, Role::Str,
];

/// A class that uses a name and a descriptor in one role.
pub fn in_role(major: u16, flags: u16, role: Role, name: &[u8], desc: &[u8]) -> Vec<u8> {
    in_role_often(major, flags, role, name, desc, 0)
}

/// The same, with more entries that refer to the texts.
pub fn in_role_often(major: u16, flags: u16, role: Role, name: &[u8], desc: &[u8], often: usize) -> Vec<u8> {
    let mut p = Raw::new(major);
    let (n, d) = (p.utf8(name), p.utf8(desc));
    let module = matches!(role, Role::Module | Role::Package);
    let c = p.class("c/C");
    let mut this = c;
    let mut boot = false;
    match role {
        Role::Class => {
            p.e1(7, n);
        }
        Role::This => this = p.e1(7, n),
        Role::NtOnly => {
            p.e2(12, n, d);
        }
        Role::Field | Role::Method | Role::IMethod => {
            let nt = p.e2(12, n, d);
            p.e2(if role == Role::Field { 9 } else if role == Role::Method { 10 } else { 11 }, c, nt);
        }
        Role::Dyn | Role::Indy => {
            let nt = p.e2(12, n, d);
            p.e2(if role == Role::Dyn { 17 } else { 18 }, 0, nt);
            boot = true;
        }
        Role::Module => {
            p.e1(19, n);
        }
        Role::Package => {
            p.e1(20, n);
        }
        Role::MType => {
            p.e1(16, d);
        }
        Role::Str => {
            p.e1(8, n);
        }
        _ => {}
    }
    for _ in 0..often {
        match role {
            Role::Class | Role::This => {
                p.e1(7, n);
            }
            Role::Module => {
                p.e1(19, n);
            }
            Role::Package => {
                p.e1(20, n);
            }
            Role::MType => {
                p.e1(16, d);
            }
            Role::Str => {
                p.e1(8, n);
            }
            _ => {
                let nt = p.e2(12, n, d);
                match role {
                    Role::Field => p.e2(9, c, nt),
                    Role::Method => p.e2(10, c, nt),
                    Role::IMethod => p.e2(11, c, nt),
                    _ => nt,
                };
            }
        }
    }
    let bsm = if boot {
        let (x, y) = (p.utf8(b"bsm"), p.utf8(b"()V"));
        let nt = p.e2(12, x, y);
        let m = p.e2(10, c, nt);
        let h = p.entry(&[15, 6, (m >> 8) as u8, m as u8]);
        Some((p.utf8(b"BootstrapMethods"), h))
    } else {
        None
    };
    if module {
        p.u2(0x8000).u2(c).u2(0).u2(0).u2(0).u2(0).u2(0);
        return p.bytes();
    }
    p.u2(flags).u2(this).u2(c).u2(0);
    if role == Role::FieldDecl {
        p.u2(1).u2(2).u2(n).u2(d).u2(0);
    } else {
        p.u2(0);
    }
    if role == Role::MethodDecl {
        p.u2(1).u2(2).u2(n).u2(d).u2(0);
    } else {
        p.u2(0);
    }
    match bsm {
        Some((name, h)) => {
            p.u2(1).u2(name).u4(6).u2(1).u2(h).u2(0);
        }
        None => {
            p.u2(0);
        }
    }
    p.bytes()
}

/// Every character there is, in every kind of name, text and descriptor: 1024 to a class.
pub fn code_points(w: &mut W) {
    w.units("every character", 0x110000 / 1024, 0x110000 / 1024, |w, r, k| {
        let major = *r.pick(&[49, 52, 55, 65]);
        let mut p = Raw::new(major);
        let mut names = vec![];
        let (int, md, c) = (p.utf8(b"I"), p.utf8(b"()V"), p.class("A"));
        for j in 0..1024 {
            let Some(ch) = char::from_u32((k * 1024 + j) as u32) else { continue };
            let x = match r.below(4) {
                0 => format!("{ch}"),
                1 => format!("a{ch}"),
                2 => format!("{ch}1"),
                _ => format!("b{ch}{ch}c"),
            };
            let n = p.utf8(&text::encode(&x));
            p.e1(8, n);
            // Where it has a meaning of its own, it goes to classes by itself, below.
            if !".;[/<>".contains(ch) {
                names.push(n);
                p.e1(7, n);
                let d = p.utf8(&text::encode(&format!("(L{x};[La/{x};)L{x}/{x};")));
                let nt = p.e2(12, n, d);
                p.e2(10, c, nt);
                if major >= 51 {
                    p.e1(16, d);
                }
            }
        }
        p.head();
        for d in [int, md] {
            p.u2(names.len() as u16);
            for n in &names {
                p.u2(0).u2(*n).u2(d).u2(0);
            }
        }
        p.u2(0);
        w.judge(&p.bytes(), true, "1024 characters", true);
        // Modules and packages.
        let mut p = Raw::new(if major < 53 { 53 } else { major });
        for j in 0..1024 {
            let Some(ch) = char::from_u32((k * 1024 + j) as u32) else { continue };
            let x = match r.below(3) {
                0 => format!("{ch}"),
                1 => format!("a{ch}"),
                _ => format!("b{ch}{ch}c"),
            };
            let n = p.utf8(&text::encode(&x));
            if ch >= ' ' && !":@\\".contains(ch) {
                p.e1(19, n);
            }
            if !".;[/".contains(ch) {
                p.e1(20, n);
            }
        }
        let c = p.class("module-info");
        p.u2(0x8000).u2(c).u2(0).u2(0).u2(0).u2(0).u2(0);
        w.judge(&p.bytes(), true, "1024 characters in modules", true);
        w.stat("characters tried in names", 1024);
    });
}

/// Names and descriptors of unusual length, in every role. No length is a fault.
pub fn long_texts(w: &mut W) {
    const LENGTHS: [usize; 14] = [255, 256, 257, 511, 512, 1000, 1023, 4095, 4096, 32767, 32768, 65533, 65534, 65535];
    let n = LENGTHS.len() * ROLES.len();
    w.units("long texts in every role", n as u64 * 2, n as u64 * 12, |w, r, k| {
        let (len, role) = (LENGTHS[k as usize % LENGTHS.len()], ROLES[k as usize / LENGTHS.len() % ROLES.len()]);
        let major = *r.pick(&[45, 49, 52, 53, 65]);
        let field = matches!(role, Role::Field | Role::Dyn | Role::FieldDecl | Role::NtOnly);
        let pattern: &[u8] = *r.pick(&[b"n".as_slice(), b"ab", b"a1b2c3d", "é".as_bytes(), "日".as_bytes()]);
        let text = |len: usize| {
            let mut x: Vec<u8> = pattern.iter().copied().cycle().take(len / pattern.len() * pattern.len()).collect();
            x.extend(vec![b'z'; len - x.len()]);
            x
        };
        let mut n = text(len);
        let mut notes = vec![("name", n.clone(), if field { b"I".to_vec() } else { b"()V".to_vec() })];
        if matches!(role, Role::Class | Role::This | Role::Package) {
            let at = r.range(1, len - 2);
            if n[at - 1].is_ascii() && n[at].is_ascii() && n[at + 1].is_ascii() {
                n[at] = b'/';
                notes.push(("qualified name", n, notes[0].2.clone()));
            }
        }
        if role == Role::Class {
            let d = *r.pick(&[1, 2, 3, 254, 255]);
            if d + 2 < len {
                let x = [vec![b'['; d], b"L".to_vec(), text(len - d - 2), b";".to_vec()].concat();
                notes.push(("array of a long name", x, notes[0].2.clone()));
            }
        }
        if field {
            notes.push(("descriptor", b"n".to_vec(), [b"L".as_slice(), &text(len - 2), b";"].concat()));
            notes.push(("array descriptor", b"n".to_vec(), [b"[[L".as_slice(), &text(len - 4), b";"].concat()));
        } else {
            notes.push(("result", b"n".to_vec(), [b"()L".as_slice(), &text(len - 4), b";"].concat()));
            notes.push(("one parameter", b"n".to_vec(), [b"(L".as_slice(), &text(len - 5), b";)V"].concat()));
            let many: Vec<u8> = (0..len - 3).map(|k| b"IBCSZFJD"[k % 8]).collect();
            notes.push(("many parameters", b"n".to_vec(), [b"(".as_slice(), &many, b")V"].concat()));
            let half = (len - 9) / 2;
            notes.push(("two parameters", b"<init>".to_vec(), [b"(L".as_slice(), &text(half), b";L", &text(half), b";)V"].concat()));
        }
        for (note, name, desc) in notes {
            let b = in_role(major, *r.pick(&[0x21, 0x200]), role, &name, &desc);
            w.judge(&b, true, &format!("{note} of {len} bytes as {role:?}"), true);
            // And with a character that must not be there, near the end.
            for near_end in [true, false] {
                let (mut name, mut desc) = (name.clone(), desc.clone());
                let x = if note.ends_with("name") { &mut name } else { &mut desc };
                let at = if near_end { x.len() - 1 - r.below(3) } else { r.below(x.len()) };
                if x[at].is_ascii() {
                    x[at] = *r.pick(b";[./<>:)V\0");
                    let b = in_role(major, *r.pick(&[0x21, 0x200]), role, &name, &desc);
                    w.judge(&b, true, &format!("{note} of {len} bytes with byte {at} changed as {role:?}"), true);
                }
            }
        }
        w.stat("long texts in roles", 1);
    });
}

/// The special names and those next to them, in each of these roles.
fn near_special(w: &mut W, roles: &[Role]) {
    const CHARS: [&str; 24] = ["", "<", ">", "X", "i", "I", "t", "0", "$", "_", " ", "\u{0}", "\u{e9}", "\u{130}", "\u{131}", ".", ";", "[", "/", "(", ")", "V", "c", "-"];
    let n = roles.len() as u64;
    w.units("next to the special names", n * 24, n * 24, |w, r, k| {
        let (role, ch) = (roles[(k % n) as usize], CHARS[(k / n) as usize]);
        for special in ["<init>", "<clinit>"] {
            for at in 0..=special.len() {
                for len in 0..=2 {
                    if at + len > special.len() {
                        continue;
                    }
                    let name = format!("{}{ch}{}", &special[..at], &special[at + len..]);
                    let d = *r.pick(&if matches!(role, Role::Field | Role::Dyn | Role::FieldDecl | Role::NtOnly) { ["I", "[La;", "I"] } else { ["()V", "(I)V", "()I"] });
                    let b = in_role(*r.pick(&[45, 50, 52, 53, 55, 65]), *r.pick(&[0x21, 0x200]), role, &text::encode(&name), d.as_bytes());
                    w.judge(&b, true, &format!("name {name:?} as {role:?} with {d}"), true);
                }
            }
        }
    });
}

pub fn c10(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::FalseAccept => matches!(e.cat, Some(Cat::PoolTag | Cat::PoolContent)),
        Kind::Panic => true,
        _ => false,
    };
    jdk(w, 300, 26_600, |w, _, b| {
        w.judge(b, false, "JDK class", false);
    });
    code_points(w);
    near_special(w, &ROLES);
    long_texts(w);
    let names = NAMES.len() * ROLES.len();
    w.units("names in every role", names as u64, names as u64, |w, r, k| {
        let (name, role) = (NAMES[k as usize % NAMES.len()], ROLES[k as usize / NAMES.len()]);
        for major in [45, 49, 51, 52, 53, 55, 65] {
            let good: &[&str] = if matches!(role, Role::Field | Role::Dyn | Role::FieldDecl | Role::NtOnly) { &["I", "[La/b;"] } else { &["()V", "(I[J)La;", "()I"] };
            for d in good {
                let b = in_role(major, *r.pick(&[0x21, 0x200]), role, &text::encode(name), d.as_bytes());
                w.judge(&b, true, &format!("name {name:?} as {role:?} with {d}"), true);
            }
        }
    });
    // Every character that could have a meaning, alone and at every place, in every role.
    let chars = 0x180 * ROLES.len() as u64;
    w.units("single characters in every role", chars, chars, |w, r, k| {
        let (ch, role) = (char::from_u32(k as u32 % 0x180).unwrap(), ROLES[k as usize / 0x180]);
        let major = *r.pick(&[49, 52, 55, 65]);
        let flags = *r.pick(&[0x21, 0x200]);
        for x in [format!("{ch}"), format!("a{ch}"), format!("{ch}a"), format!("a{ch}b"), format!("a/{ch}"), format!("a{ch}{ch}b"), format!("[L{ch};"), format!("[{ch}"), format!("\\{ch}"), format!("<init{ch}")] {
            let d = if matches!(role, Role::Field | Role::Dyn | Role::FieldDecl | Role::NtOnly) { "I" } else { "()V" };
            let b = in_role(major, flags, role, &text::encode(&x), d.as_bytes());
            w.judge(&b, true, &format!("name {x:?} as {role:?}"), true);
        }
        for d in [format!("{ch}"), format!("L{ch};"), format!("La{ch}b;"), format!("La;{ch}"), format!("[{ch}"), format!("({ch})V"), format!("(I{ch}I)V"), format!("(L{ch};)V"), format!("(){ch}"), format!("()[{ch}"), format!("{ch}()V"), format!("()V{ch}")] {
            let b = in_role(major, flags, role, b"n", &text::encode(&d));
            w.judge(&b, true, &format!("descriptor {d:?} as {role:?}"), true);
        }
    });
    let descs = DESCS.len() * ROLES.len();
    w.units("descriptors in every role", descs as u64, descs as u64, |w, r, k| {
        let (d, role) = (DESCS[k as usize % DESCS.len()], ROLES[k as usize / DESCS.len()]);
        for major in [45, 52, 55, 65] {
            for name in ["n", "<init>", "<clinit>", "a<b"] {
                let b = in_role(major, *r.pick(&[0x21, 0x200]), role, name.as_bytes(), &text::encode(d));
                w.judge(&b, true, &format!("descriptor {d:?} as {role:?} of {name}"), true);
            }
        }
    });
    w.units("texts changed in every role", 6000, 400_000, |w, r, k| {
        let role = ROLES[k as usize % ROLES.len()];
        let name = if r.one_in(2) { text::encode(r.pick(&NAMES)) } else { text::encode(&generate::binary_name(r, 30)) };
        let desc = if r.one_in(2) { text::encode(r.pick(&DESCS)) } else if r.one_in(2) { text::encode(&generate::field_desc(r, 30)) } else { text::encode(&generate::method_desc(r, 30)) };
        let major = 45 + r.below(21) as u16;
        for _ in 0..6 {
            let n = if r.one_in(2) { mutate::text_body(r, &name) } else { name.clone() };
            let d = if r.one_in(2) { mutate::text_body(r, &desc) } else { desc.clone() };
            let b = in_role(major, *r.pick(&[0x21, 0x200]), role, &n, &d);
            w.judge(&b, true, &format!("{role:?}"), true);
        }
    });
    // Each tag at each version.
    w.units("tags by version", 256, 256, |w, r, k| {
        let t = k as u8;
        for major in (44..=68).chain([0, 1, 100, 65535]) {
            for module in [false, true] {
                for body in [2usize, 3, 4, 8] {
                    if body != 4 && t > 21 {
                        continue;
                    }
                    let mut p = Raw::new(major);
                    let n = p.utf8(b"n");
                    let d = p.utf8(if r.one_in(2) { b"()V" } else { b"I" });
                    let c = p.class("A");
                    let nt = p.e2(12, n, d);
                    let f = p.e2(if r.one_in(2) { 9 } else { 10 }, c, nt);
                    let mut e = vec![t];
                    match body {
                        2 => e.extend([0, *r.pick(&[1, 2, n as u8])]),
                        3 => e.extend([1 + r.below(9) as u8, 0, f as u8]),
                        8 => e.extend([0, 0, 0, nt as u8, 1, 0, 1, b'x']),
                        _ => {
                            let (a, b) = *r.pick(&[(c, nt), (n, d), (0, nt)]);
                            e.extend([0, a as u8, 0, b as u8]);
                        }
                    }
                    p.entry(&e);
                    if t == 5 || t == 6 {
                        // Counted by the helper already.
                    }
                    if module {
                        p.u2(0x8000).u2(c).u2(0).u2(0).u2(0).u2(0).u2(0);
                    } else {
                        p.u2(1).u2(c).u2(0).u2(0).u2(0).u2(0).u2(0);
                    }
                    w.judge(&p.bytes(), true, &format!("tag {t} at version {major}"), true);
                }
            }
        }
    });
    // Method handles: kind by member by name by version.
    w.units("handles", 256, 256, |w, r, k| {
        let kinds: Vec<u8> = if k < 16 { vec![k as u8] } else { vec![k as u8] };
        for hk in kinds {
            for tag in [9u8, 10, 11, 12, 7, 8, 1, 16] {
                for (name, desc) in [("n", "()V"), ("n", "I"), ("<init>", "()V"), ("<init>", "(I)V"), ("<init>", "()I"), ("<clinit>", "()V"), ("<a>", "()V")] {
                    if k >= 16 && (tag != 10 || name != "n") {
                        continue;
                    }
                    for major in [50, 51, 52, 53, 65] {
                        let mut p = Raw::new(major);
                        let (n, d) = (p.utf8(name.as_bytes()), p.utf8(desc.as_bytes()));
                        let c = p.class("A");
                        let nt = p.e2(12, n, d);
                        let m = match tag {
                            9..=11 => p.e2(tag, c, nt),
                            12 => nt,
                            7 => c,
                            1 => n,
                            16 => p.e1(16, d),
                            _ => p.e1(8, n),
                        };
                        p.entry(&[15, hk, (m >> 8) as u8, m as u8]);
                        p.u2(if r.one_in(8) { 0x200 } else { 1 }).u2(c).u2(0).u2(0).u2(0).u2(0).u2(0);
                        w.judge(&p.bytes(), true, &format!("handle of kind {hk} on {tag} {name}{desc} at version {major}"), true);
                    }
                }
            }
        }
    });
    // Wide constants at the end of the pool, and declared counts near the real one.
    w.units("pool counts", 3000, 100_000, |w, r, _| {
        let mut p = Raw::new(52);
        let c = p.class("A");
        for _ in 0..r.below(6) {
            match r.below(3) {
                0 => p.entry(&[5 + r.below(2) as u8, 0, 0, 0, 0, 0, 0, 0, 1]),
                1 => p.entry(&[3, 0, 0, 0, 1]),
                _ => p.utf8(b"x"),
            };
        }
        p.u2(1).u2(c).u2(0).u2(0).u2(0).u2(0).u2(0);
        let real = p.count;
        for d in -3i64..=3 {
            p.count = (real as i64 + d).max(0) as usize;
            w.judge(&p.bytes(), true, &format!("count {} of {real}", p.count), true);
        }
        for n in [0, 1, 2, 255, 65535] {
            p.count = n;
            w.judge(&p.bytes(), true, &format!("count {n} of {real}"), true);
        }
    });
    w.units("the largest pools", 12, 60, |w, r, k| {
        // 65535 is the greatest count there is, and a wide constant may or may not fit at its end.
        let mut p = Raw::new(52);
        let c = p.class("A");
        let wide = 5 + r.below(2) as u8;
        let end = 65530 + k as usize % 6;
        while p.count < end {
            p.entry(&[3, 0, 0, 0, 1]);
        }
        p.entry(&[wide, 0, 0, 0, 0, 0, 0, 0, 1]);
        if k >= 6 {
            while p.count < 65535 {
                p.entry(&[4, 0, 0, 0, 1]);
            }
        }
        p.u2(1).u2(c).u2(0).u2(0).u2(0).u2(0).u2(0);
        p.count = p.count.min(65535);
        let b = p.bytes();
        w.judge(&b, true, &format!("wide constant at {end}"), true);
    });
    hostiles(w, &["pool noise", "bad text", "pool cycle"], 12, 8000, 400_000, |w, b, f| {
        w.judge(b, true, f, true);
    });
    sweep(
        w,
        "pool entries",
        5000,
        300_000,
        12,
        |r| {
            let mut c = no_code(cfg(r));
            c.extra = 25;
            c.attrs = 1;
            c.exotic = *r.pick(&[0, 30]);
            if c.major >= 51 {
                c.bootstraps = 2;
            }
            c
        },
        |m| matches!(m.what, What::Tag | What::RefKind | What::Utf8 | What::Utf8Len | What::PoolCount | What::Major) || m.site.contains("ref.") || m.site.starts_with("Method") || m.site.starts_with("NameAndType") || m.site.ends_with("Dynamic.nt") || matches!(m.site, "Class.name" | "String.string" | "Module.name" | "Package.name"),
    );
}

// ---------------------------------------------------------------- C11

/// A class with so many bootstrap tables at class level, each of so many entries, and dynamic
/// constants with these indexes.
fn bootstraps(r: &mut Rng, major: u16, tables: &[usize], elsewhere: usize, dynamic: &[u16], indy: &[u16]) -> Vec<u8> {
    let mut p = Raw::new(major);
    let a = p.utf8(b"BootstrapMethods");
    let (n, md, fd) = (p.utf8(b"n"), p.utf8(b"()V"), p.utf8(b"I"));
    let c = p.class("A");
    let nt = p.e2(12, n, md);
    let m = p.e2(10, c, nt);
    let h = p.entry(&[15, 6, (m >> 8) as u8, m as u8]);
    let int = p.entry(&[3, 0, 0, 0, 9]);
    let fnt = p.e2(12, n, fd);
    let (code, rec) = (p.utf8(b"Code"), p.utf8(b"Record"));
    for (list, tag, nt) in [(dynamic, 17, fnt), (indy, 18, nt)] {
        for x in list {
            p.e2(tag, *x, nt);
        }
    }
    let table = |r: &mut Rng, k: usize| -> Vec<u8> {
        let mut b = (k as u16).to_be_bytes().to_vec();
        for _ in 0..k {
            b.extend(h.to_be_bytes());
            let n = r.small(3) as u16;
            b.extend(n.to_be_bytes());
            for _ in 0..n {
                b.extend(r.pick(&[int, c, h]).to_be_bytes());
            }
        }
        b
    };
    let t = table(r, 1 + r.clone().below(3));
    p.u2(0x21).u2(c).u2(c).u2(0);
    // On a field, a method, in code, in a record.
    if elsewhere == 1 {
        p.u2(1).u2(1).u2(n).u2(fd).u2(1).attr(a, &t);
    } else {
        p.u2(0);
    }
    match elsewhere {
        2 => {
            p.u2(1).u2(1).u2(n).u2(md).u2(1).attr(a, &t);
        }
        3 => {
            p.u2(1).u2(1).u2(n).u2(md).u2(1).u2(code).u4(13 + 6 + t.len() as u32).u2(0).u2(0).u4(1).u1(0xb1).u2(0).u2(1).attr(a, &t);
        }
        _ => {
            p.u2(0);
        }
    }
    p.u2((tables.len() + (elsewhere == 4) as usize) as u16);
    let at = r.below(tables.len() + 1);
    for (k, n) in tables.iter().enumerate() {
        if elsewhere == 4 && k == at {
            p.u2(rec).u4(8 + 6 + t.len() as u32).u2(1).u2(n_of(n, fd).0).u2(fd).u2(1).attr(a, &t);
        }
        let b = table(r, *n);
        p.attr(a, &b);
    }
    if elsewhere == 4 && at == tables.len() {
        p.u2(rec).u4(8 + 6 + t.len() as u32).u2(1).u2(n).u2(fd).u2(1).attr(a, &t);
    }
    p.bytes()
}
fn n_of(_: &usize, d: u16) -> (u16, ()) {
    // Any text will do as a name here: the name constant comes just before.
    (d - 2, ())
}

pub fn c11(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::FalseAccept => matches!(e.cat, Some(Cat::Bootstrap)),
        Kind::Wrong => e.path.contains("ootstrap"),
        Kind::Panic => true,
        _ => false,
    };
    jdk(w, 1000, 26_600, |w, _, b| {
        w.judge(b, true, "JDK class", false);
    });
    w.units("tables and indexes", 12000, 600_000, |w, r, _| {
        let major = *r.pick(&[50, 51, 52, 54, 55, 60, 65]);
        let tables: Vec<usize> = (0..*r.pick(&[0, 1, 1, 1, 1, 2, 2, 3])).map(|_| *r.pick(&[0, 1, 2, 3, 7, 300])).collect();
        let elsewhere = if r.one_in(2) { 0 } else { r.below(5) };
        let len = tables.first().copied().unwrap_or(0) as u16;
        let pick = |r: &mut Rng| -> Vec<u16> {
            (0..*r.pick(&[0, 0, 1, 2, 6]))
                .map(|_| match r.below(8) {
                    0 => len,
                    1 => len.wrapping_add(1),
                    2 => len.wrapping_sub(1),
                    3 => *r.pick(&[0x100, 0x7fff, 0x8000, 0xffff]),
                    _ => r.below(len.max(1) as usize) as u16,
                })
                .collect()
        };
        let (mut d, mut i) = (pick(r), pick(r));
        if major < 55 && r.pct(95) {
            d.clear();
        }
        if major < 51 && r.pct(95) {
            i.clear();
        }
        let b = bootstraps(r, major, &tables, elsewhere, &d, &i);
        let note = format!("tables {tables:?}, another at {elsewhere}, dynamic {d:?}, indy {i:?}, version {major}");
        w.judge(&b, true, &note, true);
        w.judge(&b, false, &note, true);
    });
    // More entries than half the indexes, and constants at every height of a full pool.
    w.units("tables as large as can be", 24, 240, |w, r, k| {
        let n = [32768usize, 32769, 40000, 65534, 65535, 1][k as usize % 6];
        let d: Vec<u16> = [0, 1, 0x7fff, 0x8000, 0x8001, n - 1, n / 2 + 1].iter().filter(|x| **x < n).map(|x| *x as u16).collect();
        let bad = if n < 65535 { Some(n as u16) } else { None };
        for (fault, at) in [(None, 0), (bad, 0), (bad, 1)] {
            let pad = *r.pick(&[0usize, 256, 32700, 65400]);
            let (b, count) = large_table(r, n, &d, fault, at, pad);
            w.judge(&b, true, &format!("{n} bootstrap methods, index {fault:?}, {count} constants"), true);
        }
    });
    w.units("several tables", 600, 20_000, |w, r, k| {
        let major = *r.pick(&[51, 55, 65]);
        let tables: Vec<usize> = match k % 6 {
            0 => vec![1 + r.below(3), 0],
            1 => vec![0, 1 + r.below(3)],
            2 => vec![0, 0],
            3 => vec![2, 2, 0],
            4 => vec![0, 0, 0, 5],
            _ => (0..2 + r.below(3)).map(|_| r.below(3)).collect(),
        };
        let i: Vec<u16> = (0..r.below(3)).map(|_| r.below(2) as u16).collect();
        let b = bootstraps(r, major, &tables, 0, &[], &i);
        w.judge(&b, true, &format!("tables {tables:?}, indy {i:?}"), true);
    });
    w.units("all indexes of large tables", 30, 300, |w, r, k| {
        let n = [1usize, 255, 256, 257, 5000, 20000][k as usize % 6];
        let d: Vec<u16> = [0, 1, 254, 255, 256, 257, 4999, 5000, 19999].iter().copied().filter(|x| (*x as usize) < n).collect();
        let b = bootstraps(r, 65, &[n], 0, &d, &d);
        w.judge(&b, true, "large table", true);
        for x in [n, n + 1, 65535] {
            let b = bootstraps(r, 65, &[n], 0, &[x as u16], &[]);
            w.judge(&b, true, "beyond a large table", true);
            let b = bootstraps(r, 65, &[n], 0, &d, &[0, x as u16]);
            w.judge(&b, true, "beyond a large table", true);
        }
    });
    let dynamic = |r: &mut Rng| {
        let mut c = cfg(r);
        c.major = *r.pick(&[51, 52, 55, 60, 65]);
        if c.shape == Shape::Module {
            c.major = 65;
        }
        c.bootstraps = *r.pick(&[0, 1, 2, 5, 30]);
        c.loady = 50;
        c.extra = 12;
        c.attrs = 2;
        c.misplaced = *r.pick(&[0, 40]);
        c
    };
    generated(w, "dynamic classes", 5000, 250_000, true, dynamic);
    sweep(w, "bootstrap contents", 5000, 250_000, 12, dynamic, |m| m.what == What::BsmIndex || m.site.starts_with("Bootstrap"));
    // The table's name changed, so that it is there no more, or there twice.
    w.units("table removed", 1500, 60_000, |w, r, _| {
        let c = dynamic(r);
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        let Some(m) = o.info.marks.iter().find(|m| m.site == "Utf8.bytes" && b[m.pos..m.pos + m.len] == *b"BootstrapMethods").copied() else { return };
        let x = mutate::set(&b, m.pos, 1, b'b' as u64);
        w.judge(&x, true, "table renamed", true);
        if let Some(k) = (0..o.info.pool.len()).find(|k| matches!(&o.info.pool[*k], reference::E::Utf8(text::Text::Str(x)) if x == "BootstrapMethods")) {
            for _ in 0..4 {
                if let Some(m) = mutate::pick_mark(r, &o.info, |m| m.site == "attribute.name") {
                    let x = mutate::set(&b, m.pos, 2, k as u64);
                    w.judge(&x, true, "another attribute taken for a table", true);
                }
            }
        }
    });
    big(w, &["BootstrapMethods", "bootstrap arguments"], true);
}

// ---------------------------------------------------------------- C12

/// Sites whose attribute lengths enclose a position.
fn enclosing(o: &reference::Outcome, b: &[u8], pos: usize) -> Vec<Mark> {
    o.info.marks.iter().filter(|a| a.what == What::AttrLen && a.pos + 4 <= pos && pos <= a.pos + 4 + mutate::get(b, a.pos, 4) as usize).copied().collect()
}

pub fn c12(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::FalseAccept => matches!(e.cat, Some(Cat::Magic | Cat::Structure | Cat::AttrLen)),
        Kind::Panic => true,
        _ => false,
    };
    let make = |r: &mut Rng| {
        let mut c = cfg(r);
        c.pad = 0;
        c.insns = c.insns.min(6);
        c.attrs = 2;
        c.anno_depth = 2;
        c.fields = c.fields.min(2);
        c.methods = c.methods.min(2);
        c.extra = 0;
        c.nest = 3;
        c
    };
    w.units("every prefix and some extensions", 500, 25_000, |w, r, _| {
        let c = make(r);
        let b = generate::class(r, c);
        w.judge(&b, true, "whole", true);
        if b.len() > 1500 {
            return;
        }
        for n in 0..b.len() {
            w.judge(&b[..n], n % 2 == 0, "prefix", true);
        }
        for n in 1..9 {
            let mut x = b.clone();
            for _ in 0..n {
                x.push(*r.pick(&[0, 0, 1, 0xff, 0xca]));
            }
            w.judge(&x, n % 2 == 0, "extension", true);
        }
        let mut x = b.clone();
        x.extend_from_slice(&b);
        w.judge(&x, true, "twice", true);
        w.stat("classes cut at every length", 1);
    });
    cut(w, 60, 3000, |w, b, f| {
        w.judge(b, true, f, true);
    });
    // Lengths deep inside other attributes.
    w.units("deep nesting", 1500, 60_000, |w, r, k| {
        let k = if k % 3 == 0 { k + 1 } else { k };
        let b = refmodel::deep::class(r, k);
        let o = reference::parse_marked(&b, true);
        let lens: Vec<Mark> = o.info.marks.iter().filter(|m| m.what == What::AttrLen).copied().collect();
        if o.result.is_err() || lens.is_empty() || !matches!(observe(&b, true), Ok(Got { result: Ok(_), .. })) {
            w.stat("deep classes refused", 1);
            return;
        }
        w.stat("deep classes", 1);
        for j in 0..lens.len().min(24) {
            let m = lens[lens.len() - 1 - j];
            let len = mutate::get(&b, m.pos, 4) as usize;
            let end = m.pos + 4 + len;
            let mut alone = mutate::set(&b, m.pos, 4, (len as i64 + *r.pick(&[-1, 1])).max(0) as u64);
            w.judge(&alone, true, "one length deep inside", true);
            alone.clear();
            let n = 1 + r.below(3);
            for more in [true, false] {
                if !more && len < n {
                    continue;
                }
                let to = |l: u64| if more { l + n as u64 } else { l - n as u64 };
                let mut x = mutate::set(&b, m.pos, 4, to(len as u64));
                for a in enclosing(&o, &b, m.pos) {
                    x = mutate::set(&x, a.pos, 4, to(mutate::get(&b, a.pos, 4)));
                }
                if more {
                    x.splice(end..end, vec![*r.pick(&[0, 0, 0xff]); n]);
                } else {
                    x.drain(end - n..end);
                }
                w.judge(&x, true, "all lengths deep inside", true);
            }
        }
    });
    // Nothing may follow, whatever it is.
    w.units("every byte after the end", 256 * 4, 256 * 40, |w, r, k| {
        let mut c = make(r);
        c.shape = *r.pick(&[Shape::Class, Shape::Interface, Shape::Module, Shape::Module]);
        let b = generate::class(r, c);
        let v = (k % 256) as u8;
        for n in [1usize, 2, 3, 4, 8, 64] {
            let mut x = b.clone();
            x.extend(vec![v; n]);
            w.judge(&x, true, "the same bytes after the end", true);
            w.judge(&x, false, "the same bytes after the end", true);
        }
        for tail in [&b"\r\n"[..], b"\n\n", b"\0\0\0\0", b"\xca\xfe\xba\xbe", b"# ", b"PK\x03\x04"] {
            w.judge(&[&b[..], tail].concat(), true, "something after the end", true);
        }
    });
    jdk(w, 300, 8000, |w, r, b| {
        for _ in 0..8 {
            let n = r.below(b.len());
            w.judge(&b[..n], true, "prefix of a JDK class", true);
        }
        for n in [1, 2, 4] {
            w.judge(&b[..b.len() - n], true, "prefix of a JDK class", true);
        }
        let mut x = b.to_vec();
        x.push(r.u8());
        w.judge(&x, true, "JDK class and a byte", true);
    });
    w.units("lengths", 3500, 200_000, |w, r, _| {
        let c = make(r);
        let b = if r.one_in(8) {
            let k = r.u64();
            refmodel::deep::class(r, k)
        } else {
            generate::class(r, c)
        };
        let o = reference::parse_marked(&b, true);
        if o.result.is_err() {
            return;
        }
        for _ in 0..10 {
            let Some(m) = mutate::pick_mark(r, &o.info, |m| m.what == What::AttrLen).copied() else { return };
            let len = mutate::get(&b, m.pos, 4) as usize;
            let d = *r.pick(&[1usize, 1, 1, 2, 2, 3, 4, 8]);
            let outer: Vec<Mark> = enclosing(&o, &b, m.pos);
            // Just the length; or the bytes with it, here or at every level.
            let all = r.one_in(2);
            let grow = r.one_in(2);
            if !grow && len < d {
                continue;
            }
            let new = if grow { len + d } else { len - d };
            let mut x = mutate::set(&b, m.pos, 4, new as u64);
            if all {
                for a in &outer {
                    let l = mutate::get(&b, a.pos, 4) as usize;
                    x = mutate::set(&x, a.pos, 4, (if grow { l + d } else { l - d }) as u64);
                }
            }
            let end = m.pos + 4 + len;
            let bytes = r.below(3);
            if bytes > 0 {
                if grow {
                    let fill: Vec<u8> = (0..d).map(|_| if bytes == 1 { 0 } else { r.u8() }).collect();
                    x.splice(end..end, fill);
                } else {
                    x.drain(end - d..end);
                }
            }
            w.judge(&x, true, &format!("length {len} made {new}, enclosing ones {}, bytes {}", if all { "too" } else { "not" }, if bytes > 0 { "too" } else { "not" }), true);
        }
        for v in [0u64, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fff0] {
            if let Some(m) = mutate::pick_mark(r, &o.info, |m| matches!(m.what, What::AttrLen | What::CodeLen)) {
                let x = mutate::set(&b, m.pos, 4, v);
                w.judge(&x, true, "extreme length", true);
            }
        }
    });
    sweep(w, "counts", 5000, 250_000, 12, make, |m| matches!(m.what, What::Count | What::CodeLen | What::PoolCount | What::Utf8Len | What::AttrLen));
    // Bytes missing or added in the middle.
    w.units("bytes lost or added inside", 3000, 150_000, |w, r, _| {
        let c = make(r);
        let b = if r.one_in(8) {
            let k = r.u64();
            refmodel::deep::class(r, k)
        } else {
            generate::class(r, c)
        };
        let o = reference::parse_marked(&b, true);
        for _ in 0..8 {
            let Some(m) = mutate::pick_mark(r, &o.info, |m| m.what != What::Utf8) else { return };
            let mut x = b.clone();
            let n = 1 + r.below(4);
            if r.one_in(2) {
                let to = (m.pos + n).min(x.len());
                x.drain(m.pos..to);
            } else {
                x.splice(m.pos..m.pos, vec![0; n]);
            }
            w.judge(&x, true, "bytes lost or added inside", true);
        }
    });
    w.units("magic", 200, 5000, |w, r, k| {
        let c = make(r);
        let b = generate::class(r, c);
        for bit in 0..32 {
            let mut x = b.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            w.judge(&x, k % 2 == 0, "magic", true);
        }
        for v in [0u32, 0xffff_ffff, 0xbeba_feca, 0xcafe_babf, 0xcafe_d00d, 0xfeed_face, 0xcafe_0000, 0x0000_babe] {
            w.judge(&mutate::set(&b, 0, 4, v as u64), true, "magic", true);
        }
    });
    hostiles(w, &["tiny", "long lengths", "empty counts", "attribute noise"], 282, 5000, 300_000, |w, b, f| {
        w.judge(b, true, f, true);
    });
    // The same for every kind of attribute, so that none is missed.
    let kinds = generate::ALL_ATTRS;
    w.units("each kind of attribute mis-sized", kinds.len() as u64 * 25, kinds.len() as u64 * 1000, |w, r, k| {
        let kind = kinds[k as usize % kinds.len()];
        let mut c = make(r);
        c.only = vec![kind, "Code", "Record"];
        if kind.starts_with("Module") {
            c.shape = Shape::Module;
        }
        if c.shape == Shape::Module {
            c.major = 65;
        }
        if kind == "BootstrapMethods" {
            c.major = 65;
            c.bootstraps = 2;
        }
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        if o.result.is_err() {
            return;
        }
        for m in o.info.marks.iter().filter(|m| m.what == What::AttrLen).take(30) {
            let len = mutate::get(&b, m.pos, 4) as usize;
            let end = m.pos + 4 + len;
            let outer = enclosing(&o, &b, m.pos);
            for d in [-2i64, -1, 1, 2] {
                if (len as i64) + d < 0 {
                    continue;
                }
                let mut x = mutate::set(&b, m.pos, 4, (len as i64 + d) as u64);
                w.judge(&x, true, &format!("{kind}: length alone {d:+}"), true);
                for a in &outer {
                    let l = mutate::get(&b, a.pos, 4) as i64;
                    x = mutate::set(&x, a.pos, 4, (l + d) as u64);
                }
                if d > 0 {
                    x.splice(end..end, vec![0; d as usize]);
                } else {
                    x.drain(end - (-d) as usize..end);
                }
                w.judge(&x, true, &format!("{kind}: contents and lengths {d:+}"), true);
            }
        }
    });
}

// ---------------------------------------------------------------- C13

pub fn c13(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::FalseAccept => matches!(e.cat, Some(Cat::Dup | Cat::MemberName | Cat::Init | Cat::Module)),
        Kind::Panic => true,
        _ => false,
    };
    jdk(w, 300, 26_600, |w, _, b| {
        w.judge(b, false, "JDK class", false);
    });
    // Members that share a name, a descriptor, or both, next to each other or far apart, by the
    // same constants or by equal ones.
    w.units("members alike", 9000, 500_000, |w, r, k| {
        let n = if k % 40 == 0 { *r.pick(&[100, 256, 257, 1000, 3000]) } else { 2 + r.below(8) };
        let methods = r.one_in(2);
        let mut p = Raw::new(*r.pick(&[45, 51, 52, 65]));
        let names: Vec<Vec<u8>> = (0..4).map(|j| if r.one_in(6) { format!("é{j}\u{10400}").into_bytes() } else { vec![b'a' + j; 1 + r.below(3)] }).collect();
        let descs: Vec<&str> = if methods { vec!["()V", "(I)V", "()I", "(La;)V", "(Lb;)V", "(J[J)La;"] } else { vec!["I", "J", "[I", "La;", "Lb;", "[La;"] };
        // Several constants with the same text.
        let ni: Vec<Vec<u16>> = names.iter().map(|x| (0..2).map(|_| p.utf8(&text::encode(&String::from_utf8_lossy(x)))).collect()).collect();
        let di: Vec<Vec<u16>> = descs.iter().map(|x| (0..2).map(|_| p.utf8(x.as_bytes())).collect()).collect();
        let mut pairs: Vec<(usize, usize)> = vec![];
        if n <= 24 {
            let mut all: Vec<(usize, usize)> = (0..names.len()).flat_map(|a| (0..descs.len()).map(move |b| (a, b))).collect();
            r.shuffle(&mut all);
            pairs.extend(all.into_iter().take(n));
        }
        let mut extra: Vec<(u16, u16)> = vec![];
        if n > 24 {
            for j in 0..n {
                let x = p.utf8(format!("m{}", j / 2).as_bytes());
                extra.push((x, di[j % 2][0]));
            }
        }
        let mut list: Vec<(u16, u16)> = pairs.iter().map(|(a, b)| (*r.pick(&ni[*a]), *r.pick(&di[*b]))).collect();
        list.extend(extra);
        let n = list.len();
        // Distinct as they stand.
        let build = |p: &Raw, list: &[(u16, u16)], r: &mut Rng| {
            let mut p = p.clone();
            p.head();
            let other = r.one_in(2);
            for half in [false, true] {
                if half == methods {
                    p.u2(list.len() as u16);
                    for (a, b) in list {
                        let f = r.u16();
                        p.u2(f).u2(*a).u2(*b).u2(0);
                    }
                } else if other {
                    // A method may be named as a field is.
                    let d = p.utf8(if half { b"()V" } else { b"I" });
                    p.u2(1).u2(0).u2(list[0].0).u2(d).u2(0);
                } else {
                    p.u2(0);
                }
            }
            p.u2(0);
            p.bytes()
        };
        let b = build(&p, &list, r);
        w.judge(&b, true, &format!("{n} members alike but distinct"), true);
        for _ in 0..3 {
            let (i, j) = match r.below(3) {
                0 => (0, n - 1),
                1 => {
                    let i = r.below(n - 1);
                    (i, i + 1)
                }
                _ => (r.below(n), r.below(n)),
            };
            if i == j {
                continue;
            }
            let mut x = list.clone();
            x[j] = x[i];
            // By another constant of the same text, perhaps.
            for l in &ni {
                if l.contains(&x[j].0) {
                    x[j].0 = *r.pick(l);
                }
            }
            for l in &di {
                if l.contains(&x[j].1) {
                    x[j].1 = *r.pick(l);
                }
            }
            let b = build(&p, &x, r);
            w.judge(&b, true, &format!("members {i} and {j} of {n} the same"), true);
        }
    });
    // Names that differ in one place alone, however long they are, and those that do not.
    w.units("names almost alike", 1500, 60_000, |w, r, k| {
        let n = [1usize, 2, 7, 8, 9, 15, 16, 17, 31, 33, 61, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 4096, 65000][k as usize % 24];
        let at = match r.below(4) {
            0 => 0,
            1 => n - 1,
            _ => r.below(n),
        };
        let (one, two) = *r.pick(&[("a", "A"), ("z", "Z"), ("\u{e9}", "\u{c9}"), ("\u{e9}", "e\u{301}"), ("k", "\u{212a}"), ("a", "b"), ("0", "O"), ("x", ""), ("\u{10400}", "\u{10428}"), (" ", "\u{a0}"), ("\u{0}", ""), ("a", "\u{1}"), ("$", "_"), ("s", "\u{17f}"), ("i", "\u{131}")]);
        let plain = *r.pick(&["m", "aB", "\u{e9}", "x1"]);
        let text = |x: &str| {
            let rest: String = plain.chars().cycle().take(n / plain.len().max(1)).collect();
            let cut = rest.char_indices().map(|c| c.0).filter(|c| *c <= at).last().unwrap_or(0);
            format!("{}{x}{}Q", &rest[..cut], &rest[cut..])
        };
        let methods = r.one_in(2);
        let d = *r.pick(&if methods { ["()V", "(I)La;"] } else { ["I", "[La;"] });
        // The difference is in the name, in a class of the descriptor, or nowhere.
        for kind in 0..3 {
            let (x, y) = (text::encode(&text(one)), text::encode(&text(if kind == 2 { one } else { two })));
            if x.len() > 65000 || y.len() > 65000 {
                continue;
            }
            let in_desc = |t: &[u8]| if methods { [b"(L".as_slice(), t, b";)V"].concat() } else { [b"L".as_slice(), t, b";"].concat() };
            let mut p = Raw::new(*r.pick(&[45, 51, 65]));
            let members = match (kind, r.one_in(2)) {
                (1, _) | (2, true) => {
                    let n = p.utf8(b"n");
                    vec![(n, p.utf8(&in_desc(&x))), (n, p.utf8(&in_desc(&y)))]
                }
                _ => {
                    let d = p.utf8(d.as_bytes());
                    vec![(p.utf8(&x), d), (p.utf8(&y), d)]
                }
            };
            p.head();
            if methods {
                p.u2(0);
            }
            p.u2(2);
            for (a, b) in members {
                let f = r.u16();
                p.u2(f).u2(a).u2(b).u2(0);
            }
            if !methods {
                p.u2(0);
            }
            p.u2(0);
            w.judge(&p.bytes(), true, &format!("{one:?} or {two:?} at {at} of {n}, {}", ["in the name", "in the descriptor", "nowhere"][kind]), true);
        }
    });
    // Initializers.
    let inits = ["<init>", "<clinit>", "init", "<x>", "<init>x", "x<init>", "clinit", "<", ">", ""];
    let descs = ["()V", "()I", "(I)V", "(I)I", "()La;", "()[V", "(La;J)V", "I", "([I)V", "()[I"];
    let total = inits.len() * descs.len();
    w.units("initializers", total as u64, total as u64, |w, _, k| {
        let (name, d) = (inits[k as usize % inits.len()], descs[k as usize / inits.len()]);
        for major in 44..=67 {
            for class in [0u16, 0x21, 0x200, 0x601, 0x2600, 0x4000, 0x0400] {
                for access in [0u16, 1, 8, 9, 0x400, 0xffff] {
                    let mut p = Raw::new(major);
                    let (n, d) = (p.utf8(name.as_bytes()), p.utf8(d.as_bytes()));
                    let c = p.class("A");
                    p.u2(class).u2(c).u2(c).u2(0).u2(0).u2(1).u2(access).u2(n).u2(d).u2(0).u2(0);
                    w.judge(&p.bytes(), true, &format!("{name} of flags {access:#x} in class {class:#x} version {major}"), true);
                }
            }
        }
    });
    // Member names and descriptors.
    let roles = [Role::FieldDecl, Role::MethodDecl];
    w.units("names of members", (NAMES.len() * 2) as u64, (NAMES.len() * 2) as u64, |w, _, k| {
        let (name, role) = (NAMES[k as usize / 2], roles[k as usize % 2]);
        for major in [45, 50, 51, 52, 65] {
            for flags in [0x21, 0x200] {
                for d in ["I", "()V", "()I", "(I)V", "V", ""] {
                    let b = in_role(major, flags, role, &text::encode(name), d.as_bytes());
                    w.judge(&b, true, &format!("{role:?} {name:?} {d:?}"), true);
                }
            }
        }
    });
    near_special(w, &roles);
    w.units("random names of members", 5000, 300_000, |w, r, k| {
        let role = roles[k as usize % 2];
        for _ in 0..4 {
            let mut n = text::encode(&generate::name(r, 30, role == Role::MethodDecl));
            let d = if role == Role::MethodDecl { generate::method_desc(r, 20) } else { generate::field_desc(r, 20) };
            let mut d = text::encode(&d);
            match r.below(3) {
                0 => n = mutate::text_body(r, &n),
                1 => d = mutate::text_body(r, &d),
                _ => {}
            }
            let b = in_role(45 + r.below(21) as u16, *r.pick(&[0x21, 0x200]), role, &n, &d);
            w.judge(&b, true, &format!("{role:?}"), true);
        }
    });
    // Modules: every rule alone and together.
    w.units("modules", 20_000, 1_000_000, |w, r, k| {
        let flags = match k % 4 {
            0 => 0x8000u16,
            1 => 0x8000 | 1 << (k / 4 % 16),
            2 => 1 << (k / 4 % 16),
            _ => 0x8000 | r.u16(),
        };
        let odd = |r: &mut Rng| r.one_in(6);
        let major = if r.one_in(4) { 44 + r.below(24) as u16 } else { 53 + r.below(13) as u16 };
        let mut p = Raw::new(major);
        let (n, fd, md) = (p.utf8(b"n"), p.utf8(b"I"), p.utf8(b"()V"));
        let c = p.class(if r.one_in(4) { "A" } else { "module-info" });
        p.u2(flags).u2(c);
        let sup = if odd(r) { c } else { 0 };
        p.u2(sup);
        if odd(r) {
            p.u2(1).u2(c);
        } else {
            p.u2(0);
        }
        if odd(r) {
            p.u2(1).u2(0).u2(n).u2(fd).u2(0);
        } else {
            p.u2(0);
        }
        if odd(r) {
            p.u2(1).u2(0).u2(n).u2(md).u2(0);
        } else {
            p.u2(0);
        }
        p.u2(0);
        w.judge(&p.bytes(), true, &format!("flags {flags:#x} version {major}"), true);
    });
    sweep(w, "members", 4000, 200_000, 12, |r| Cfg { fields: r.small(8), methods: r.small(8), attrs: 0, interfaces: 1, shape: *r.pick(&[Shape::Class, Shape::Interface]), ..no_code(cfg(r)) }, |m| {
        matches!(m.site, "field.name" | "field.descriptor" | "method.name" | "method.descriptor" | "class.access" | "major" | "super_class" | "field.access" | "method.access")
    });
    generated(w, "classes with many members", 4000, 200_000, true, |r| Cfg { fields: r.small(25), methods: r.small(25), attrs: 1, shape: Shape::Class, ..no_code(cfg(r)) });
    generated(w, "modules", 2000, 100_000, true, |r| Cfg { shape: Shape::Module, major: 53 + r.below(13) as u16, ..cfg(r) });
}

// ---------------------------------------------------------------- C14

/// The n-th string over an alphabet, shortest first.
fn word(mut k: u64, alphabet: &[u8]) -> Vec<u8> {
    let n = alphabet.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while k >= count {
        k -= count;
        count *= n;
        len += 1;
    }
    (0..len)
        .map(|_| {
            let c = alphabet[(k % n) as usize];
            k /= n;
            c
        })
        .collect()
}

/// Where descriptors and class names stand in a class file.
const DESC_PLACES: usize = 16;
fn desc_place(place: usize, t: &[u8]) -> Vec<u8> {
    let mut p = Raw::new(65);
    let x = p.utf8(t);
    let (n, md, cn) = (p.utf8(b"n"), p.utf8(b"()V"), p.class("C"));
    let attr = |p: &mut Raw, name: &str, body: &[u16]| {
        let a = p.utf8(name.as_bytes());
        let b: Vec<u8> = body.iter().flat_map(|x| x.to_be_bytes()).collect();
        p.u2(1).attr(a, &b);
    };
    let class_attr = |p: &mut Raw, name: &str, body: &[u16]| {
        p.u2(1).u2(cn).u2(cn).u2(0).u2(0).u2(0);
        attr(p, name, body);
    };
    let empty = |p: &mut Raw| {
        p.u2(1).u2(cn).u2(cn).u2(0).u2(0).u2(0).u2(0);
    };
    match place {
        0 => {
            p.u2(1).u2(cn).u2(cn).u2(0).u2(1).u2(0).u2(n).u2(x).u2(0).u2(0).u2(0);
        }
        1 => {
            p.u2(1).u2(cn).u2(cn).u2(0).u2(0).u2(1).u2(0).u2(n).u2(x).u2(0).u2(0);
        }
        2 => {
            p.e1(7, x);
            empty(&mut p);
        }
        3 => {
            let c = p.e1(7, x);
            p.u2(1).u2(c).u2(cn).u2(0).u2(0).u2(0).u2(0);
        }
        4 => {
            let c = p.e1(7, x);
            p.u2(1).u2(cn).u2(c).u2(1).u2(c).u2(0).u2(0).u2(0);
        }
        5..=7 => {
            let nt = p.e2(12, n, x);
            p.e2([9, 10, 11][place - 5], cn, nt);
            empty(&mut p);
        }
        8 => {
            p.e1(16, x);
            empty(&mut p);
        }
        9 => class_attr(&mut p, "RuntimeVisibleAnnotations", &[1, x, 0]),
        10 => class_attr(&mut p, "Record", &[1, n, x, 0]),
        11 => {
            let nt = p.e2(12, n, x);
            class_attr(&mut p, "EnclosingMethod", &[cn, nt]);
        }
        12 => {
            // A class as an annotation value: a return descriptor.
            let a = p.utf8(b"AnnotationDefault");
            let b = [b'c', (x >> 8) as u8, x as u8];
            p.u2(1).u2(cn).u2(cn).u2(0).u2(0).u2(1).u2(0).u2(n).u2(md).u2(1).attr(a, &b);
            p.u2(0);
        }
        13 => {
            let a = p.utf8(b"AnnotationDefault");
            let b = [b'e', (x >> 8) as u8, x as u8, (n >> 8) as u8, n as u8];
            p.u2(1).u2(cn).u2(cn).u2(0).u2(0).u2(1).u2(0).u2(n).u2(md).u2(1).attr(a, &b);
            p.u2(0);
        }
        14 => {
            let c = p.e1(7, x);
            let op = [0xbd, (c >> 8) as u8, c as u8, 0xc0, (c >> 8) as u8, c as u8];
            p.method(&op);
        }
        _ => {
            // A local variable.
            let (code, lvt) = (p.utf8(b"Code"), p.utf8(b"LocalVariableTable"));
            let mut t = vec![];
            for v in [1u16, 0, 0, n, x, 0] {
                t.extend(v.to_be_bytes());
            }
            p.u2(1).u2(cn).u2(cn).u2(0).u2(0).u2(1).u2(0).u2(n).u2(md).u2(1);
            p.u2(code).u4(13 + 6 + t.len() as u32).u2(0).u2(0).u4(1).u1(0xb1).u2(0).u2(1).attr(lvt, &t);
            p.u2(0);
        }
    }
    p.bytes()
}

fn name_direct(w: &mut W, t: &str) {
    w.enter(t.as_bytes(), "ClassName::try_from");
    w.seen(t.as_bytes(), 77);
    let good = text::is_binary_name(t);
    for owned in [false, true] {
        let r = sut(|| {
            let c: Cow<str> = if owned { Cow::Owned(t.to_string()) } else { Cow::Borrowed(t) };
            match cafebabe::descriptors::ClassName::try_from(c) {
                Ok(n) => {
                    let shown = n.to_string();
                    let deref = n.len() == t.len() && &*n == t;
                    let back: Cow<str> = n.into();
                    Ok(shown == t && deref && back == t)
                }
                Err(e) => Err(e.to_string()),
            }
        });
        match r {
            Ok(Ok(true)) if good => w.stat("names accepted", 1),
            Ok(Err(_)) if !good => w.stat("names refused", 1),
            Ok(Ok(false)) => w.violate(t.as_bytes(), "name altered", &format!("ClassName::try_from({t:?}) shows another name")),
            Ok(Ok(true)) => w.violate(t.as_bytes(), "name accepted", &format!("ClassName::try_from({t:?}) accepted it")),
            Ok(Err(e)) => w.violate(t.as_bytes(), "name refused", &format!("ClassName::try_from({t:?}) refused it: {e}")),
            Err(p) => w.violate(t.as_bytes(), "panic", &format!("ClassName::try_from({t:?}) panicked: {p}")),
        }
    }
}

pub fn c14(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::FalseAccept => matches!(e.cat, Some(Cat::Desc)),
        Kind::Wrong => e.path.contains("Desc") || e.path.contains(".this") || e.path.contains(".super") || e.path.contains("interfaces"),
        Kind::Panic => true,
        _ => false,
    };
    jdk(w, 400, 26_600, |w, _, b| {
        w.judge(b, true, "JDK class", false);
    });
    code_points(w);
    // All short strings in every place.
    let alphabet = b"BVL[;/()aI.";
    let upto = |n: u32| (0..=n).map(|k| (alphabet.len() as u64).pow(k)).sum::<u64>();
    let n = if w.thorough { upto(5) } else { upto(4) };
    w.units("all short strings everywhere", n, n, |w, _, k| {
        let t = word(k, alphabet);
        for place in 0..DESC_PLACES {
            w.judge(&desc_place(place, &t), true, &format!("{:?} at place {place}", String::from_utf8_lossy(&t)), true);
        }
        name_direct(w, std::str::from_utf8(&t).unwrap());
    });
    // Longer ones where grammar is richest.
    let few = b"VL[;/()aI";
    let upto = |n: u32| (0..=n).map(|k| (few.len() as u64).pow(k)).sum::<u64>();
    let (quick, thorough) = (upto(6), upto(7));
    // No more than that in the quick tier.
    let quick = if w.thorough { thorough } else { quick };
    w.units("all longer strings", quick / 4 + 1, quick / 4 + 1, |w, r, k| {
        // A quarter of them is enough of a unit; all are covered.
        for j in 0..4 {
            let t = word(k * 4 + j, few);
            let place = match r.below(3) {
                0 => 0,
                1 => 1,
                _ => *r.pick(&[2, 12, 5, 6]),
            };
            w.judge(&desc_place(place, &t), true, &format!("{:?} at place {place}", String::from_utf8_lossy(&t)), true);
            name_direct(w, std::str::from_utf8(&t).unwrap());
        }
    });
    w.units("descriptors of all sorts", 14000, 900_000, |w, r, k| {
        let exotic = *r.pick(&[0, 20, 60]);
        let t = match r.below(3) {
            0 => generate::field_desc(r, exotic),
            1 => generate::method_desc(r, exotic),
            _ => generate::binary_name(r, exotic),
        };
        let mut t = text::encode(&t);
        for _ in 0..r.below(3) {
            t = mutate::text_body(r, &t);
        }
        let place = k as usize % DESC_PLACES;
        w.judge(&desc_place(place, &t), true, &format!("place {place}"), true);
        if let (text::Text::Str(s), _) = text::decode(&t) {
            name_direct(w, &s);
        }
    });
    w.units("dimensions", 600, 5000, |w, r, k| {
        let dims = match k as usize % 320 {
            n @ 0..=300 => n,
            n => [254usize, 255, 256, 257, 510, 511, 512, 513, 1000, 32767, 65000][n % 11],
        };
        let e = *r.pick(&["I", "La;", "La/b;", "V", "", "B", "Lé;", "J"]);
        let arr = format!("{}{e}", "[".repeat(dims));
        let t = match r.below(5) {
            0 => arr,
            1 => format!("({arr})V"),
            2 => format!("(I){arr}"),
            3 => format!("(J{arr}La;[[I)I"),
            _ => format!("({arr}{arr}){arr}"),
        };
        if t.len() > 65535 {
            return;
        }
        let t = text::encode(&t);
        for place in 0..DESC_PLACES {
            w.judge(&desc_place(place, &t), true, &format!("{dims} dimensions at place {place}"), true);
        }
    });
    w.units("names and descriptors listed", (NAMES.len() + DESCS.len()) as u64, (NAMES.len() + DESCS.len()) as u64, |w, _, k| {
        let t = NAMES.iter().chain(DESCS.iter()).nth(k as usize).unwrap();
        for place in 0..DESC_PLACES {
            w.judge(&desc_place(place, &text::encode(t)), true, &format!("{t:?} at place {place}"), true);
        }
        name_direct(w, t);
    });
    // All single characters within a name.
    w.units("characters in names", 0x300, 0x11000, |w, r, k| {
        let Some(c) = char::from_u32(if k < 0x280 { k as u32 } else { r.below(0x110000) as u32 }) else { return };
        for t in [format!("{c}"), format!("a{c}"), format!("{c}/b"), format!("a/{c}b"), format!("L{c};"), format!("[La{c}/b;"), format!("(La/{c};)V")] {
            for place in [0, 1, 2, 3, 12] {
                w.judge(&desc_place(place, &text::encode(&t)), true, &format!("{t:?} at place {place}"), true);
            }
            name_direct(w, &t);
        }
    });
    w.units("long descriptors", 60, 2000, |w, r, k| {
        let b = hostile::make("long descriptors", k, r);
        w.judge(&b, true, "long", true);
    });
    sweep(w, "descriptors within classes", 3000, 200_000, 12, |r| Cfg { exotic: *r.pick(&[0, 30]), attrs: 3, insns: 6, ..cfg(r) }, |m| m.what == What::Utf8);
    w.units("values compared", 3000, 150_000, |w, r, _| {
        let c = Cfg { exotic: *r.pick(&[0, 40, 100]), fields: 2 + r.small(6), methods: 2 + r.small(6), interfaces: r.small(5), shape: Shape::Class, attrs: 0, extra: 15, ..no_code(cfg(r)) };
        let b = generate::class(r, c);
        compared(w, &b, "values compared");
    });
    generated(w, "classes full of descriptors", 3000, 150_000, true, |r| Cfg { exotic: *r.pick(&[0, 40]), fields: r.small(8), methods: r.small(8), shape: Shape::Class, extra: 15, ..no_code(cfg(r)) });
}

/// Names and descriptors are equal exactly when their texts are, wherever those lie, and copies
/// are like the originals.
fn compared(w: &mut W, b: &[u8], note: &str) {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    fn pairs<T: Hash + Eq + Clone + std::fmt::Display + std::fmt::Debug>(list: &[&T], bad: &mut Option<String>) -> u64 {
        let h = |x: &T| {
            let mut h = DefaultHasher::new();
            x.hash(&mut h);
            h.finish()
        };
        let mut n = 0;
        for x in list.iter().take(24) {
            let y = (*x).clone();
            if y != **x || y.to_string() != x.to_string() || h(&y) != h(x) || format!("{y:?}") != format!("{x:?}") {
                *bad = Some(format!("a copy of {x} is unlike it"));
            }
            for y in list.iter().take(24) {
                n += 1;
                let same = x.to_string() == y.to_string();
                if (x == y) != same || (same && h(x) != h(y)) {
                    *bad = Some(format!("{x} and {y} count as {}", if x == y { "equal" } else { "different" }));
                }
            }
        }
        n
    }
    w.enter(b, note);
    w.seen(b, 0);
    let found = sut(|| {
        let Ok(c) = parse(b, true) else { return (0, None) };
        // The same again from other memory, and re-encoded where possible.
        let again = b.to_vec();
        let Ok(d) = parse(&again, true) else { return (0, Some("refused the second time".to_string())) };
        let mut bad = None;
        let mut n = 0;
        let mut names = vec![];
        for c in [&c, &d] {
            names.push(&c.this_class);
            names.extend(c.super_class.iter());
            names.extend(c.interfaces.iter());
        }
        let owned: Vec<cafebabe::descriptors::ClassName> = names.iter().filter_map(|x| cafebabe::descriptors::ClassName::try_from(std::borrow::Cow::Owned(x.to_string())).ok()).collect();
        names.extend(owned.iter());
        n += pairs(&names, &mut bad);
        for (x, y) in names.iter().zip(names.iter().rev()) {
            if x.cmp(y) != x.to_string().cmp(&y.to_string()) {
                bad = Some(format!("{x} and {y} are in another order than their texts"));
            }
            let t: std::borrow::Cow<str> = (*x).clone().into();
            if *t != ***x || t != x.to_string() {
                bad = Some(format!("{x} turned back into text is {t}"));
            }
        }
        let f: Vec<_> = c.fields.iter().chain(&d.fields).map(|x| &x.descriptor).collect();
        n += pairs(&f, &mut bad);
        let m: Vec<_> = c.methods.iter().chain(&d.methods).map(|x| &x.descriptor).collect();
        n += pairs(&m, &mut bad);
        let p: Vec<_> = m.iter().flat_map(|x| &x.parameters).chain(f.iter().copied()).collect();
        n += pairs(&p, &mut bad);
        let q: Vec<_> = m.iter().map(|x| &x.return_type).collect();
        n += pairs(&q, &mut bad);
        (n, bad)
    });
    match found {
        Ok((n, bad)) => {
            w.stat("pairs of names and descriptors compared", n);
            if let Some(x) = bad {
                w.violate(b, "compared", &format!("{note}: {x}"));
            }
        }
        Err(p) => w.violate(b, "panic", &format!("{note}: panicked: {p}")),
    }
}

// ---------------------------------------------------------------- C15

/// One sequence of bytes of a kind: legal in modified UTF-8, legal elsewhere only, or nowhere.
fn sequence(r: &mut Rng, kind: usize, f: &mut Vec<u8>) {
    let low = |r: &mut Rng| 0x80 | r.below(0x40) as u8;
    match kind {
        // As standard UTF-8 has characters beyond the basic plane.
        0 => {
            let c = char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap();
            f.extend(c.to_string().as_bytes());
        }
        1 => text::encode_unit(0x80 + r.below(0x780) as u16, f),
        2 => text::encode_unit(*r.pick(&[0x800, 0x20ac, 0x65e5, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff]), f),
        3 => {
            text::encode_unit(0xd800 + r.below(0x400) as u16, f);
            text::encode_unit(0xdc00 + r.below(0x400) as u16, f);
        }
        4 => f.extend([0xc0, 0x80]),
        5 => f.push(1 + r.below(0x7f) as u8),
        6 => text::encode_unit(0xd800 + r.below(0x400) as u16, f),
        7 => text::encode_unit(0xdc00 + r.below(0x400) as u16, f),
        8 => {
            text::encode_unit(0xdc00 + r.below(0x400) as u16, f);
            text::encode_unit(0xd800 + r.below(0x400) as u16, f);
        }
        // Longer than need be.
        9 => f.extend([0xc0 + r.below(2) as u8, low(r)]),
        10 => f.extend([0xe0, 0x80 | r.below(0x20) as u8, low(r)]),
        _ => match r.below(5) {
            0 => f.push(0),
            1 => f.push(low(r)),
            2 => f.push(0xc2 + r.below(0x1e) as u8),
            3 => f.extend([0xe1 + r.below(0xf) as u8, low(r)]),
            _ => f.push(0xf5 + r.below(11) as u8),
        },
    }
}

pub fn c15(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::FalseAccept => matches!(e.cat, Some(Cat::Text)),
        Kind::Wrong => e.msg.contains('"') || e.path.contains("Str"),
        Kind::Copied | Kind::Panic => true,
        _ => false,
    };
    jdk(w, 1500, 26_600, |w, _, b| {
        w.judge(b, true, "JDK class", true);
    });
    code_points(w);
    // Every code unit alone, between others, doubled; in a literal and as a name.
    w.units("every code unit", 0x10000 / 64, 0x10000 / 16, |w, r, k| {
        let per = if w.thorough { 16 } else { 64 };
        let mut p = Raw::new(65);
        for j in 0..per {
            let c = (k * per + j) as u16;
            let mut e = vec![];
            text::encode_unit(c, &mut e);
            let mut forms = vec![e.clone(), [b"a".as_slice(), &e, b"z"].concat()];
            if j % 4 == 0 {
                // After a high surrogate, and before a low one.
                let mut h = vec![];
                text::encode_unit(0xd800 + r.below(0x400) as u16, &mut h);
                let mut l = vec![];
                text::encode_unit(0xdc00 + r.below(0x400) as u16, &mut l);
                forms.push([h.clone(), e.clone()].concat());
                forms.push([e.clone(), l.clone()].concat());
                forms.push([h, l, e.clone(), b"\xc3\xa9".to_vec()].concat());
            }
            for f in forms {
                let x = p.utf8(&f);
                p.e1(8, x);
                if !(0xd800..0xe000).contains(&c) && j % 8 == 0 && f.len() < 4 {
                    p.e1(if c % 2 == 0 { 8 } else { 7 }, x);
                }
            }
        }
        p.empty();
        w.judge(&p.bytes(), true, "code units", true);
        w.stat("code units encoded", per);
    });
    // Each byte pair and triple that might be taken for a character.
    w.units("byte sequences", 4096, 400_000, |w, r, k| {
        let lead = [0x00u8, 0x01, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf4, 0xff];
        let cont = [0x00u8, 0x7f, 0x80, 0x81, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xff];
        let mut f = vec![];
        if r.one_in(2) {
            f.extend(b"ok");
        }
        if k < 2048 {
            f.push(lead[k as usize % lead.len()]);
            f.push(cont[(k as usize / lead.len()) % cont.len()]);
            f.push(cont[r.below(cont.len())]);
            f.truncate(f.len() - r.below(3));
        } else {
            for _ in 0..1 + r.below(7) {
                f.push(if r.one_in(2) { *r.pick(&lead) } else { *r.pick(&cont) });
            }
        }
        if r.one_in(2) {
            f.extend(b"end");
        }
        for role in [Role::Str, Role::Class, Role::NtOnly, Role::Field, Role::FieldDecl, Role::Module, Role::Package] {
            let b = in_role(65, 0x21, role, &f, b"I");
            w.judge(&b, true, &format!("{role:?} {f:02x?}"), true);
        }
        let b = in_role(65, 0x21, Role::Method, b"n", &[b"(L".as_slice(), &f, b";)V"].concat());
        w.judge(&b, true, &format!("descriptor with {f:02x?}"), true);
        // As the name of an attribute, in SourceDebugExtension, as an annotation's string.
        let mut p = Raw::new(65);
        let (x, sde, src) = (p.utf8(&f), p.utf8(b"SourceDebugExtension"), p.utf8(b"SourceFile"));
        p.head().u2(0).u2(0).u2(1);
        match r.below(3) {
            0 => p.attr(x, b"raw"),
            1 => p.attr(sde, &f),
            _ => p.attr(src, &x.to_be_bytes()),
        };
        w.judge(&p.bytes(), true, &format!("attribute text {f:02x?}"), true);
    });
    // Texts put together of whole sequences, legal and not, of one kind and of many.
    w.units("sequences together", 3000, 200_000, |w, r, _| {
        const ONLY: [&[usize]; 11] = [&[0], &[1], &[2], &[3], &[4], &[5], &[6, 7, 8], &[9, 10], &[0, 1], &[0, 2, 3, 4], &[2, 3, 5]];
        let mut texts = vec![];
        for _ in 0..60 {
            let kinds: Vec<usize> = match r.below(3) {
                0 => r.pick(&ONLY).to_vec(),
                1 => vec![r.below(12), r.below(12)],
                _ => (0..12).collect(),
            };
            let mut f = vec![];
            for _ in 0..1 + up_to(r, &[1, 2, 5, 12]) {
                let kind = *r.pick(&kinds);
                sequence(r, kind, &mut f);
            }
            texts.push(f);
        }
        let mut p = Raw::new(65);
        for f in &texts {
            let x = p.utf8(f);
            p.e1(8, x);
        }
        p.empty();
        w.judge(&p.bytes(), true, "sequences as literals", true);
        for f in texts.iter().take(4) {
            let role = *r.pick(&ROLES);
            let b = in_role(65, 0x21, role, f, &[b"(L".as_slice(), f, b";)V"].concat());
            w.judge(&b, true, &format!("sequences as {role:?}"), true);
        }
        w.stat("texts put together", 60);
    });
    let make = |r: &mut Rng| Cfg { exotic: *r.pick(&[0, 40, 90]), extra: 15, attrs: 4, insns: 6, ..cfg(r) };
    generated(w, "unusual text", 6000, 300_000, true, make);
    generated(w, "plain text", 2000, 100_000, true, |r| Cfg { exotic: 0, attrs: 4, ..cfg(r) });
    sweep(w, "text changed", 5000, 250_000, 12, make, |m| matches!(m.what, What::Utf8));
    sweep(w, "texts exchanged", 2500, 100_000, 12, make, |m| m.what == What::CpRef && m.allowed & reference::kind::UTF8 != 0);
    hostiles(w, &["bad text"], 0, 8000, 400_000, |w, b, f| {
        w.judge(b, true, f, true);
    });
    // Long texts, plain and not, all lengths around powers of two.
    w.units("long text", 200, 4000, |w, r, k| {
        let n = [1usize, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1000, 4095, 4096, 32767, 32768, 65533, 65535][k as usize % 25];
        let mut f = vec![b'x'; n];
        match r.below(5) {
            0 => {}
            1 => f[n - 1] = 0x80,
            2 => f[r.below(n)] = *r.pick(&[0, 0x80, 0xc0, 0xff]),
            _ => {
                let mut e = vec![];
                for _ in 0..2 {
                    text::encode_unit(*r.pick(&[0, 0xe9, 0x800, 0xffff, 0xd7ff, 0xe000]), &mut e);
                }
                if e.len() <= n {
                    let p = r.below(n - e.len() + 1);
                    f.splice(p..p + e.len(), e);
                }
            }
        }
        for role in [Role::Str, Role::Class, Role::FieldDecl] {
            w.judge(&in_role(65, 0x21, role, &f, b"I"), true, &format!("{role:?} of {n} bytes"), true);
        }
    });
}

// ---------------------------------------------------------------- C16

/// The same input with and without decoding.
pub fn on_off(w: &mut W, b: &[u8], note: &str) {
    let (on_ref, on) = w.judge(b, true, note, false);
    let (off_ref, off) = w.judge(b, false, note, false);
    let (Ok(on), Ok(off)) = (&on, &off) else {
        // A panic in one alone is a difference.
        if on.is_err() != off.is_err() {
            w.violate(b, "panic", &format!("{note}: panicked only with decoding {}", if on.is_err() { "on" } else { "off" }));
        }
        return;
    };
    // The plain function decodes.
    let plain = sut(|| {
        let mut a = crate::adapt::Adapter::new(b);
        match cafebabe::parse_class(b) {
            Ok(c) => {
                let t = a.class(&c);
                let p = a.pool(&c);
                Ok((t, p))
            }
            Err(e) => Err(e.to_string()),
        }
    });
    match plain {
        Ok(p) if p == on.result => {}
        Ok(_) => w.violate(b, "default", &format!("{note}: parse_class differs from parsing with decoding on")),
        Err(p) => w.violate(b, "panic", &format!("{note}: panicked: {p}")),
    }
    let fresh = sut(|| {
        let mut a = crate::adapt::Adapter::new(b);
        match cafebabe::parse_class_with_options(b, &cafebabe::ParseOptions::default()) {
            Ok(c) => {
                let t = a.class(&c);
                let p = a.pool(&c);
                Ok((t, p))
            }
            Err(e) => Err(e.to_string()),
        }
    });
    match fresh {
        Ok(p) if p == on.result => {}
        Ok(_) => w.violate(b, "default", &format!("{note}: the default options differ from decoding on")),
        Err(p) => w.violate(b, "panic", &format!("{note}: panicked: {p}")),
    }
    match (&on.result, &off.result) {
        (Ok(a), Ok(z)) => {
            w.stat("accepted both ways", 1);
            for d in value::diff(&strip(&a.0), &strip(&z.0), 4).into_iter().chain(value::diff(&value::V::L(a.1.clone()), &value::V::L(z.1.clone()), 2)) {
                w.violate(b, &d.path, &format!("{note}: {} is {} with decoding on and {} with it off", d.path, d.expected, d.observed));
            }
            let (mut decoded, mut missing, mut present) = (0, 0, 0);
            a.0.walk(&mut |v| {
                if v.tag() == "Code" {
                    if *v.get("insns") == value::V::None {
                        missing += 1;
                    } else {
                        decoded += 1;
                    }
                }
            });
            z.0.walk(&mut |v| {
                if v.tag() == "Code" && *v.get("insns") != value::V::None {
                    present += 1;
                }
            });
            w.stat("code attributes decoded", decoded);
            if missing > 0 {
                w.violate(b, "missing", &format!("{note}: {missing} code attributes not decoded with decoding on"));
            }
            if present > 0 {
                w.violate(b, "present", &format!("{note}: {present} code attributes decoded with decoding off"));
            }
        }
        (Ok(_), Err(e)) => w.violate(b, "off stricter", &format!("{note}: accepted with decoding on, refused with it off: {e}")),
        (Err(e), Ok(_)) => {
            w.stat("refused only when decoding", 1);
            // Then it must be the code.
            if on_ref.info.lenient.is_empty() {
                match &on_ref.result {
                    Err(r) if matches!(r.cat, Cat::Code | Cat::Branch) || off_ref.result.is_ok() => {}
                    Err(r) if r.cat == Cat::TooDeep => {}
                    _ => w.violate(b, "on stricter", &format!("{note}: refused only with decoding on, though its code is well-formed: {e}")),
                }
            }
        }
        (Err(x), Err(y)) => {
            w.stat("refused both ways", 1);
            // The same fault outside code is reported either way.
            if let (Err(p), Err(q)) = (&on_ref.result, &off_ref.result) {
                if p.cat == q.cat && p.at == q.at && p.msg == q.msg && !matches!(p.cat, Cat::Code | Cat::Branch | Cat::TooDeep) && x != y && !x.contains("opcode") {
                    w.violate(b, "errors", &format!("{note}: the error is {x:?} with decoding on and {y:?} with it off"));
                }
            }
        }
    }
    // Faults outside code are refused either way; well-formed classes accepted either way.
    for (bytecode, o, g) in [(true, &on_ref, on), (false, &off_ref, off)] {
        if !o.info.lenient.is_empty() {
            continue;
        }
        match (&o.result, &g.result) {
            (Ok(_), Err(e)) => w.violate(b, "refused", &format!("{note}, decoding {bytecode}: a well-formed class was refused: {e}")),
            (Err(r), Ok(_)) if r.cat != Cat::TooDeep => w.violate(b, "accepted", &format!("{note}, decoding {bytecode}: accepted, though faulty: {:?} {}", r.cat, r.msg)),
            _ => {}
        }
    }
}

fn strip(v: &value::V) -> value::V {
    use value::V;
    match v {
        V::L(x) => V::L(x.iter().map(strip).collect()),
        V::T(n, f) => V::T(n, f.iter().map(|(k, x)| (*k, if *n == "Code" && *k == "insns" { V::None } else { strip(x) })).collect()),
        x => x.clone(),
    }
}

pub fn c16(w: &mut W) {
    w.mine = |e| e.kind == Kind::Panic;
    jdk(w, 1000, 26_600, |w, _, b| on_off(w, b, "JDK class"));
    damaged(w, 5000, 250_000, 5, cfg, on_off);
    hostiles(w, &["code noise", "switch extremes", "branch extremes", "attribute noise", "nested attributes", "tiny", "pool noise", "bad text"], 20, 2500, 150_000, on_off);
    w.units("one fault in or out of code", 5000, 250_000, |w, r, _| {
        let mut c = cfg(r);
        c.methods = if c.shape == Shape::Module { 0 } else { 1 + r.small(4) };
        c.code = 90;
        c.insns = 8;
        c.nest = 3;
        c.misplaced = *r.pick(&[0, 0, 40]);
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        for _ in 0..8 {
            let inside = r.one_in(2);
            let code = |m: &Mark| o.info.code_spans.iter().any(|s| s.0 <= m.pos && m.pos < s.0 + s.1);
            let Some(m) = mutate::pick_mark(r, &o.info, |m| code(m) == inside && m.what != What::Code) else { return };
            let x = mutate::fault(r, &b, &o.info, m);
            on_off(w, &x, &format!("{} changed", m.site));
        }
    });
    // Code of any length, in the first method and in others.
    w.units("long code", 48, 600, |w, r, k| {
        let n = [255usize, 256, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 200_000, 1_000_000][k as usize % 12];
        let mut code: Vec<u8> = match r.below(4) {
            0 => vec![0; n],
            1 => (0..n).map(|k| 1 + (k % 8) as u8).collect(),
            2 => [0x11u8, 0x7f, 0xfe].iter().copied().cycle().take(n / 3 * 3).collect(),
            _ => (0..n).map(|k| if k % 2 == 0 { 0x10 } else { k as u8 }).take(n / 2 * 2).collect(),
        };
        if r.one_in(4) {
            let at = r.below(code.len());
            code[at] = *r.pick(&[0xcb, 0xc8, 0xa7, 0xfe, 0xc4, 0xb2]);
        }
        let mut p = Raw::new(*r.pick(&[45, 50, 51, 65]));
        p.method(&code);
        on_off(w, &p.bytes(), &format!("code of {n} bytes"));
        w.stat("long code arrays", 1);
    });
    // Code within the attributes of code, and in records.
    w.units("deep nesting", 900, 40_000, |w, r, k| {
        let b = refmodel::deep::class(r, k);
        on_off(w, &b, "deep");
        let o = reference::parse_marked(&b, true);
        for _ in 0..3 {
            let Some(m) = mutate::pick_mark(r, &o.info, |_| true) else { return };
            let x = mutate::fault(r, &b, &o.info, m);
            on_off(w, &x, &format!("deep, {} changed", m.site));
        }
    });
    // Options set more than once, and used more than once: what was set last holds.
    w.units("options", 2000, 60_000, |w, r, _| {
        let c = cfg(r);
        let b = generate::class(r, c);
        w.enter(&b, "options");
        let (Ok(on), Ok(off)) = (observe(&b, true), observe(&b, false)) else { return };
        let mut o = cafebabe::ParseOptions::default();
        let mut last = true;
        for _ in 0..4 {
            for _ in 0..r.below(4) {
                last = r.one_in(2);
                if r.one_in(2) {
                    o.parse_bytecode(!last).parse_bytecode(last);
                } else {
                    o.parse_bytecode(last);
                }
            }
            let expected = if last { &on } else { &off };
            let now = sut(|| {
                let mut a = crate::adapt::Adapter::new(&b);
                match cafebabe::parse_class_with_options(&b, &o) {
                    Ok(c) => Ok(a.class(&c)),
                    Err(e) => Err(e.to_string()),
                }
            });
            w.stat("parses with options set several times", 1);
            w.seen(&b, last as u64);
            match (now, &expected.result) {
                (Ok(Ok(x)), Ok(y)) if x == y.0 => {}
                (Ok(Err(x)), Err(y)) if x == *y => {}
                (Err(p), _) => w.violate(&b, "options", &format!("options set several times, last to {last}: panicked: {p}")),
                _ => w.violate(&b, "options", &format!("options set several times, last to {last}: the outcome is not that of options set to {last}")),
            }
        }
    });
    w.units("two faults", 2500, 120_000, |w, r, _| {
        let mut c = cfg(r);
        c.methods = if c.shape == Shape::Module { 0 } else { 1 + r.small(4) };
        c.insns = 8;
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        let code = |m: &Mark| o.info.code_spans.iter().any(|s| s.0 <= m.pos && m.pos < s.0 + s.1) && m.what != What::Code;
        for _ in 0..5 {
            let Some(m) = mutate::pick_mark(r, &o.info, code) else { return };
            let Some(n) = mutate::pick_mark(r, &o.info, |m| !code(m) && !matches!(m.what, What::Utf8 | What::Code | What::AttrLen)) else { return };
            let x = mutate::fault(r, &b, &o.info, m);
            let x = mutate::fault(r, &x, &o.info, n);
            on_off(w, &x, &format!("{} and {} changed", m.site, n.site));
        }
    });
}

// ---------------------------------------------------------------- C19

pub fn c19(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::Wrong => e.path.contains(".access") || e.path.contains(".flags"),
        Kind::FalseAccept => matches!(e.cat, Some(Cat::Flags)),
        Kind::Panic => true,
        _ => false,
    };
    jdk(w, 500, 26_600, |w, _, b| {
        w.judge(b, false, "JDK class", false);
    });
    // Every word for a field, a method and an inner class, 1024 to a class; what else
    // the member or the class carries differs each time.
    w.units("every word, members and inner classes", 64, 64 * 16, |w, r, k| {
        let words: Vec<u16> = (0..1024).map(|j| ((k % 64) * 1024 + j) as u16).collect();
        let plain = k < 64;
        let mut p = Raw::new(if plain { *r.pick(&[45, 52, 65]) } else { any_version(r) });
        let fd: Vec<u16> = (0..32).map(|j| if plain || j % 4 == 0 { p.utf8(format!("La{j};").as_bytes()) } else { p.utf8(format!("{}{}", "[".repeat(j), *r.pick(&["I", "J", "Z", "D"])).as_bytes()) }).collect();
        let md: Vec<u16> = (0..32).map(|j| p.utf8(format!("({})V", "I".repeat(j)).as_bytes())).collect();
        let n: Vec<u16> = (0..32).map(|j| p.utf8(format!("n{j}").as_bytes())).collect();
        let init = p.utf8(b"<init>");
        let clinit = p.utf8(b"<clinit>");
        let inner = p.utf8(b"InnerClasses");
        let marks: Vec<u16> = [&b"Synthetic"[..], b"Deprecated", b"Unheard"].iter().map(|x| p.utf8(x)).collect();
        let (sig, exc, cv) = (p.utf8(b"Signature"), p.utf8(b"Exceptions"), p.utf8(b"ConstantValue"));
        let c = p.class("In");
        let d = p.class("Out");
        let seven = p.entry(&[3, 0, 0, 0, 7]);
        let int = p.utf8(b"I");
        let flags = r.u16() & 0x7fff;
        if plain {
            p.head();
        } else {
            p.u2(flags).u2(c).u2(if r.one_in(4) { 0 } else { d });
            let i = r.below(3);
            p.u2(i as u16);
            for _ in 0..i {
                p.u2(d);
            }
        }
        for methods in [false, true] {
            p.u2(1024);
            for (j, f) in words.iter().enumerate() {
                let mut name = n[j % 32];
                let mut desc = if methods { md[j / 32] } else { fd[j / 32] };
                let mut attrs: Vec<(u16, Vec<u8>)> = vec![];
                if !plain {
                    if methods && flags & 0x200 == 0 && r.one_in(8) {
                        // Each <init> has a descriptor of its own, and there is one <clinit>.
                        name = init;
                        desc = p.utf8(format!("({})V", "L".to_string() + &"a".repeat(j + 1) + ";").as_bytes());
                    } else if methods && j == 1023 {
                        name = clinit;
                        desc = md[0];
                    }
                    if r.one_in(3) {
                        attrs.push((*r.pick(&marks), vec![]));
                    }
                    if r.one_in(8) && name != clinit {
                        attrs.push((sig, n[0].to_be_bytes().to_vec()));
                    }
                    if methods && r.one_in(8) {
                        attrs.push((exc, [&[0, 1][..], &d.to_be_bytes()].concat()));
                    }
                    if !methods && r.one_in(8) {
                        desc = int;
                        name = p.utf8(format!("v{j}").as_bytes());
                        attrs.push((cv, seven.to_be_bytes().to_vec()));
                    }
                }
                p.u2(*f).u2(name).u2(desc).u2(attrs.len() as u16);
                for (a, b) in &attrs {
                    p.attr(*a, b);
                }
            }
        }
        p.u2(1).u2(inner).u4(2 + 8 * 1024).u2(1024);
        for f in &words {
            let outer = if !plain && r.one_in(2) { d } else { 0 };
            let name = if !plain && r.one_in(2) { *r.pick(&n) } else { 0 };
            p.u2(if plain || r.one_in(2) { c } else { d }).u2(outer).u2(name).u2(*f);
        }
        let mut b = p.bytes();
        if !plain && r.one_in(2) {
            b[4] = r.u8();
            b[5] = r.u8();
        }
        w.judge(&b, false, "1024 words", true);
        w.stat("words for fields", 1024);
        w.stat("words for methods", 1024);
        w.stat("words for inner classes", 1024);
    });
    // Every word for a class, and for each strict place.
    w.units("every word, classes", 1024 * 4, 1024 * 32, |w, r, k| {
        for j in 0..64 {
            let f = ((k % 1024) * 64 + j) as u16;
            let mut p = Raw::new(if k >= 1024 { any_version(r) } else if r.one_in(4) { 52 } else { 65 });
            let c = p.class("A");
            let module = f & 0x8000 != 0;
            p.u2(f).u2(c).u2(if module || (k >= 1024 && r.one_in(8)) { 0 } else { c });
            if k >= 1024 && !module && r.one_in(2) {
                p.u2(1).u2(c);
            } else {
                p.u2(0);
            }
            p.u2(0).u2(0).u2(0);
            w.judge(&p.bytes(), true, &format!("class flags {f:#x}"), true);
            w.stat("words for classes", 1);
        }
    });
    w.units("every word, strict places", 1024, 1024, |w, r, k| {
        for j in 0..64 {
            let f = (k * 64 + j) as u16;
            for place in 0..5 {
                let b = strict(r, place, f);
                w.judge(&b, true, &format!("flags {f:#x} at strict place {place}"), true);
                w.stat("words for strict places", 1);
            }
        }
    });
    let make = |r: &mut Rng| {
        let mut c = no_code(cfg(r));
        if r.one_in(2) {
            c.shape = Shape::Module;
            c.major = 53 + r.below(13) as u16;
            c.only = vec!["Module"];
        } else {
            c.only = vec!["InnerClasses", "MethodParameters", "Record"];
        }
        c.attrs = 3;
        c
    };
    generated(w, "flags everywhere", 4000, 200_000, true, make);
    sweep(w, "flags changed", 4000, 200_000, 12, make, |m| matches!(m.what, What::Flags | What::StrictFlags));
}

/// A major version: mostly one in use.
fn any_version(r: &mut Rng) -> u16 {
    match r.below(8) {
        0 => *r.pick(&[0, 1, 44, 70, 255, 256, 0x7fff, 0x8000, 0xffff]),
        _ => 45 + r.below(25) as u16,
    }
}

fn strict(r: &mut Rng, place: usize, f: u16) -> Vec<u8> {
    let mut p = Raw::new(match r.below(3) {
        0 => 65,
        _ => 53 + r.below(17) as u16,
    });
    if place == 4 {
        let (a, n, d) = (p.utf8(b"MethodParameters"), p.utf8(b"n"), p.utf8(b"(II)V"));
        let (before, after) = (r.below(2), r.below(2));
        let mut b = vec![(1 + before + after) as u8];
        for k in 0..1 + before + after {
            b.extend(n.to_be_bytes());
            b.extend(if k == before { f.to_be_bytes() } else { [0, 0x10] });
        }
        p.head().u2(0).u2(1).u2(0).u2(n).u2(d).u2(1).attr(a, &b).u2(0);
        return p.bytes();
    }
    let (a, m) = (p.utf8(b"Module"), p.utf8(b"m"));
    let (c, md) = (p.class("module-info"), p.e1(19, m));
    let pk = p.e1(20, m);
    let mut b = vec![];
    let u2 = |b: &mut Vec<u8>, x: u16| b.extend(x.to_be_bytes());
    u2(&mut b, md);
    u2(&mut b, if place == 0 { f } else { 0 });
    u2(&mut b, 0);
    for q in 1..4 {
        if q == place {
            let others = r.below(2);
            u2(&mut b, 1 + others as u16);
            for k in 0..1 + others {
                u2(&mut b, if q == 1 { md } else { pk });
                u2(&mut b, if k == 0 { f } else { 0x1000 });
                u2(&mut b, 0);
            }
        } else {
            u2(&mut b, 0);
        }
    }
    u2(&mut b, 0);
    u2(&mut b, 0);
    p.u2(0x8000).u2(c).u2(0).u2(0).u2(0).u2(0).u2(1).attr(a, &b);
    p.bytes()
}

// ---------------------------------------------------------------- C20

/// A class that uses literal constants of these bits in every place that can.
fn literals(r: &mut Rng, ints: &[u32], floats: &[u32], longs: &[u64], doubles: &[u64], texts: &[Vec<u8>]) -> Vec<u8> {
    let mut p = Raw::new(65);
    let cv = p.utf8(b"ConstantValue");
    let (code, ad, bm) = (p.utf8(b"Code"), p.utf8(b"AnnotationDefault"), p.utf8(b"BootstrapMethods"));
    let (n, md, fd) = (p.utf8(b"n"), p.utf8(b"()V"), p.utf8(b"I"));
    let c = p.class("A");
    let nt = p.e2(12, n, md);
    let m = p.e2(10, c, nt);
    let h = p.entry(&[15, 6, (m >> 8) as u8, m as u8]);
    let mut all: Vec<(u8, u16)> = vec![];
    let mut names = vec![];
    for (tag, list) in [(3u8, ints), (4, floats)] {
        for x in list {
            let mut e = vec![tag];
            e.extend(x.to_be_bytes());
            all.push((tag, p.entry(&e)));
        }
    }
    for (tag, list) in [(5u8, longs), (6, doubles)] {
        for x in list {
            let mut e = vec![tag];
            e.extend(x.to_be_bytes());
            all.push((tag, p.entry(&e)));
        }
    }
    for t in texts {
        let x = p.utf8(t);
        all.push((8, p.e1(8, x)));
        all.push((1, x));
    }
    r.shuffle(&mut all);
    for k in 0..all.len() {
        names.push(p.utf8(format!("f{k}").as_bytes()));
    }
    let load: Vec<(u8, u16)> = all.iter().copied().filter(|x| x.0 != 1).collect();
    p.head().u2(load.len() as u16);
    for (k, (_, x)) in load.iter().enumerate() {
        p.u2(0x19).u2(names[k]).u2(fd).u2(1).attr(cv, &x.to_be_bytes());
    }
    // One method loads them all, and each has a default value.
    let values: Vec<(u8, u16)> = all.iter().copied().filter(|x| x.0 != 8).collect();
    p.u2(1 + values.len() as u16);
    let mut ins = vec![];
    for (tag, x) in &load {
        let wide = matches!(tag, 5 | 6);
        if *x < 256 && !wide {
            ins.extend([0x12, *x as u8]);
        }
        ins.extend([if wide { 0x14 } else { 0x13 }, (x >> 8) as u8, *x as u8]);
    }
    if ins.is_empty() {
        ins.push(0xb1);
    }
    p.u2(1).u2(n).u2(md).u2(1).u2(code).u4(12 + ins.len() as u32).u2(0).u2(0).u4(ins.len() as u32).raw(&ins).u2(0).u2(0);
    for (k, (tag, x)) in values.iter().enumerate() {
        let mut v = vec![];
        let tags: Vec<u8> = match tag {
            3 => vec![*r.pick(b"BCISZ"), b'I'],
            4 => b"F".to_vec(),
            5 => b"J".to_vec(),
            6 => b"D".to_vec(),
            _ => b"s".to_vec(),
        };
        v.push(b'[');
        v.extend((tags.len() as u16).to_be_bytes());
        for t in tags {
            v.push(t);
            v.extend(x.to_be_bytes());
        }
        p.u2(1).u2(names[k]).u2(md).u2(1).attr(ad, &v);
    }
    let mut b = vec![0, 1];
    b.extend(h.to_be_bytes());
    b.extend((load.len() as u16).to_be_bytes());
    for (_, x) in &load {
        b.extend(x.to_be_bytes());
    }
    p.u2(1).attr(bm, &b);
    p.bytes()
}

pub fn c20(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::Wrong => ["/Int", "/Float", "/Long", "/Double", "/Str", "Int{", "Float{", "Long{", "Double{", "Str{"].iter().any(|x| e.path.contains(x) || e.msg.contains(x)),
        Kind::Panic => true,
        _ => false,
    };
    jdk(w, 800, 26_600, |w, _, b| {
        w.judge(b, true, "JDK class", false);
    });
    // Bit by bit, and around every power of two; exponents and mantissas of floats in full.
    w.units("bits one by one", 64, 64, |w, r, k| {
        let one = 1u64 << k;
        let longs = [one, one.wrapping_sub(1), one.wrapping_neg(), !one, one | 1 << 63, one | 1];
        let ints: Vec<u32> = [one as u32, (one >> 32) as u32, (one as u32).wrapping_sub(1), (one as u32).wrapping_neg(), !(one as u32), one as u32 | 1 << 31].to_vec();
        let texts = [vec![b'a' + (k % 26) as u8], vec![]];
        w.judge(&literals(r, &ints, &ints, &longs, &longs, &texts), true, "single bits", true);
    });
    w.units("exponents", 256, 2048, |w, r, k| {
        let floats: Vec<u32> = (0..6).map(|j| ((k as u32 & 0xff) << 23) | [0, 1, 0x40_0000, 0x3f_ffff, 0x7f_ffff, r.u32() & 0x7f_ffff][j] | if r.one_in(2) { 1 << 31 } else { 0 }).collect();
        let e = if w.thorough { k } else { [k, 0x7ff - k][r.below(2)] * 4 % 2048 };
        let top = [e, 0x7ff, 0, e];
        let doubles: Vec<u64> = (0..8).map(|j| (top[j % 4] << 52) | [0, 1, 1 << 51, (1 << 51) - 1, (1 << 52) - 1, r.u64() & ((1 << 52) - 1)][j % 6] | if r.one_in(2) { 1 << 63 } else { 0 }).collect();
        w.judge(&literals(r, &[], &floats, &[], &doubles, &[]), true, "exponents", true);
    });
    w.units("random bits", 3000, 200_000, |w, r, _| {
        let n = 1 + r.below(12);
        let ints: Vec<u32> = (0..n).map(|_| generate::int_bits(r)).collect();
        let floats: Vec<u32> = (0..n).map(|_| if r.one_in(2) { generate::float_bits(r) } else { r.u64() as u32 }).collect();
        let longs: Vec<u64> = (0..n).map(|_| if r.one_in(2) { generate::long_bits(r) } else { r.u64() }).collect();
        let doubles: Vec<u64> = (0..n).map(|_| if r.one_in(2) { generate::double_bits(r) } else { r.u64() }).collect();
        let texts: Vec<Vec<u8>> = (0..r.below(5)).map(|_| text::encode(&generate::any_text(r, 40, 10))).collect();
        w.stat("literal constants", 4 * n as u64 + texts.len() as u64);
        w.judge(&literals(r, &ints, &floats, &longs, &doubles, &texts), true, "random bits", true);
    });
    w.units("small and sixteen-bit integers", 256, 256, |w, r, k| {
        let ints: Vec<u32> = (0..256).map(|j| (k * 256 + j) as u32).map(|x| if x & 1 == 0 { x } else { (x as i16 as i32) as u32 }).collect();
        w.judge(&literals(r, &ints, &[], &[], &[], &[]), true, "256 integers", true);
        w.stat("literal constants", 256);
    });
    let make = |r: &mut Rng| {
        let mut c = cfg(r);
        c.only = vec!["ConstantValue", "Code", "AnnotationDefault", "RuntimeVisibleAnnotations"];
        c.loady = 80;
        c.extra = 10;
        if c.major >= 51 {
            c.bootstraps = 3;
        }
        c
    };
    generated(w, "literals in context", 4000, 200_000, true, make);
    sweep(w, "literal bits changed", 4000, 200_000, 12, make, |m| m.what == What::Bits || matches!(m.site, "ConstantValue.value" | "element_value.const" | "Ldc" | "LdcW" | "Ldc2W" | "BootstrapMethods.argument"));
    // Literals that are not text keep their bytes, everywhere literals go.
    w.units("raw literals", 3000, 150_000, |w, r, _| {
        let texts: Vec<Vec<u8>> = (0..3).map(|_| generate::raw_text(r)).collect();
        let mut p = Raw::new(65);
        let (cv, n, fd) = (p.utf8(b"ConstantValue"), p.utf8(b"n"), p.utf8(b"I"));
        let mut s = vec![];
        for t in &texts {
            let x = p.utf8(t);
            s.push(p.e1(8, x));
        }
        let names = [n, p.utf8(b"o"), p.utf8(b"p")];
        p.head().u2(3);
        for k in 0..3 {
            p.u2(1).u2(names[k]).u2(fd).u2(1).attr(cv, &s[k].to_be_bytes());
        }
        p.u2(0).u2(0);
        w.judge(&p.bytes(), true, "raw literals", true);
    });
}

// ---------------------------------------------------------------- C21

fn numbers(x: &str) -> Vec<u64> {
    let mut out = vec![];
    let mut cur: Option<u64> = None;
    for c in x.chars() {
        if let Some(d) = c.to_digit(10) {
            cur = Some(cur.unwrap_or(0).saturating_mul(10).saturating_add(d as u64));
        } else if let Some(v) = cur.take() {
            out.push(v);
        }
    }
    out.extend(cur);
    out
}

fn subsequence(want: &[u64], have: &[u64]) -> bool {
    let mut it = have.iter();
    want.iter().all(|x| it.any(|y| x == y))
}

/// Entries that refer to this one, directly or through others, and itself.
fn referrers(pool: &[reference::E], entry: usize) -> Vec<u64> {
    let mut set = vec![entry];
    let mut k = 0;
    while k < set.len() {
        for (j, e) in pool.iter().enumerate() {
            if !set.contains(&j) && e.refs().contains(&(set[k] as u16)) {
                set.push(j);
            }
        }
        k += 1;
    }
    set.into_iter().map(|x| x as u64).collect()
}

fn referents(pool: &[reference::E], entry: usize) -> Vec<u64> {
    let mut set = vec![entry as u16];
    let mut k = 0;
    while k < set.len() {
        for x in pool.get(set[k] as usize).map(|e| e.refs()).unwrap_or_default() {
            if !set.contains(&x) {
                set.push(x);
            }
        }
        k += 1;
    }
    set.into_iter().map(|x| x as u64).collect()
}

/// Where the pool of a well-formed class ends.
fn pool_end(b: &[u8]) -> usize {
    let n = u16::from_be_bytes([b[8], b[9]]) as usize;
    let (mut i, mut p) = (1, 10);
    while i < n {
        p += match b[p] {
            1 => 3 + u16::from_be_bytes([b[p + 1], b[p + 2]]) as usize,
            5 | 6 => {
                i += 1;
                9
            }
            7 | 8 | 16 | 19 | 20 => 3,
            15 => 4,
            _ => 5,
        };
        i += 1;
    }
    p
}

/// The pool entry that a byte of the input belongs to.
fn entry_at(b: &[u8], pos: usize) -> Option<usize> {
    let n = u16::from_be_bytes([*b.get(8)?, *b.get(9)?]) as usize;
    let (mut i, mut p) = (1, 10);
    while i < n {
        let len = match *b.get(p)? {
            1 => 3 + u16::from_be_bytes([*b.get(p + 1)?, *b.get(p + 2)?]) as usize,
            5 | 6 => 9,
            7 | 8 | 16 | 19 | 20 => 3,
            15 => 4,
            3 | 4 | 9..=12 | 17 | 18 => 5,
            _ => return (pos >= p).then_some(i),
        };
        if pos >= p && pos < p + len {
            return Some(i);
        }
        i += if matches!(b[p], 5 | 6) { 2 } else { 1 };
        p += len;
    }
    None
}

/// A class with one fault: does the error say where?
pub fn located(w: &mut W, b: &[u8], note: &str) {
    located_at(w, b, note, None);
}

/// The same, where it is known at which byte the input is at fault.
pub fn located_at(w: &mut W, b: &[u8], note: &str, pos: Option<usize>) {
    for bytecode in [true, false] {
        let o = reference::parse(b, bytecode);
        let Err(rej) = &o.result else { continue };
        if rej.cat == Cat::TooDeep {
            continue;
        }
        w.enter(b, note);
        let g = observe(b, bytecode);
        w.tally(b, bytecode, &o, &g);
        let Ok(Got { result: Err(text), .. }) = &g else {
            w.stat("accepted or panicked (see the other properties)", 1);
            continue;
        };
        if text.trim().is_empty() {
            w.violate(b, "empty", &format!("{note}: the error displays as nothing"));
            continue;
        }
        match observe(b, bytecode) {
            Ok(Got { result: Err(again), .. }) if again == *text => {}
            _ => w.violate(b, "unequal", &format!("{note}: the error was {text:?} and then another")),
        }
        // The same bytes elsewhere.
        let mut copy = Vec::with_capacity(b.len() + 16);
        copy.extend_from_slice(&[0xaa; 7]);
        copy.extend_from_slice(b);
        match observe(&copy[7..], bytecode) {
            Ok(Got { result: Err(again), .. }) if again == *text => {}
            _ => w.violate(b, "unequal", &format!("{note}: the error was {text:?} and another for equal bytes")),
        }
        same_errors(w, b, &copy[7..], bytecode, note);
        let have = numbers(text);
        let ok = match rej.entry {
            Some(e) => {
                w.stat("errors that must name a constant", 1);
                // The entry at fault, or one whose meaning depends on it. Which of them is found
                // first depends on the order of the search.
                let at = pos.and_then(|p| entry_at(b, p)).unwrap_or(e);
                let mut fine = referrers(&o.info.pool, at);
                if at != e && !fine.contains(&(e as u64)) || pos.is_none() {
                    fine.extend(referrers(&o.info.pool, e));
                    fine.extend(referents(&o.info.pool, e));
                }
                fine.iter().any(|x| have.contains(x))
            }
            None => {
                if !rej.at.is_empty() {
                    w.stat(format!("errors that must name {} indexes", rej.at.len()), 1);
                }
                subsequence(&rej.at, &have) || (rej.at.len() > 1 && rej.msg.contains("beyond its container") && subsequence(&rej.at[1..], &have))
            }
        };
        if !ok {
            w.violate(b, &format!("{:?}{}", rej.cat, rej.msg), &format!("{note}: the fault is in {} {:?} (innermost first; {:?}: {}), the error says {text:?}", if rej.entry.is_some() { "constant" } else { "element" }, rej.entry.map(|e| vec![e as u64]).unwrap_or(rej.at.clone()), rej.cat, rej.msg));
        }
        w.outcome(&format!("{:?}{}", rej.cat, rej.at.len()));
    }
}

/// Errors compare as their texts do: equal for equal bytes, and never for texts that differ.
fn same_errors(w: &mut W, b: &[u8], copy: &[u8], bytecode: bool, note: &str) {
    thread_local!(static LAST: std::cell::RefCell<Option<cafebabe::ParseError>> = const { std::cell::RefCell::new(None) });
    let mut o = cafebabe::ParseOptions::default();
    o.parse_bytecode(bytecode);
    let tried = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let one = cafebabe::parse_class_with_options(b, &o).err()?;
        let two = cafebabe::parse_class_with_options(copy, &o).err()?;
        let equal = one == two && !(one != two);
        let before = LAST.with(|l| l.borrow_mut().take());
        let odd = before.as_ref().is_some_and(|l| *l == one && l.to_string() != one.to_string());
        let texts = before.map(|l| (l.to_string(), one.to_string()));
        LAST.with(|l| *l.borrow_mut() = Some(one));
        Some((equal, odd, texts))
    }));
    match tried {
        Ok(Some((equal, odd, texts))) => {
            w.stat("errors compared", 1);
            if !equal {
                w.violate(b, "unequal", &format!("{note}: the errors of equal inputs do not compare equal"));
            }
            if odd {
                w.violate(b, "equal", &format!("{note}: errors of different texts compare equal: {texts:?}"));
            }
        }
        _ => w.stat("errors not compared (see the other properties)", 1),
    }
}

/// A fault in one place that leaves all else as it is.
fn one_fault(r: &mut Rng, b: &[u8], o: &reference::Outcome, m: &Mark) -> Vec<u8> {
    let v: u64 = match m.what {
        What::CpRef => mutate::some_index(r, &o.info, m.len),
        What::AttrLen => {
            let l = mutate::get(b, m.pos, 4);
            if r.one_in(2) {
                l + 1 + r.below(3) as u64
            } else {
                l.saturating_sub(1 + r.below(3) as u64)
            }
        }
        What::Tag => *r.pick(&[0, 2, 13, 14, 21, 127, 128, 255]),
        What::RefKind => *r.pick(&[0, 10, 128, 255]),
        What::Atype => *r.pick(&[0, 3, 12, 255]),
        What::Opcode => r.range(0xcb, 0xff) as u64,
        What::AnnoTag => *r.pick(&[0u64, 0x20, b'b' as u64, b'V' as u64, b'L' as u64, b'?' as u64, 0xff]),
        What::TargetType => *r.pick(&[0x02, 0x0f, 0x18, 0x3f, 0x4c, 0xff]),
        What::PathKind => *r.pick(&[4, 5, 128, 255]),
        What::FrameTag => r.range(128, 246) as u64,
        What::VerTag => *r.pick(&[9, 10, 128, 255]),
        _ => return mutate::fault(r, b, &o.info, m),
    };
    mutate::set(b, m.pos, m.len, v)
}

pub fn c21(w: &mut W) {
    // One fault in one place, in classes with enough elements for the indexes to matter.
    let make = |r: &mut Rng| {
        let mut c = cfg(r);
        c.pad = if r.one_in(40) { 300 } else { 0 };
        if c.shape != Shape::Module {
            c.interfaces = 2 + r.small(5);
            c.fields = 2 + r.small(5);
            c.methods = 2 + r.small(5);
        }
        c.attrs = 4;
        c.insns = 8;
        c.nest = 3;
        c.misplaced = *r.pick(&[0, 10]);
        c.extra = *r.pick(&[0, 10]);
        c
    };
    let local = |m: &Mark| matches!(m.what, What::CpRef | What::RefKind | What::BsmIndex | What::StrictFlags | What::Branch | What::Atype | What::AnnoTag | What::TargetType | What::PathKind | What::FrameTag | What::VerTag | What::Opcode | What::AttrLen | What::Tag | What::SwitchRange | What::Pad | What::Imm | What::Utf8);
    w.units("one fault", 9000, 500_000, |w, r, _| {
        let c = make(r);
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        if o.result.is_err() || !o.info.lenient.is_empty() {
            return;
        }
        for _ in 0..12 {
            let Some(m) = mutate::pick_mark(r, &o.info, local) else { return };
            let x = one_fault(r, &b, &o, m);
            located_at(w, &x, &format!("{:?} {} at {}", m.what, m.site, m.pos), Some(m.pos));
            w.outcome(m.site);
        }
    });
    // The same fault in each element of a table in turn.
    w.units("the same fault in each element", 2500, 120_000, |w, r, _| {
        let c = make(r);
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        if o.result.is_err() || !o.info.lenient.is_empty() {
            return;
        }
        let Some(m) = mutate::pick_mark(r, &o.info, |m| matches!(m.what, What::CpRef | What::StrictFlags | What::Branch | What::AnnoTag | What::FrameTag | What::VerTag | What::TargetType | What::PathKind | What::Opcode | What::RefKind | What::Atype)) else { return };
        let v = match m.what {
            What::CpRef if m.len == 2 => *r.pick(&[0xffffu64, 0, o.info.pool.len() as u64]),
            What::CpRef => 0,
            What::StrictFlags => 2,
            What::Branch => 1 << (8 * m.len - 2),
            What::Opcode => *r.pick(&[0xcb, 0xfd, 0xf0]),
            _ => *r.pick(&[0xf0, 0x7e, 222]),
        };
        for n in o.info.marks.iter().filter(|n| n.site == m.site && n.len == m.len).take(40) {
            let x = mutate::set(&b, n.pos, n.len, v);
            located_at(w, &x, &format!("{:?} {} at {}", n.what, n.site, n.pos), Some(n.pos));
        }
    });
    // Deep in values within values, and in attributes within attributes.
    w.units("deep nesting", 1500, 60_000, |w, r, k| {
        let b = refmodel::deep::class(r, k);
        let o = reference::parse_marked(&b, true);
        if let Err(e) = &o.result {
            w.stat(format!("deep classes that are not classes: {}", e.msg), 1);
            return;
        }
        // How much deeper than any valid class a class may be is for the parser to say.
        if !matches!(observe(&b, true), Ok(Got { result: Ok(_), .. })) {
            w.stat("deep classes refused", 1);
            return;
        }
        w.stat("deep classes", 1);
        let most = o.info.marks.iter().map(|m| m.pos).max().unwrap_or(0);
        for _ in 0..10 {
            // Where it is deepest, more than elsewhere.
            let from = r.below(most + 1);
            let Some(m) = mutate::pick_mark(r, &o.info, |m| local(m) && m.pos >= from) else { continue };
            let x = one_fault(r, &b, &o, m);
            located_at(w, &x, &format!("deep: {:?} {} at {}", m.what, m.site, m.pos), Some(m.pos));
        }
    });
    // Far into code, as long as the format lets it be and longer.
    w.units("far into code", 300, 12_000, |w, r, k| {
        let n = [300usize, 1000, 33_000, 66_000, 70_000, 200_000][k as usize % 6];
        let b = refmodel::deep::long(r, n);
        let o = reference::parse_marked(&b, true);
        if let Err(e) = &o.result {
            w.stat(format!("long code that is none: {e:?}"), 1);
            return;
        }
        if !matches!(observe(&b, true), Ok(Got { result: Ok(_), .. })) {
            w.stat("long code refused", 1);
            return;
        }
        w.stat("long code", 1);
        let most = o.info.marks.iter().map(|m| m.pos).max().unwrap_or(0);
        for _ in 0..10 {
            let from = r.below(most + 1);
            let Some(m) = mutate::pick_mark(r, &o.info, |m| local(m) && m.pos >= from) else { continue };
            let x = one_fault(r, &b, &o, m);
            located_at(w, &x, &format!("far into code: {:?} {} at {}", m.what, m.site, m.pos), Some(m.pos));
        }
    });
    // Far into large tables.
    let kinds = refmodel::tables::KINDS;
    w.units("far into tables", kinds.len() as u64 * 6, kinds.len() as u64 * 60, |w, r, k| {
        let (kind, most) = kinds[k as usize % kinds.len()];
        let n = most.min(*r.pick(&[12, 300, 1100]));
        let b = refmodel::tables::big(r, kind, n);
        let o = reference::parse_marked(&b, true);
        for _ in 0..12 {
            let Some(m) = mutate::pick_mark(r, &o.info, local) else { return };
            let x = one_fault(r, &b, &o, m);
            located_at(w, &x, &format!("{kind} of {n}: {:?} {} at {}", m.what, m.site, m.pos), Some(m.pos));
        }
    });
    // Far into pools: constants of every kind behind many others.
    w.units("far into pools", 400, 12_000, |w, r, k| {
        let mut c = make(r);
        c.insns = 3;
        c.attrs = 1;
        c.extra = 12;
        c.pad = [120usize, 250, 300, 1000, 4090, if k % 3 == 0 { 9000 } else { 500 }, if k % 5 == 0 { 33_000 } else { 200 }][k as usize % 7];
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        if o.result.is_err() || !o.info.lenient.is_empty() {
            return;
        }
        let end = pool_end(&b);
        for _ in 0..10 {
            let from = r.below(end);
            let Some(m) = mutate::pick_mark(r, &o.info, |m| local(m) && m.pos >= from && (m.pos < end)) else { continue };
            let x = one_fault(r, &b, &o, m);
            located_at(w, &x, &format!("far into the pool: {:?} {} at {}", m.what, m.site, m.pos), Some(m.pos));
        }
    });
    jdk(w, 300, 10_000, |w, r, b| {
        let o = reference::parse_marked(b, true);
        for _ in 0..6 {
            let Some(m) = mutate::pick_mark(r, &o.info, local) else { return };
            let x = one_fault(r, b, &o, m);
            located_at(w, &x, &format!("JDK class: {:?} {} at {}", m.what, m.site, m.pos), Some(m.pos));
        }
    });
    // Displaying never fails, whatever the damage.
    damaged(w, 1500, 60_000, 5, cfg, |w, b, note| {
        w.enter(b, note);
        if let Ok(Got { result: Err(text), .. }) = observe(b, true) {
            if text.trim().is_empty() {
                w.violate(b, "empty", &format!("{note}: the error displays as nothing"));
            }
            match observe(b, true) {
                Ok(Got { result: Err(again), .. }) if again == text => w.stat("errors compared", 1),
                _ => w.violate(b, "unequal", &format!("{note}: the error was {text:?} and then another")),
            }
        }
    });
}

pub use crate::share::{c17, c18, pure, together};

/// A class with a table of `n` bootstrap methods and constants that refer to those at `d`, in a
/// pool with `pad` others; `fault` is the index of a further one, in front (0) or at the end (1).
pub fn large_table(r: &mut Rng, n: usize, d: &[u16], fault: Option<u16>, at: usize, pad: usize) -> (Vec<u8>, usize) {
    let mut p = Raw::new(65);
    let (x, y, c, f) = (p.utf8(b"BootstrapMethods"), p.utf8(b"m"), p.class("A"), p.utf8(b"I"));
    let md = p.utf8(b"()V");
    let (mnt, fnt) = (p.e2(12, y, md), p.e2(12, y, f));
    let m = p.e2(10, c, mnt);
    let h = p.entry(&[15, 6, (m >> 8) as u8, m as u8]);
    if fault.is_some() && at == 0 {
        p.e2(17, fault.unwrap(), fnt);
    }
    for _ in 0..pad {
        p.entry(&[3, 0, 0, 0, 1]);
    }
    for x in d {
        p.e2(17, *x, fnt);
        p.e2(18, *x, mnt);
    }
    p.head();
    let last = r.one_in(2) && p.count < 65500;
    if last {
        while p.count < 65533 {
            p.entry(&[4, 0, 0, 0, 1]);
        }
        p.e2(17, d[0], fnt);
    }
    if fault.is_some() && at == 1 {
        p.e2(if r.one_in(2) { 17 } else { 18 }, fault.unwrap(), if r.one_in(2) { fnt } else { mnt });
        // The descriptor need not be that of the kind; then there are two faults.
    }
    p.u2(0).u2(0).u2(1);
    p.u2(x).u4(2 + 4 * n as u32).u2(n as u16);
    for _ in 0..n {
        p.u2(h).u2(0);
    }
    (p.bytes(), p.count as usize)
}
