//! The workload and the judgement of each property.
use crate::alloc;
use crate::extra;
use crate::work::*;
use cafebabe::attributes::{AttributeData, AttributeInfo, CodeData};
use refmodel::generate::{self, Cfg, Shape, ALL_ATTRS, ANNOTATIONS};
use refmodel::hostile::{self, Raw};
use refmodel::mutate;
use refmodel::reference::{self, kind, Cat, Info, Mark, Outcome, What};
use refmodel::rng::Rng;
use refmodel::tables;
use refmodel::value::V;
use std::fmt::Write as _;
use std::io::{Read, Seek, SeekFrom};

pub const IDS: [&str; 21] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21",
];

pub fn run(w: &mut W) {
    let id = w.id.clone();
    findings(w);
    match id.as_str() {
        "C01" => c01(w),
        "C02" => c02(w),
        "C03" => c03(w),
        "C04" => c04(w),
        "C05" => c05(w),
        "C06" => c06(w),
        "C07" => c07(w),
        "C08" => c08(w),
        "C09" => c09(w),
        "C10" => extra::c10(w),
        "C11" => extra::c11(w),
        "C12" => extra::c12(w),
        "C13" => extra::c13(w),
        "C14" => extra::c14(w),
        "C15" => extra::c15(w),
        "C16" => extra::c16(w),
        "C17" => extra::c17(w),
        "C18" => extra::c18(w),
        "C19" => extra::c19(w),
        "C20" => extra::c20(w),
        "C21" => extra::c21(w),
        _ => panic!("no check {id}"),
    }
}

/// One input as the check of this property judges it: for replays and past findings.
pub fn single(w: &mut W, b: &[u8], note: &str) {
    match w.id.as_str() {
        "C01" => hurt(w, b, note),
        "C02" => weigh(w, b, note),
        "C07" => {
            w.judge(b, true, note, true);
            lookups(w, b, note);
        }
        "C08" => {
            w.judge(b, true, note, true);
            iterate(w, b, note);
        }
        "C16" => extra::on_off(w, b, note),
        "C17" => extra::together(w, b, note),
        "C18" => extra::pure(w, b, note),
        "C21" => extra::located(w, b, note),
        _ => {
            w.judge(b, true, note, true);
            w.judge(b, false, note, true);
        }
    }
}

fn findings(w: &mut W) {
    let mut files: Vec<_> = std::fs::read_dir(format!("{ROOT}/findings")).map(|d| d.filter_map(|e| Some(e.ok()?.path())).collect()).unwrap_or_default();
    files.sort();
    let id = w.id.clone();
    let files: Vec<_> = files.into_iter().filter(|f| f.file_name().is_some_and(|n| n.to_string_lossy().trim_end_matches(".class").split('-').any(|x| x == id))).collect();
    w.units_each("past findings", files.len() as u64, |w, _, k| {
        if let Ok(b) = std::fs::read(&files[k as usize]) {
            single(w, &b, &files[k as usize].display().to_string());
        }
    });
}

// ---------------------------------------------------------------- workloads

pub fn jdk(w: &mut W, quick: u64, thorough: u64, mut f: impl FnMut(&mut W, &mut Rng, &[u8])) {
    let Ok(mut file) = std::fs::File::open(format!("{ROOT}/target/jdk.pack")) else {
        w.stat("JDK classes missing", 1);
        return;
    };
    let mut at = 0u64;
    // Not always the same ones.
    let skip = (w.seed % 7) * 300;
    for _ in 0..skip {
        let mut n = [0; 4];
        if file.read_exact(&mut n).is_err() {
            break;
        }
        at += 1;
        let _ = file.seek(SeekFrom::Current(u32::from_be_bytes(n) as i64));
    }
    let _ = at;
    let mut next = 0u64;
    w.units("JDK classes", quick, thorough, |w, r, k| {
        let mut n = [0; 4];
        loop {
            if file.read_exact(&mut n).is_err() {
                return;
            }
            let len = u32::from_be_bytes(n);
            next += 1;
            if next - 1 == k {
                let mut b = vec![0; len as usize];
                if file.read_exact(&mut b).is_ok() {
                    f(w, r, &b);
                }
                return;
            }
            let _ = file.seek(SeekFrom::Current(len as i64));
        }
    });
}

/// A random configuration, now and then with references at high indexes.
pub fn cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::any(r);
    c.insns = c.insns.min(30);
    if r.one_in(40) {
        c.pad = *r.pick(&[130, 140, 300, 32600, 65000]);
    }
    c
}

pub fn plain_class(r: &mut Rng) -> Cfg {
    Cfg { shape: Shape::Class, interfaces: 0, fields: 0, methods: 0, attrs: 0, bootstraps: 0, extra: 0, pad: 0, only: vec![], misplaced: 0, ..Cfg::any(r) }
}

/// Well-formed classes of a given make: every one of them has to come out as the reference says.
pub fn generated(w: &mut W, name: &str, quick: u64, thorough: u64, own: bool, make: impl Fn(&mut Rng) -> Cfg) {
    w.units(name, quick, thorough, |w, r, _| {
        let c = make(r);
        let b = generate::class(r, c);
        w.judge(&b, true, name, own);
    });
}

pub fn boundary(r: &mut Rng, b: &[u8], m: &Mark) -> Vec<u8> {
    let top = if m.len >= 8 { u64::MAX } else { (1 << (8 * m.len)) - 1 };
    let v = match r.below(4) {
        0 => *r.pick(&[0u64, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x00ff, 0xff00]),
        1 => 1u64 << r.below(64),
        2 => (1u64 << r.below(64)).wrapping_sub(1),
        _ => u64::MAX - (1u64 << r.below(64)),
    };
    mutate::set(b, m.pos, m.len, v & top)
}

/// Well-formed classes, and each with single changes at places of interest.
pub fn sweep(w: &mut W, name: &str, quick: u64, thorough: u64, per: usize, make: impl Fn(&mut Rng) -> Cfg, want: impl Fn(&Mark) -> bool) {
    w.units(name, quick, thorough, |w, r, _| {
        let c = make(r);
        let base = generate::class(r, c);
        faults(w, r, &base, per, &want, name);
    });
}

pub fn faults(w: &mut W, r: &mut Rng, base: &[u8], per: usize, want: &impl Fn(&Mark) -> bool, name: &str) {
    let o = reference::parse_marked(base, true);
    let info = Info { marks: o.info.marks.clone(), pool: o.info.pool.clone(), ..Info::default() };
    let (o, _) = w.judge_with(base, true, &format!("{name}: base"), true, o);
    if o.result.is_err() {
        return;
    }
    for _ in 0..per {
        let Some(m) = mutate::pick_mark(r, &info, want) else {
            w.stat("no place to change", 1);
            return;
        };
        let numeric = m.len <= 8 && !matches!(m.what, What::Tag | What::Opcode | What::CpRef | What::Utf8 | What::Raw | What::Code | What::Major);
        let b = if numeric && r.one_in(2) { boundary(r, base, m) } else { mutate::fault(r, base, &info, m) };
        w.judge(&b, true, &format!("{name}: {:?} {} at {}", m.what, m.site, m.pos), true);
        w.stat(format!("changed {:?}", m.what), 1);
        w.outcome(&format!("{:?}{}", m.what, m.site));
    }
}

pub fn big(w: &mut W, kinds: &[&str], own: bool) {
    let list: Vec<(&str, usize)> = tables::KINDS.iter().filter(|k| kinds.is_empty() || kinds.contains(&k.0)).flat_map(|k| tables::SIZES.iter().filter(|n| **n <= k.1).map(|n| (k.0, *n))).collect();
    let n = list.len() as u64;
    w.units("big tables", n, n, |w, r, k| {
        let (kind, n) = list[k as usize];
        let b = tables::big(r, kind, n);
        let (o, _) = w.judge(&b, true, &format!("{kind} of {n} entries"), own);
        if let Err(e) = o.result {
            w.stat(format!("not well-formed: {kind}: {e:?}"), 1);
        }
    });
}

pub fn hostiles(w: &mut W, families: &[&str], directed: u64, quick: u64, thorough: u64, f: impl Fn(&mut W, &[u8], &str)) {
    for fam in hostile::FAMILIES {
        if !families.is_empty() && !families.contains(&fam) {
            continue;
        }
        let mut go = |w: &mut W, r: &mut Rng, k: u64| {
            let b = hostile::make(fam, k, r);
            f(w, &b, fam);
        };
        w.units_each(fam, directed, &mut go);
        // Some take long.
        let less = if fam == "many" { 20 } else { 1 };
        let n = directed + if w.thorough { thorough } else { quick } / less;
        w.share(fam, directed, n, w.shard, w.shards, &mut go);
    }
}

/// Random damage to generated classes.
pub fn damaged(w: &mut W, quick: u64, thorough: u64, per: usize, make: impl Fn(&mut Rng) -> Cfg, f: impl Fn(&mut W, &[u8], &str)) {
    w.units("damaged classes", quick, thorough, |w, r, _| {
        let c = make(r);
        let a = if r.one_in(12) {
            let k = r.u64();
            refmodel::deep::class(r, k)
        } else {
            generate::class(r, c)
        };
        let o = reference::parse_marked(&a, true);
        f(w, &a, "undamaged");
        for _ in 0..per {
            match r.below(8) {
                0 => {
                    let c = make(r);
                    let b = generate::class(r, c);
                    let b = mutate::splice(r, &a, &b);
                    f(w, &b, "spliced");
                }
                1 | 2 => {
                    let b = mutate::havoc(r, &a);
                    f(w, &b, "random damage");
                }
                _ => {
                    let Some(m) = mutate::pick_mark(r, &o.info, |_| true) else { return };
                    let mut b = mutate::fault(r, &a, &o.info, m);
                    if r.one_in(4) {
                        if let Some(m) = mutate::pick_mark(r, &o.info, |x| x.pos + x.len <= b.len() && x.len <= 8 && x.what != What::Utf8Len) {
                            b = boundary(r, &b, m);
                        }
                    }
                    f(w, &b, "changed in one place or two");
                }
            }
        }
    });
}

/// Classes that end within an attribute, with lengths that say so: nothing follows where more is
/// expected, and no length gives it away.
pub fn cut(w: &mut W, quick: u64, thorough: u64, f: impl Fn(&mut W, &[u8], &str)) {
    let kinds = ALL_ATTRS.len() as u64;
    w.units("cut within attributes", quick * kinds, thorough * kinds, |w, r, k| {
        let kind = ALL_ATTRS[(k % kinds) as usize];
        let mut c = cfg(r);
        c.pad = 0;
        c.major = 65;
        c.attrs = 3;
        c.insns = c.insns.min(6);
        c.interfaces = 0;
        c.misplaced = *r.pick(&[0, 50, 100]);
        c.nest = 3;
        c.bootstraps = if kind == "BootstrapMethods" { 2 } else { 0 };
        c.only = if r.one_in(4) { vec![] } else { vec![kind, "Code", "Record"] };
        if kind.starts_with("Module") {
            c.shape = Shape::Module;
        }
        let b = if r.one_in(8) { refmodel::deep::class(r, k) } else { generate::class(r, c) };
        let o = reference::parse_marked(&b, true);
        let lens: Vec<Mark> = o.info.marks.iter().filter(|m| m.what == What::AttrLen).copied().collect();
        if lens.is_empty() {
            return;
        }
        let ends: Vec<usize> = lens.iter().map(|m| m.pos + 4 + mutate::get(&b, m.pos, 4) as usize).collect();
        for _ in 0..14 {
            // Every attribute alike, long or short; its first bytes more than the others.
            let j = r.below(lens.len());
            let from = lens[j].pos + 4;
            if ends[j] == from {
                continue;
            }
            let p = if r.one_in(2) { r.range(from, ends[j] - 1) } else { r.range(from, (from + 24).min(ends[j] - 1)) };
            let mut x = b[..p].to_vec();
            for (m, end) in lens.iter().zip(&ends) {
                if m.pos + 4 <= p && p < *end {
                    x = mutate::set(&x, m.pos, 4, (p - m.pos - 4) as u64);
                }
            }
            f(w, &x, "cut within an attribute");
            // The same with a greater count before the cut.
            if p >= from + 2 {
                let at = p - 1 - r.below((p - from).min(8));
                x[at] = *r.pick(&[1, 2, 0x10, 0x7f, 0x80, 0xff]);
                f(w, &x, "cut within an attribute, one byte changed");
            }
        }
    });
}

pub fn no_code(mut c: Cfg) -> Cfg {
    c.code = 0;
    c
}

// ---------------------------------------------------------------- C01

struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 < s.len() {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

pub fn codes<'a, 'b>(attrs: &'b [AttributeInfo<'a>], f: &mut dyn FnMut(&'b CodeData<'a>)) {
    for a in attrs {
        match &a.data {
            AttributeData::Code(c) => {
                f(c);
                codes(&c.attributes, f);
            }
            AttributeData::Record(x) => x.iter().for_each(|x| codes(&x.attributes, f)),
            _ => {}
        }
    }
}

pub fn all_codes<'a, 'b>(c: &'b cafebabe::ClassFile<'a>, f: &mut dyn FnMut(&'b CodeData<'a>)) {
    codes(&c.attributes, f);
    c.fields.iter().for_each(|x| codes(&x.attributes, f));
    c.methods.iter().for_each(|x| codes(&x.attributes, f));
}

/// Parses and then does everything a caller can do with the result. Returns what was seen.
pub fn exercise(b: &[u8], bytecode: bool) -> u64 {
    let mut seen = 0;
    match parse(b, bytecode) {
        Ok(c) => {
            let _ = write!(Sink(1 << 19), "{c:?}");
            let _ = write!(Sink(1 << 16), "{c:#?}");
            seen += c.constantpool_iter().count() as u64;
            for x in c.constantpool_iter() {
                seen += 1;
                if seen < 2000 {
                    let _ = write!(Sink(1 << 17), "{x:?}");
                }
            }
            let mut it = c.constantpool_iter();
            it.by_ref().take(3).for_each(drop);
            seen += it.size_hint().0 as u64 & 1;
            seen += it.nth(2).is_some() as u64;
            it.by_ref().for_each(drop);
            for _ in 0..3 {
                seen += it.next().is_some() as u64 + it.nth(1).is_some() as u64;
            }
            drop(it);
            seen += c.constantpool_iter().last().is_some() as u64;
            all_codes(&c, &mut |x| {
                if let Some(bc) = &x.bytecode {
                    let last = bc.opcodes.last().map_or(0, |o| o.0);
                    for o in [0, 1, 2, 3, last / 2, last.wrapping_sub(1), last, last + 1, x.code.len(), x.code.len() + 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, usize::MAX / 2, usize::MAX - 1, usize::MAX] {
                        seen += bc.get_opcode_index(o).is_some() as u64;
                    }
                }
            });
            let mut a = crate::adapt::Adapter::new(b);
            a.class(&c);
            a.pool(&c);
        }
        Err(e) => {
            seen += e.to_string().len() as u64;
            let _ = write!(Sink(1 << 20), "{e:?}");
            let _ = std::error::Error::source(&e);
        }
    }
    seen
}

fn hurt(w: &mut W, b: &[u8], note: &str) {
    w.enter(b, note);
    w.seen(b, 0);
    let mut how = String::new();
    for bytecode in [true, false] {
        match sut(|| exercise(b, bytecode)) {
            Ok(n) => {
                w.stat("things looked at", n);
                let _ = write!(how, "{}", n.min(40));
            }
            Err(p) => w.violate(b, &format!("panic {p}"), &format!("{note}, bytecode {bytecode}: panicked: {p}")),
        }
    }
    w.outcome(&how);
}

fn c01(w: &mut W) {
    // No oracle but survival is needed, and the watchdog and the parent look after the rest.
    hostiles(w, &[], 110, 3000, 60000, hurt);
    damaged(w, 9000, 400_000, 7, cfg, hurt);
    cut(w, 100, 4000, hurt);
    jdk(w, 300, 6000, |w, r, b| {
        for _ in 0..3 {
            let b = mutate::havoc(r, b);
            hurt(w, &b, "damaged JDK class");
        }
        let o = reference::parse_marked(b, true);
        for _ in 0..3 {
            if let Some(m) = mutate::pick_mark(r, &o.info, |_| true) {
                let b = mutate::fault(r, b, &o.info, m);
                hurt(w, &b, "JDK class with one change");
            }
        }
    });
    // Every short text of the characters that mean something, and longer ones, in every role.
    let odd: [&[u8]; 26] = [b"<", b">", b".", b";", b"[", b"/", b"\\", b":", b"@", b"(", b")", b"L", b"V", b"I", b"a", b" ", b"\x01", b"\xc0\x80", b"\xc3\xa9", b"\xdf\xbf", b"\xe6\x97\xa5", b"\xed\xa0\x80\xed\xb0\x80", b"\xed\xa0\x80", b"\xed\xb0\x80", b"\xc3", b"\xff"];
    let n = odd.len();
    let most = if w.thorough { n * n * n } else { n * n };
    use crate::extra::Role;
    let roles = crate::extra::ROLES;
    let inits: [&[u8]; 4] = [b"n", b"<init>", b"<clinit>", b"\xe6\x97\xa5"];
    w.units("short texts in every role", 1 + n as u64 + most as u64, 1 + n as u64 + (n * n) as u64 + most as u64, |w, r, k| {
        let mut t = vec![];
        let mut k = k as usize;
        let mut more = 1;
        let mut len = 0;
        while k >= more {
            k -= more;
            more *= n;
            len += 1;
        }
        for _ in 0..len {
            t.extend_from_slice(odd[k % n]);
            k /= n;
        }
        for role in roles {
            let major = match role {
                Role::Module | Role::Package => *r.pick(&[53, 65]),
                Role::Dyn | Role::Indy | Role::MType => *r.pick(&[55, 65]),
                _ => *r.pick(&[45, 49, 51, 52, 53, 55, 65]),
            };
            let flags = *r.pick(&[0x21, 0x200]);
            for d in [&b"I"[..], b"()V"] {
                hurt(w, &crate::extra::in_role(major, flags, role, &t, d), "short name");
            }
            hurt(w, &crate::extra::in_role(major, flags, role, inits[r.below(4)], &t), "short descriptor");
        }
    });
    // The longest texts, referred to over and over: each may cost what its length does.
    w.units("long texts referred to often", roles.len() as u64 * 6, roles.len() as u64 * 60, |w, r, k| {
        let role = roles[k as usize % roles.len()];
        let rep = |x: &str, n: usize| x.repeat(n / x.len());
        let (n, d) = match k as usize / roles.len() % 6 {
            0 => (rep("n", 65535), format!("({})V", rep("I", 65532))),
            1 => (rep("a/", 65532) + "b", format!("(L{};)V", rep("a/", 65530) + "b")),
            2 => ("n".into(), format!("({})V", rep("[[I", 65532))),
            3 => (rep("é", 65534), format!("({})La;", rep("La;", 65530))),
            4 => ("n".into(), rep("[", 65530) + "I"),
            _ => (rep("[", 255) + "L" + &rep("a", 65000) + ";", rep("[", 255) + "L" + &rep("a", 65000) + ";"),
        };
        for far in [100, 1] {
            let b = crate::extra::in_role_often(*r.pick(&[55, 65]), *r.pick(&[0x21, 0x200]), role, n.as_bytes(), d.as_bytes(), far);
            hurt(w, &b, "long texts referred to often");
        }
    });
    w.units("odd texts in every role", 6000, 600_000, |w, r, k| {
        let role = roles[k as usize % roles.len()];
        for _ in 0..4 {
            let mut pair = [vec![], vec![]];
            for x in pair.iter_mut() {
                match r.below(4) {
                    0 => (0..r.range(1, 12)).for_each(|_| x.extend_from_slice(odd[r.below(n)])),
                    1 => {
                        let t = refmodel::text::encode(r.pick(&crate::extra::NAMES));
                        *x = mutate::text_body(r, &t)
                    }
                    2 => {
                        let t = refmodel::text::encode(r.pick(&crate::extra::DESCS));
                        *x = mutate::text_body(r, &t)
                    }
                    _ => *x = r.pick(&inits).to_vec(),
                }
                if r.one_in(3) {
                    x.extend_from_slice(odd[r.below(n)]);
                }
            }
            let b = crate::extra::in_role(45 + r.below(24) as u16, *r.pick(&[0x21, 0x200, 0x8000]), role, &pair[0], &pair[1]);
            hurt(w, &b, "odd text");
        }
    });
    w.units("class names from text", 20000, 2_000_000, |w, r, _| {
        let t = if r.one_in(2) { generate::any_text(r, 40, 12) } else { generate::binary_name(r, 30) };
        let mut t = t.into_bytes();
        if r.one_in(2) {
            t = mutate::text_body(r, &t);
        }
        let t = String::from_utf8_lossy(&t).into_owned();
        w.enter(t.as_bytes(), "class name");
        let q = t.clone();
        match sut(move || cafebabe::descriptors::ClassName::try_from(std::borrow::Cow::Borrowed(q.as_str())).map(|x| x.to_string()).map_err(|e| e.to_string()).is_ok()) {
            Ok(ok) => w.stat(if ok { "names accepted" } else { "names refused" }, 1),
            Err(p) => w.violate(t.as_bytes(), "panic class name", &format!("ClassName::try_from({t:?}) panicked: {p}")),
        }
    });
}

// ---------------------------------------------------------------- C02

/// Bytes of heap any input may take: a fixed part, and so much for every byte of it.
pub const FIXED: i64 = 48 << 20;
pub const PER_BYTE: i64 = 1024;
pub const FIXED_REQUEST: usize = 24 << 20;

fn weigh(w: &mut W, b: &[u8], note: &str) {
    w.enter(b, note);
    w.seen(b, 0);
    let once = |w: &mut W, bytecode: bool| -> Option<(i64, i64, alloc::Use, alloc::Use)> {
        let r = sut(|| {
            let before = alloc::reset();
            let ok = {
                match parse(b, bytecode) {
                    Ok(c) => {
                        c.constantpool_iter().for_each(drop);
                        true
                    }
                    Err(e) => {
                        drop(e);
                        false
                    }
                }
            };
            (before, alloc::now(), ok)
        });
        match r {
            Ok((before, after, ok)) => {
                w.stat(if ok { "accepted" } else { "refused" }, 1);
                w.stat("allocations watched", after.requests);
                Some((after.live - before.live, after.blocks - before.blocks, before, after))
            }
            Err(_) => {
                w.stat("panicked (see C01)", 1);
                None
            }
        }
    };
    for bytecode in [true, false] {
        let Some((bytes, blocks, before, after)) = once(w, bytecode) else { continue };
        let peak = after.peak - before.live;
        let old = w.stats.get("largest total in use, bytes").copied().unwrap_or(0);
        w.stats.insert("largest total in use, bytes".into(), old.max(peak as u64));
        let old = w.stats.get("largest request, bytes").copied().unwrap_or(0);
        w.stats.insert("largest request, bytes".into(), old.max(after.largest as u64));
        w.outcome(&format!("{}{}", after.requests.min(300), (after.largest as f64 + 1.0).log2() as u32));
        let len = b.len() as i64;
        if peak > FIXED + PER_BYTE * len {
            w.violate(b, "peak", &format!("{note}: {peak} bytes in use for an input of {len}"));
        }
        if after.largest as i64 > FIXED_REQUEST as i64 + PER_BYTE * len {
            w.violate(b, "request", &format!("{note}: one request of {} bytes for an input of {len}", after.largest));
        }
        if bytes != 0 || blocks != 0 {
            // Something set up once and for all is no leak; what comes back each time is.
            let again = once(w, bytecode);
            let n = w.stats.get("not given back the first time").copied().unwrap_or(0) + 1;
            w.stats.insert("not given back the first time".into(), n);
            let steady = matches!(again, Some((b, k, ..)) if b != 0 || k != 0);
            if steady || n > 8 {
                w.violate(b, "leak", &format!("{note}, bytecode {bytecode}: {bytes} bytes in {blocks} blocks not given back after everything was dropped"));
            }
        }
    }
}

fn c02(w: &mut W) {
    hostiles(w, &[], 110, 2500, 60000, weigh);
    damaged(w, 9000, 400_000, 8, cfg, weigh);
    big_weigh(w);
    jdk(w, 800, 26000, |w, r, b| {
        weigh(w, b, "JDK class");
        let b = mutate::havoc(r, b);
        weigh(w, &b, "damaged JDK class");
    });
    // Texts that cannot be borrowed, in every role and of any length.
    let patterns: [&[u8]; 5] = [b"n", b"\xc0\x80", b"a\xed\xa0\x80\xed\xb0\x80", "\u{e9}".as_bytes(), b"nnnnnnnnnnnnnnn\xc0\x80"];
    let lengths = [8usize, 15, 16, 17, 24, 31, 63, 64, 127, 128, 255, 256, 1000, 4095, 4096, 5000, 32768, 65520];
    let long_text = |r: &mut Rng| {
        let (x, n) = (*r.pick(&patterns), *r.pick(&lengths));
        let mut t = x.repeat(n / x.len() + 1);
        t.extend_from_slice(*r.pick(&[b"".as_slice(), b"z", b"\xc0\x80", b"\xff"]));
        t.truncate(65535);
        t
    };
    w.units("texts that have to be copied", 1500, 60_000, |w, r, k| {
        let roles = crate::extra::ROLES;
        let role = roles[k as usize % roles.len()];
        let (n, d) = (long_text(r), [b"L".as_slice(), &long_text(r), b";"].concat());
        let d = if d.len() > 65535 || r.one_in(3) { r.pick(&[b"I".as_slice(), b"()V"]).to_vec() } else if r.one_in(2) { d } else { [b"(".as_slice(), &d[..d.len().min(65532)], b")V"].concat() };
        weigh(w, &crate::extra::in_role(*r.pick(&[52, 65]), *r.pick(&[0x21, 0x200]), role, &n, &d), "long text");
        // As the contents of an attribute, and as any text a class has.
        let c = cfg(r);
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        for _ in 0..4 {
            let Some(m) = mutate::pick_mark(r, &o.info, |m| m.what == What::Utf8) else { break };
            let t = long_text(r);
            weigh(w, &mutate::replace_utf8(&b, m, &t), "one text made long");
        }
        let mut p = hostile::Raw::new(65);
        let (name, other) = (p.utf8(b"SourceDebugExtension"), p.utf8(b"Unknown"));
        let code = p.utf8(b"Code");
        let (f, i, v) = (p.utf8(b"f"), p.utf8(b"I"), p.utf8(b"()V"));
        p.head();
        p.u2(1).u2(0).u2(f).u2(i).u2(1);
        p.attr(name, &long_text(r));
        let t = long_text(r);
        p.u2(1).u2(0).u2(f).u2(v).u2(1).u2(code).u4(13 + 6 + t.len() as u32).u2(0).u2(0).u4(1).u1(0xb1).u2(0).u2(1);
        p.attr(name, &t);
        p.u2(2);
        p.attr(name, &long_text(r));
        p.attr(other, &long_text(r));
        weigh(w, &p.bytes(), "long text as an attribute");
        w.stat("long texts in attributes", 4);
    });
    // Counts and lengths that nothing backs, one at a time.
    w.units("unbacked counts", 4000, 100_000, |w, r, _| {
        let c = cfg(r);
        let deep = r.one_in(5);
        let b = if deep {
            let k = r.u64();
            refmodel::deep::class(r, k)
        } else {
            generate::class(r, c)
        };
        let o = reference::parse_marked(&b, true);
        for _ in 0..if deep { 30 } else { 10 } {
            let Some(m) = mutate::pick_mark(r, &o.info, |m| matches!(m.what, What::Count | What::AttrLen | What::CodeLen | What::PoolCount | What::SwitchRange | What::Utf8Len)) else { return };
            let top = (1u64 << (8 * m.len)) - 1;
            let v = *r.pick(&[top, top - 1, top >> 1, (top >> 1) + 1, top >> 3, top >> 6]);
            let mut x = mutate::set(&b, m.pos, m.len, v);
            if r.one_in(3) {
                x.truncate(m.pos + m.len + r.below(20));
            }
            if r.one_in(3) {
                // An attribute that claims all there is lets what is inside claim as much.
                let len = x.len();
                for a in o.info.marks.iter().filter(|a| a.what == What::AttrLen && a.pos < m.pos && a.pos + 4 <= len) {
                    let n = x.len() - a.pos - 4;
                    x = mutate::set(&x, a.pos, 4, n as u64);
                }
            }
            weigh(w, &x, &format!("{:?} {} at {} set to {v}", m.what, m.site, m.pos));
        }
    });
}

fn big_weigh(w: &mut W) {
    let kinds = tables::KINDS;
    w.units("big tables", kinds.len() as u64 * 2, kinds.len() as u64 * 4, |w, r, k| {
        let (kind, most) = kinds[k as usize % kinds.len()];
        let b = tables::big(r, kind, if k as usize >= kinds.len() { most } else { 300.min(most) });
        weigh(w, &b, kind);
        let cut = b.len() - 1 - r.below(b.len() / 2);
        weigh(w, &b[..cut], kind);
    });
}

// ---------------------------------------------------------------- C03

fn c03(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::Wrong => !e.path.contains("attributes") && !e.path.starts_with("pool"),
        Kind::FalseReject | Kind::Panic => true,
        _ => false,
    };
    jdk(w, 2500, 26_600, |w, _, b| {
        w.judge(b, true, "JDK class", false);
    });
    extra::code_points(w);
    extra::long_texts(w);
    generated(w, "classes with many members", 6000, 300_000, true, |r| {
        let mut c = no_code(cfg(r));
        if c.shape != Shape::Module {
            c.interfaces = r.small(12);
            c.fields = r.small(20);
            c.methods = r.small(20);
        }
        c.attrs = r.below(2);
        c.extra = *r.pick(&[0, 5, 30]);
        c
    });
    generated(w, "classes of all sorts", 6000, 300_000, false, cfg);
    generated(w, "high indexes", 300, 6000, true, |r| Cfg { pad: *r.pick(&[130, 200, 32500, 65300]), ..no_code(cfg(r)) });
    big(w, &["interfaces", "fields", "methods", "class attributes", "field attributes", "method attributes", "pool ints", "pool longs", "pool strings", "pool text", "descriptor parameters"], true);
    sweep(w, "member values", 4000, 200_000, 10, |r| Cfg { interfaces: r.small(5), attrs: 0, shape: Shape::Class, ..no_code(cfg(r)) }, |m| {
        matches!(m.site, "minor" | "major" | "class.access" | "field.access" | "method.access" | "this_class" | "super_class" | "interface" | "field.name" | "field.descriptor" | "method.name" | "method.descriptor" | "interfaces.count" | "fields.count" | "methods.count")
    });
    // Every major and every minor version.
    w.units("every version", 2048, 2048, |w, r, k| {
        for j in 0..64u32 {
            let v = (k as u32 % 1024 * 64 + j) as u16;
            let mut p = Raw::new(if k < 1024 { v } else { *r.pick(&[45, 46, 52, 55, 56, 61, 65]) });
            let minor: u16 = if k < 1024 { *r.pick(&[0, 1, 3, 0xffff]) } else { v };
            let c = p.class("A");
            let f = *r.pick(&[0x21, 0x601, 0x4031, 0x2601, 0x1000]);
            p.u2(f).u2(c).u2(c).u2(0).u2(0).u2(0).u2(0);
            let mut b = p.bytes();
            b[4..6].copy_from_slice(&minor.to_be_bytes());
            w.judge(&b, true, &format!("version {v}"), true);
        }
        w.stat("versions tried", 64);
    });
    // Every reference of a member turned to another text of its sort.
    w.units("members renamed", 1500, 80_000, |w, r, _| {
        let c = Cfg { attrs: 0, extra: 20, shape: Shape::Class, interfaces: 2, fields: 3, methods: 3, ..no_code(cfg(r)) };
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        for m in o.info.marks.iter().filter(|m| matches!(m.site, "this_class" | "super_class" | "interface" | "field.name" | "field.descriptor" | "method.name" | "method.descriptor")) {
            let all: Vec<usize> = (0..o.info.pool.len()).filter(|k| o.info.pool[*k].kind() & m.allowed != 0).collect();
            for _ in 0..4 {
                let x = mutate::set(&b, m.pos, m.len, *r.pick(&all) as u64);
                w.judge(&x, true, &format!("{} redirected", m.site), true);
            }
        }
    });
}

// ---------------------------------------------------------------- C04

fn in_attributes(m: &Mark) -> bool {
    !matches!(
        m.site,
        "magic" | "minor" | "major" | "class.access" | "field.access" | "method.access" | "this_class" | "super_class" | "interface" | "field.name" | "field.descriptor" | "method.name" | "method.descriptor" | "interfaces.count" | "fields.count"
            | "methods.count" | "pool.count" | "pool.tag" | "opcode" | "wide.opcode"
    ) && !matches!(m.what, What::Utf8 | What::Utf8Len | What::Bits | What::Branch | What::Imm | What::Pad | What::Atype | What::RefKind | What::Code | What::Tag)
        && !m.site.contains("ref.")
}

fn c04(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::Wrong => e.path.contains("attributes") && !e.path.contains("Code.insns"),
        Kind::Panic => true,
        _ => false,
    };
    jdk(w, 2000, 26_600, |w, _, b| {
        w.judge(b, true, "JDK class", false);
    });
    generated(w, "attributes everywhere", 5000, 300_000, true, |r| {
        let mut c = cfg(r);
        c.attrs = 6;
        c.insns = 3;
        c.misplaced = *r.pick(&[0, 30, 100]);
        c.nest = 3;
        c
    });
    deep(w);
    let places = [Shape::Class, Shape::Interface, Shape::Module];
    w.units("one kind of attribute", ALL_ATTRS.len() as u64 * 60, ALL_ATTRS.len() as u64 * 4000, |w, r, k| {
        let kind = ALL_ATTRS[k as usize % ALL_ATTRS.len()];
        let mut c = cfg(r);
        c.shape = *r.pick(&places);
        if kind.starts_with("Module") {
            c.shape = Shape::Module;
        }
        if c.shape == Shape::Module {
            c.major = c.major.max(53);
        }
        if kind == "BootstrapMethods" {
            c.major = c.major.max(51);
            c.bootstraps = c.bootstraps.max(1);
        }
        c.only = if r.one_in(2) { vec![kind] } else { vec![kind, "Code", "Record"] };
        c.attrs = 4;
        c.insns = 3;
        let b = generate::class(r, c);
        faults(w, r, &b, 12, &in_attributes, kind);
    });
    // All 256 codes of a frame and of a type in one.
    w.units("every frame code", 500, 20_000, |w, r, k| {
        let mut c = cfg(r);
        c.shape = Shape::Class;
        c.only = vec!["Code", "StackMapTable"];
        c.code = 100;
        c.attrs = 2;
        c.insns = 3;
        c.methods = 2;
        c.pad = 0;
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        let what = [What::FrameTag, What::VerTag][k as usize % 2];
        let Some(m) = mutate::pick_mark(r, &o.info, |m| m.what == what).cloned() else { return };
        for v in 0..256 {
            let x = mutate::set(&b, m.pos, 1, v);
            w.judge(&x, true, &format!("{what:?} set to {v}"), true);
        }
        w.stat(format!("places tried with all 256 codes: {what:?}"), 1);
    });
    big(w, &[], true);
    sweep(w, "attribute contents", 4000, 200_000, 12, |r| Cfg { attrs: 4, insns: 3, misplaced: *r.pick(&[0, 30]), ..cfg(r) }, in_attributes);
    hostiles(w, &["attribute noise"], 0, 12000, 600_000, |w, b, f| {
        w.judge(b, true, f, true);
    });
    // Names that are almost those of known attributes.
    w.units("attribute names", 3000, 100_000, |w, r, k| {
        let name = ALL_ATTRS[k as usize % ALL_ATTRS.len()];
        let mut c = cfg(r);
        c.only = vec![name];
        c.insns = 2;
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        let Some(m) = o.info.marks.iter().find(|m| m.site == "Utf8.bytes" && b[m.pos..m.pos + m.len] == *name.as_bytes()).copied() else { return };
        let mut t = name.as_bytes().to_vec();
        let p = r.below(t.len());
        match r.below(6) {
            0 => {
                t.pop();
            }
            1 => t.push(*r.pick(b"s \0X")),
            2 => t[p] ^= 0x20,
            3 => {
                t.remove(p);
            }
            4 => t = r.pick(&ALL_ATTRS).as_bytes().to_vec(),
            _ => t.insert(p, b'x'),
        }
        w.judge(&mutate::replace_utf8(&b, &m, &t), true, &format!("{name} renamed {}", String::from_utf8_lossy(&t)), true);
    });
}

// ---------------------------------------------------------------- C05

fn annotation_site(m: &Mark) -> bool {
    m.site.contains("nnotation") || m.site.starts_with("element_value") || m.site.starts_with("parameters.")
}

fn anno_cfg(r: &mut Rng) -> Cfg {
    let mut c = cfg(r);
    c.only = if r.one_in(2) { ANNOTATIONS.to_vec() } else { vec![*r.pick(&ANNOTATIONS), "Record", "Code"] };
    c.anno_depth = *r.pick(&[1, 2, 4, 8]);
    c.insns = 2;
    c.attrs = 3;
    c
}

fn c05(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::Wrong => e.path.contains("nno") || e.path.contains("Element"),
        Kind::Panic => true,
        _ => false,
    };
    jdk(w, 600, 26_600, |w, _, b| {
        w.judge(b, true, "JDK class", false);
    });
    deep(w);
    generated(w, "annotations", 8000, 400_000, true, anno_cfg);
    sweep(w, "annotation contents", 5000, 250_000, 12, anno_cfg, annotation_site);
    // All 256 codes at a place.
    w.units("every code", 700, 30_000, |w, r, k| {
        let mut c = anno_cfg(r);
        c.fields = c.fields.min(2);
        c.methods = c.methods.min(2);
        c.anno_depth = c.anno_depth.min(3);
        c.pad = 0;
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        let what = [What::AnnoTag, What::TargetType, What::PathKind][k as usize % 3];
        let Some(m) = mutate::pick_mark(r, &o.info, |m| m.what == what).copied() else { return };
        for v in 0..256 {
            let x = mutate::set(&b, m.pos, 1, v);
            w.judge(&x, true, &format!("{what:?} set to {v}"), true);
        }
        w.stat(format!("places tried with all 256 codes: {what:?}"), 1);
    });
    hostiles(w, &["nested annotations"], 54, 3000, 100_000, |w, b, f| {
        w.judge(b, true, f, true);
    });
    big(w, &["annotations", "annotation elements", "annotation array", "parameter annotations", "annotations of a parameter", "type annotations", "local variable targets", "type path"], true);
    // One element value of each kind at each depth in arrays and nested annotations.
    w.units("each value at each depth", 2000, 60_000, |w, r, k| {
        let b = nested_value(r, k);
        let (o, _) = w.judge(&b, true, "value at depth", true);
        if o.result.is_ok() {
            w.stat("values at depth, well-formed", 1);
        }
        faults(w, r, &b, 6, &annotation_site, "value at depth");
    });
}

/// Each kind of value at the end of a random path of arrays and annotations with siblings.
fn nested_value(r: &mut Rng, k: u64) -> Vec<u8> {
    let mut p = Raw::new(*r.pick(&[49, 52, 65]));
    let attr = ANNOTATIONS[k as usize % 7];
    let a = p.utf8(attr.as_bytes());
    let types = [p.utf8(b"LA;"), p.utf8(b"[La/B;"), p.utf8(b"I"), p.utf8(b"Lx/Y$Z;")];
    let names = [p.utf8(b"n"), p.utf8(b"value"), p.utf8(b"z9")];
    let int = p.entry(&[3, 0xff, 0xff, 0xff, 0xf9]);
    let float = p.entry(&[4, 0x7f, 0xc0, 0, 1]);
    let long = p.entry(&[5, 0x80, 0, 0, 0, 0, 0, 0, 1]);
    let double = p.entry(&[6, 0xff, 0xf0, 0, 0, 0, 0, 0, 0]);
    let void = p.utf8(b"V");
    fn leaf(r: &mut Rng, b: &mut Vec<u8>, t: u8, c: &[u16; 5], types: &[u16; 4], names: &[u16; 3]) {
        b.push(t);
        let u2 = |b: &mut Vec<u8>, x: u16| b.extend(x.to_be_bytes());
        match t {
            b'F' => u2(b, c[1]),
            b'J' => u2(b, c[2]),
            b'D' => u2(b, c[3]),
            b's' => u2(b, *r.pick(names)),
            b'e' => {
                u2(b, *r.pick(types));
                u2(b, *r.pick(names));
            }
            b'c' => {
                let v = if r.one_in(3) { c[4] } else { *r.pick(types) };
                u2(b, v);
            }
            b'@' => {
                u2(b, *r.pick(types));
                u2(b, 0);
            }
            b'[' => u2(b, 0),
            _ => u2(b, c[0]),
        }
    }
    let c = [int, float, long, double, void];
    let tags = b"BCDFIJSZsec@[";
    let mut b = vec![];
    let u2 = |b: &mut Vec<u8>, x: u16| b.extend(x.to_be_bytes());
    let depth = (k as usize / 91) % 17;
    let mut after: Vec<Vec<u8>> = vec![];
    let anno = |r: &mut Rng, b: &mut Vec<u8>, after: &mut Vec<Vec<u8>>| {
        u2(b, *r.pick(&types));
        let n = 1 + r.below(3);
        let before = r.below(n);
        u2(b, n as u16);
        for _ in 0..before {
            u2(b, *r.pick(&names));
            let tag = *r.pick(tags);
            leaf(r, b, tag, &c, &types, &names);
        }
        u2(b, *r.pick(&names));
        let mut rest = vec![];
        for _ in before + 1..n {
            u2(&mut rest, *r.pick(&names));
            let tag = *r.pick(tags);
            leaf(r, &mut rest, tag, &c, &types, &names);
        }
        after.push(rest);
    };
    match k as usize % 7 {
        0 | 1 => {
            u2(&mut b, 1);
            anno(r, &mut b, &mut after);
        }
        2 | 3 => {
            b.extend([2, 0, 0, 0, 1]);
            anno(r, &mut b, &mut after);
        }
        4 | 5 => {
            b.extend([0, 1, 0x13, 1, 3, 2]);
            anno(r, &mut b, &mut after);
        }
        _ => {}
    }
    for _ in 0..depth {
        if r.one_in(2) {
            b.push(b'@');
            anno(r, &mut b, &mut after);
        } else {
            let n = 1 + r.below(3);
            let before = r.below(n);
            b.push(b'[');
            u2(&mut b, n as u16);
            for _ in 0..before {
                let tag = *r.pick(tags);
                leaf(r, &mut b, tag, &c, &types, &names);
            }
            let mut rest = vec![];
            for _ in before + 1..n {
                let tag = *r.pick(tags);
                leaf(r, &mut rest, tag, &c, &types, &names);
            }
            after.push(rest);
        }
    }
    leaf(r, &mut b, tags[(k as usize / 7) % 13], &c, &types, &names);
    for rest in after.into_iter().rev() {
        b.extend(rest);
    }
    let (n, d) = (p.utf8(b"m"), p.utf8(b"()V"));
    p.head().u2(0).u2(1).u2(1).u2(n).u2(d).u2(1);
    p.attr(a, &b);
    p.u2(0);
    p.bytes()
}

// ---------------------------------------------------------------- C06

fn code_cfg(r: &mut Rng) -> Cfg {
    let mut c = cfg(r);
    c.shape = if r.one_in(6) { Shape::Interface } else { Shape::Class };
    c.methods = 1 + r.small(3);
    c.fields = 0;
    c.code = 100;
    c.attrs = r.below(2);
    c.insns = *r.pick(&[2, 6, 20, 60]);
    c.branchy = *r.pick(&[0, 10, 50]);
    c.loady = *r.pick(&[0, 10, 50]);
    c
}

fn code_mark(m: &Mark) -> bool {
    matches!(m.what, What::Opcode | What::Imm | What::Pad | What::SwitchRange | What::Atype | What::Branch | What::CodeLen | What::Code) || matches!(m.site, "Code.max_stack" | "Code.max_locals") || code_ref(m)
}
pub fn code_ref(m: &Mark) -> bool {
    m.what == What::CpRef && !m.site.contains('.') && !matches!(m.site, "this_class" | "super_class" | "interface")
}

/// A class whose one method has just these bytes of code, and constants of every kind to refer to.
pub fn with_code(major: u16, code: &[u8]) -> Vec<u8> {
    let mut p = Raw::new(major);
    let a = p.class("a/A"); // 2
    let arr = p.class("[[I"); // 4
    let n = p.utf8(b"n");
    let fd = p.utf8(b"J");
    let md = p.utf8(b"(I)V"); // 7
    let fnt = p.e2(12, n, fd); // 8
    let mnt = p.e2(12, n, md); // 9
    p.e2(9, a, fnt); // 10
    p.e2(10, a, mnt); // 11
    p.e2(11, a, mnt); // 12
    p.entry(&[3, 0x80, 0, 0, 1]); // 13
    p.entry(&[4, 0x80, 0, 0, 0]); // 14
    p.entry(&[5, 1, 2, 3, 4, 5, 6, 7, 8]); // 15, 16
    p.entry(&[6, 0x7f, 0xf8, 0, 0, 0, 0, 0, 2]); // 17, 18
    p.e1(8, n); // 19
    let _ = arr;
    if major >= 51 {
        p.e1(16, md); // 20
        p.entry(&[15, 6, 0, 11]); // 21
        p.e2(18, 0, mnt); // 22
    }
    if major >= 55 {
        p.e2(17, 0, fnt); // 23
        let id = p.utf8(b"I");
        let int = p.e2(12, n, id);
        p.e2(17, 0, int); // 26
    }
    let boot = p.utf8(b"BootstrapMethods");
    p.method(code);
    if major >= 51 {
        // Replace the empty list of class attributes.
        p.body.truncate(p.body.len() - 2);
        p.u2(1).u2(boot).u4(6).u2(1).u2(21).u2(0);
    }
    p.bytes()
}

fn c06(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::Wrong => e.path.contains("insns") || e.path.contains("Code.code") || e.path.contains("Code.max"),
        Kind::FalseAccept => matches!(e.cat, Some(Cat::Code)),
        Kind::Panic => true,
        _ => false,
    };
    jdk(w, 1500, 26_600, |w, _, b| {
        w.judge(b, true, "JDK class", false);
    });
    generated(w, "code", 6000, 300_000, true, code_cfg);
    sweep(w, "code contents", 5000, 250_000, 14, code_cfg, code_mark);
    // Every operation over boundary operands, at every alignment, whole and cut short.
    w.units("every operation", 256 * 8, 256 * 400, |w, r, k| {
        let op = (k % 256) as u8;
        let major = *r.pick(&[48, 51, 52, 55, 65]);
        for _ in 0..24 {
            let mut code = vec![0u8; r.below(5)];
            code.push(op);
            let n = if matches!(op, 0xaa | 0xab) { 12 + r.below(30) } else { r.below(7) };
            let few = r.one_in(2);
            for _ in 0..n {
                let x = if few { *r.pick(&[0u8, 0, 0, 1, 2, 3, 4, 7, 10, 11, 13]) } else { *r.pick(&[0, 1, 2, 4, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 22, 23, 26, 0x7f, 0x80, 0xff, 0x84, 0xc4]) };
                code.push(x);
            }
            if r.one_in(3) {
                code.extend([0; 6]);
            }
            w.judge(&with_code(major, &code), true, &format!("operation {op:#x}"), true);
        }
    });
    w.units("every wide operation", 256, 256 * 20, |w, r, k| {
        let op = (k % 256) as u8;
        for n in 0..6 {
            for _ in 0..3 {
                let mut code = vec![0u8; r.below(3)];
                code.extend([0xc4, op]);
                for _ in 0..n {
                    code.push(*r.pick(&[0, 1, 0x7f, 0x80, 0xff]));
                }
                w.judge(&with_code(52, &code), true, &format!("wide {op:#x}"), true);
            }
        }
    });
    // Operands exhaustively.
    let list = immediates();
    w.units("every operand", list.len() as u64, list.len() as u64, |w, _, k| {
        let (what, code) = &list[k as usize];
        w.judge(&with_code(60, code), true, what, true);
    });
    w.units("every one-byte operand refused or read", 256 * 4, 256 * 4, |w, _, k| {
        let v = (k % 256) as u8;
        let code = match k / 256 {
            0 => vec![0x12, v],
            1 => vec![0xbc, v],
            2 => vec![0xc5, 0, 4, v],
            _ => vec![0xb9, 0, 12, v, 0],
        };
        w.judge(&with_code(60, &code), true, "one-byte operand", true);
    });
    hostiles(w, &["switch extremes", "branch extremes", "code noise"], 0, 9000, 500_000, |w, b, f| {
        w.judge(b, true, f, true);
    });
    w.units("long code", 40, 1500, |w, r, _| {
        let mut c = code_cfg(r);
        c.methods = 1;
        c.insns = *r.pick(&[3000, 12000, 30000]);
        c.branchy = *r.pick(&[0, 5, 20]);
        let b = generate::class(r, c);
        w.judge(&b, true, "long code", true);
    });
    far(w);
    oversize(w);
    switches(w);
    big(w, &["code attributes", "exception table"], true);
}

/// Things within things. How deep they may go is for the parser to say; what it accepts it reads.
fn deep(w: &mut W) {
    w.units("deep nesting", 1200, 60_000, |w, r, k| {
        let b = refmodel::deep::class(r, k);
        faults(w, r, &b, 6, &|_: &Mark| true, "deep nesting");
    });
}

/// Code of all lengths with something of everything at every distance, and one thing changed.
fn far(w: &mut W) {
    w.units("far into code", 60, 3000, |w, r, k| {
        let n = [300usize, 1000, 33_000, 65_000, 60_000, 20_000][k as usize % 6];
        let b = refmodel::deep::long(r, n);
        faults(w, r, &b, 6, &|m: &Mark| m.site != "Utf8", "far into code");
    });
}

/// Code longer than a class file may have it. It may be refused; what is accepted is decoded in
/// full and checked in full.
fn oversize(w: &mut W) {
    w.units("oversize code", 24, 600, |w, r, k| {
        let n = [65536usize, 65537, 65540, 70_000, 98_303, 131_072, 131_073, 200_000][k as usize % 8];
        let mut code = vec![0u8; n];
        // Long jumps over the limit in both directions, and something at the very end.
        let wide = |code: &mut Vec<u8>, at: usize, to: usize| {
            code[at] = 0xc8;
            code[at + 1..at + 5].copy_from_slice(&(to as i32 - at as i32).to_be_bytes());
        };
        let end = n - 12;
        wide(&mut code, 0, end);
        wide(&mut code, end, r.range(5, end));
        code[n - 4..].copy_from_slice(&[0x10, r.u8(), 0x84, 0]);
        match k / 8 % 3 {
            0 => code[n - 2..].copy_from_slice(&[0xb1, 0xb1]),
            // Cut short.
            1 => {}
            // Undefined.
            _ => code[n - 2..].copy_from_slice(&[0xb1, 0xd0 + r.below(46) as u8]),
        }
        let b = with_code(60, &code);
        if k / 8 % 3 == 0 && !matches!(sut(|| parse(&b, true).is_ok()), Ok(true)) {
            w.stat("oversize code refused", 1);
            return;
        }
        w.judge(&b, true, "oversize code", true);
        if w.id == "C07" {
            lookups(w, &b, "oversize code");
        }
    });
}

fn immediates() -> Vec<(String, Vec<u8>)> {
    let mut list = vec![];
    let mut chunks = |what: &str, all: Vec<Vec<u8>>| {
        let mut code = vec![];
        for x in all {
            if code.len() + x.len() > 65000 {
                list.push((what.to_string(), std::mem::take(&mut code)));
            }
            code.extend(x);
        }
        list.push((what.to_string(), code));
    };
    chunks("sipush", (0..=u16::MAX).map(|v| vec![0x11, (v >> 8) as u8, v as u8]).collect());
    chunks("bipush", (0..=255).map(|v| vec![0x10, v]).collect());
    for op in [0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3a, 0xa9] {
        chunks(&format!("local {op:#x}"), (0..=255).map(|v| vec![op, v]).collect());
        chunks(&format!("wide local {op:#x}"), (0..=u16::MAX).step_by(if op == 0x15 { 1 } else { 5 }).map(|v| vec![0xc4, op, (v >> 8) as u8, v as u8]).collect());
    }
    chunks("iinc", (0..=u16::MAX).map(|v| vec![0x84, (v >> 8) as u8, v as u8]).collect());
    chunks("wide iinc", (0..=u16::MAX).step_by(3).map(|v| vec![0xc4, 0x84, (v >> 8) as u8, v as u8, (v.wrapping_mul(7) >> 8) as u8, v.wrapping_mul(7) as u8]).collect());
    let (some, edges) = ([0u16, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535], [0u16, 1, 127, 128, 129, 255, 256, 0x7fff, 0x8000, 0x8001, 0xff7f, 0xff80, 0xff81, 0xfffe, 0xffff]);
    chunks("wide iinc at the edges", some.iter().flat_map(|a| edges.iter().map(move |b| vec![0xc4, 0x84, (a >> 8) as u8, *a as u8, (b >> 8) as u8, *b as u8])).collect());
    for a in [0u16, 255, 256] {
        chunks("wide iinc by everything", (0..=u16::MAX).step_by(if a == 0 { 1 } else { 3 }).map(|b| vec![0xc4, 0x84, (a >> 8) as u8, a as u8, (b >> 8) as u8, b as u8]).collect());
    }
    chunks("newarray", (4..12).map(|v| vec![0xbc, v]).collect());
    list
}

/// Switches of every size up to a few, at every alignment, and some large.
fn switches(w: &mut W) {
    w.units("switches", 1200, 40_000, |w, r, k| {
        let pad = (k % 4) as usize;
        let n = if k % 50 == 49 { *r.pick(&[255usize, 256, 257, 1000, 5000, 8000]) } else { r.below(9) };
        let table = r.one_in(2);
        let mut code = vec![0u8; pad + 4 * r.below(3)];
        let at = code.len();
        code.push(if table { 0xaa } else { 0xab });
        while code.len() % 4 != 0 {
            code.push(0);
        }
        let len = code.len() + 4 + if table { 8 + 4 * n } else { 4 + 8 * n };
        let target = |r: &mut Rng| -> u32 {
            match r.below(3) {
                0 => 0,
                1 => (len - at) as u32,
                _ => (r.below(at + 1) as i64 - at as i64) as i32 as u32,
            }
        };
        code.extend(target(r).to_be_bytes());
        if table {
            let low = *r.pick(&[0i64, -1, i32::MIN as i64, i32::MAX as i64 - n as i64 + 1, 100, -(n as i64) / 2]);
            code.extend((low as i32).to_be_bytes());
            code.extend((low.wrapping_add(n as i64 - 1) as i32).to_be_bytes());
        } else {
            code.extend((n as u32).to_be_bytes());
        }
        let start = *r.pick(&[i32::MIN as i64, -5, 0, 0x7fff_0000]);
        for j in 0..n {
            if !table {
                code.extend(((start + j as i64 * 3) as i32).to_be_bytes());
            }
            code.extend(target(r).to_be_bytes());
        }
        code.push(0xb1);
        w.judge(&with_code(50, &code), true, "switch", true);
        // Cut short at any point, and with one branch gone astray.
        for _ in 0..4 {
            let cut = 1 + r.below(code.len());
            w.judge(&with_code(50, &code[..cut]), true, "switch cut short", true);
            let mut x = code.clone();
            let p = at + r.below(x.len() - at);
            x[p] = x[p].wrapping_add(*r.pick(&[1, 255, 0x80, 4]));
            w.judge(&with_code(50, &x), true, "switch changed", true);
        }
    });
}

// ---------------------------------------------------------------- C07

fn insns(o: &Outcome) -> Vec<Vec<u64>> {
    let mut out = vec![];
    if let Ok(p) = &o.result {
        p.tree.walk(&mut |v| {
            if v.tag() == "Code" {
                out.push(v.get("insns").list().iter().map(|i| i.get("offset").num() as u64).collect());
            }
        });
    }
    out
}

/// Offset lookups over the whole of every code array, and the branches themselves.
pub fn lookups(w: &mut W, b: &[u8], note: &str) {
    let r = sut(|| -> Result<(u64, u64), String> {
        let Ok(c) = parse(b, true) else { return Ok((0, 0)) };
        let (mut asked, mut branches) = (0, 0);
        let mut bad: Option<String> = None;
        all_codes(&c, &mut |x| {
            let Some(bc) = &x.bytecode else {
                bad = Some("no bytecode".into());
                return;
            };
            let mut next = 0;
            let n = x.code.len() + 3;
            let mut prev = None;
            for (k, (o, _)) in bc.opcodes.iter().enumerate() {
                if prev.is_some_and(|p| p >= *o) || (k == 0 && *o != 0) || *o >= x.code.len() {
                    bad = Some(format!("offset {o} of instruction {k} out of order"));
                    return;
                }
                prev = Some(*o);
            }
            for o in 0..n {
                asked += 1;
                let e = if next < bc.opcodes.len() && bc.opcodes[next].0 == o {
                    next += 1;
                    Some(next - 1)
                } else {
                    None
                };
                let g = bc.get_opcode_index(o);
                if g != e {
                    bad = Some(format!("looking up offset {o} of {} gave {g:?} and not {e:?}", x.code.len()));
                    return;
                }
            }
            for o in [n, 65535, 65536, 65537, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX] {
                if o >= x.code.len() && bc.get_opcode_index(o).is_some() {
                    bad = Some(format!("looking up offset {o} of {} found something", x.code.len()));
                    return;
                }
            }
            for (k, (o, op)) in bc.opcodes.iter().enumerate() {
                for d in extra::jumps(op) {
                    branches += 1;
                    let to = *o as i64 + d;
                    if to < 0 || bc.opcodes.binary_search_by_key(&(to as usize), |x| x.0).is_err() {
                        bad = Some(format!("instruction {k} at {o} branches to {to}, where no instruction starts"));
                        return;
                    }
                }
            }
        });
        match bad {
            Some(m) => Err(m),
            None => Ok((asked, branches)),
        }
    });
    match r {
        Ok(Ok((asked, branches))) => {
            w.stat("offsets looked up", asked);
            w.stat("branches followed", branches);
        }
        Ok(Err(m)) => w.violate(b, &m, &format!("{note}: {m}")),
        Err(p) => w.violate(b, "panic", &format!("{note}: panicked: {p}")),
    }
}

fn branch_cfg(r: &mut Rng) -> Cfg {
    Cfg { branchy: *r.pick(&[30, 60, 90]), loady: 0, attrs: r.below(2), ..code_cfg(r) }
}

fn c07(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::Wrong => e.path.contains("Insn.offset") || e.path.contains("jumps") || e.path.contains("default") || e.path.contains("Pair.offset"),
        Kind::FalseAccept => matches!(e.cat, Some(Cat::Branch)),
        Kind::Panic => true,
        _ => false,
    };
    let both = |w: &mut W, b: &[u8], note: &str, own: bool| {
        w.judge(b, true, note, own);
        lookups(w, b, note);
    };
    jdk(w, 1200, 26_600, |w, _, b| both(w, b, "JDK class", false));
    w.units("branching code", 5000, 250_000, |w, r, _| {
        let c = branch_cfg(r);
        let b = generate::class(r, c);
        both(w, &b, "branching code", true);
    });
    sweep(w, "branches", 4000, 200_000, 14, branch_cfg, |m| m.what == What::Branch);
    // Every branch of a small method sent everywhere in reach, and to the far ends.
    w.units("every destination", 700, 30_000, |w, r, _| {
        let mut c = branch_cfg(r);
        c.methods = 1;
        c.insns = 2 + r.below(8);
        c.attrs = 0;
        c.pad = 0;
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        let starts = insns(&o);
        let Some(m) = mutate::pick_mark(r, &o.info, |m| m.what == What::Branch).copied() else { return };
        let Some(span) = o.info.code_spans.iter().find(|s| s.0 <= m.pos && m.pos < s.0 + s.1.max(1)).copied() else { return };
        let len = span.1 as i64;
        let _ = starts;
        let bits = 8 * m.len as u32;
        let half = 1i64 << (bits - 1);
        let mut all: Vec<i64> = (-len - 4..=len + 4).filter(|_| len < 300).collect();
        for e in [-half, -half + 1, half - 1, half - 2, -32768, -32769, 32767, 32768, 65535, 65536, -65536, 65536 + len / 2, -65536 - len / 2, half / 2] {
            if e >= -half && e < half {
                all.push(e);
            }
        }
        for d in all {
            let v = (d as u64) & (u64::MAX >> (64 - bits));
            let x = mutate::set(&b, m.pos, m.len, v);
            w.judge(&x, true, &format!("{} at {} set to {d}", m.site, m.pos), true);
        }
    });
    hostiles(w, &["branch extremes", "switch extremes", "code noise"], 0, 6000, 300_000, |w, b, f| {
        w.judge(b, true, f, true);
        lookups(w, b, f);
    });
    far(w);
    // One bad destination among many, wherever it is.
    w.units("switches with one bad jump", 400, 20_000, |w, r, k| {
        let table = k % 2 == 0;
        let n = *r.pick(&[1usize, 2, 3, 8, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4095, 4096, 4097, 8000, 8150]);
        let n = if table && r.one_in(3) { n * 2 } else { n };
        let mut code = vec![0u8; r.below(5)];
        let at = code.len();
        code.push(if table { 0xaa } else { 0xab });
        while code.len() % 4 != 0 {
            code.push(0);
        }
        let len = code.len() + 4 + if table { 8 + 4 * n } else { 4 + 8 * n };
        let bad = match r.below(5) {
            0 => None,
            1 => Some(n),
            2 => Some(n - 1),
            3 => Some(n / 2),
            _ => Some(r.below(n + 1)),
        };
        let target = |r: &mut Rng, j: usize| -> u32 {
            let good = [0, (len - at) as u32, (-(at as i64)) as i32 as u32];
            if bad == Some(j) { *r.pick(&[1u32, (len - at) as u32 + 1, (len - at) as u32 - 1, 0x7fff_ffff, 0x8000_0000, (-(at as i64) - 1) as i32 as u32]) } else { *r.pick(&good) }
        };
        code.extend(target(r, n).to_be_bytes());
        let low = *r.pick(&[0i32, -1, i32::MIN, 100]);
        if table {
            code.extend(low.to_be_bytes());
            code.extend((low as i64 + n as i64 - 1).to_be_bytes()[4..].iter());
        } else {
            code.extend((n as u32).to_be_bytes());
        }
        // Keys in order, some of them the same as others, or all of them.
        let step = *r.pick(&[0i32, 1, 1, 3]);
        let twice = r.one_in(3);
        for j in 0..n {
            if !table {
                let i = if twice { j / 2 } else { j } as i32;
                code.extend(low.wrapping_add(i * step).to_be_bytes());
            }
            code.extend(target(r, j).to_be_bytes());
        }
        code.push(0xb1);
        w.judge(&with_code(50, &code), true, &format!("switch of {n}, bad jump {bad:?}"), true);
    });
    w.units("long code", 30, 1000, |w, r, k| {
        let mut c = branch_cfg(r);
        c.methods = 1;
        c.branchy = *r.pick(&[1, 5, 20]);
        c.insns = *r.pick(&[2000, 10000, 20000]);
        let b = generate::class(r, c);
        both(w, &b, "long code", true);
        // Code of just the greatest lengths, all of one-byte instructions.
        let n = [65535usize, 65534, 32769, 32768, 32767, 256, 255][k as usize % 7];
        let mut code = vec![0u8; n];
        code[n - 3] = 0xa7;
        let d = if k % 2 == 0 { 0 } else { -((n - 3).min(32768) as i64) };
        code[n - 2..].copy_from_slice(&(d as i16).to_be_bytes());
        both(w, &with_code(50, &code), "longest code", true);
    });
    oversize(w);
    // Lookups in small code of every layout.
    w.units("lookups", 6000, 300_000, |w, r, _| {
        let mut code = vec![];
        for _ in 0..1 + r.below(12) {
            match r.below(5) {
                0 | 1 => code.push(0),
                2 => code.extend([0x10, 1]),
                3 => code.extend([0x11, 0, 1]),
                _ => code.extend([0xc4, 0x84, 0, 0, 0, 0]),
            }
        }
        let b = with_code(50, &code);
        both(w, &b, "small code", true);
    });
}

// ---------------------------------------------------------------- C08

/// Iterates twice, and two iterators in turn, and one left unfinished: all say the same.
pub fn iterate(w: &mut W, b: &[u8], note: &str) {
    let r = sut(|| -> Result<u64, String> {
        let Ok(c) = parse(b, false) else { return Ok(0) };
        let mut a = crate::adapt::Adapter::new(b);
        c.constantpool_iter().take(2).for_each(drop);
        let first: Vec<V> = c.constantpool_iter().map(|x| a.item(&x)).collect();
        let (mut p, mut q) = (c.constantpool_iter(), c.constantpool_iter());
        let n = first.len();
        if n > 2 {
            // q runs ahead.
            q.next();
        }
        for (k, e) in first.iter().enumerate() {
            match p.next() {
                Some(x) if a.item(&x) == *e => {}
                Some(x) => return Err(format!("item {k} was {} and is now {}", e.brief(), a.item(&x).brief())),
                None => return Err(format!("only {k} items the second time, {n} the first")),
            }
            let ahead = if n > 2 { k + 1 } else { k };
            match (q.next(), first.get(ahead)) {
                (Some(x), Some(e)) if a.item(&x) == *e => {}
                (None, None) => {}
                (x, e) => return Err(format!("item {ahead} was {:?} and is now {:?}", e.map(|e| e.brief()), x.map(|x| a.item(&x).brief()))),
            }
        }
        for _ in 0..3 {
            if p.next().is_some() {
                return Err(format!("more than {n} items the second time"));
            }
        }
        Ok(n as u64)
    });
    match r {
        Ok(Ok(n)) => w.stat("items iterated again", n),
        Ok(Err(m)) => w.violate(b, "iterate", &format!("{note}: {m}")),
        Err(p) => w.violate(b, "panic", &format!("{note}: panicked: {p}")),
    }
}

fn pool_cfg(r: &mut Rng) -> Cfg {
    let mut c = no_code(cfg(r));
    c.extra = *r.pick(&[5, 30, 80]);
    c.fields = r.below(2);
    c.methods = r.below(2);
    if c.shape == Shape::Module {
        c.fields = 0;
        c.methods = 0;
    }
    c.attrs = r.below(2);
    if c.major >= 51 {
        c.bootstraps = *r.pick(&[0, 1, 3, 300]);
    }
    c
}

/// However a caller draws the items, they are the same, and at the end nothing more comes.
fn protocol(w: &mut W, b: &[u8], note: &str) {
    let mut r = Rng::new(refmodel::rng::hash(b));
    let found = sut(|| {
        let Ok(c) = parse(b, true) else { return (0, None) };
        let mut a = crate::adapt::Adapter::new(b);
        let all: Vec<V> = a.pool(&c);
        let n = all.len();
        let mut bad = None;
        let mut must = |fine: bool, what: String| {
            if !fine && bad.is_none() {
                bad = Some(what);
            }
        };
        let mut it = c.constantpool_iter();
        let mut at = 0;
        loop {
            let (lo, hi) = it.size_hint();
            must(lo <= n - at && hi.is_none_or(|h| h >= n - at), format!("size_hint says {lo}..{hi:?} with {} items left", n - at));
            let skip = r.small(4);
            let x = if skip == 0 { it.next() } else { it.nth(skip) };
            at += skip + 1;
            let e = all.get(at - 1);
            must(x.as_ref().map(|x| a.item(x)).as_ref() == e, format!("item {} drawn by nth({skip}) is not the one next() gives", at - 1));
            if x.is_none() || at >= n {
                break;
            }
        }
        if at >= n {
            for _ in 0..3 {
                must(it.next().is_none(), "an item after the end".into());
            }
        }
        must(c.constantpool_iter().count() == n, "count() disagrees".into());
        must(c.constantpool_iter().last().map(|x| a.item(&x)).as_ref() == all.last(), "last() disagrees".into());
        let k = r.below(n + 2);
        must(c.constantpool_iter().skip(k).map(|x| a.item(&x)).eq(all.iter().skip(k).cloned()), format!("skip({k}) disagrees"));
        let k = r.range(1, 5);
        must(c.constantpool_iter().step_by(k).map(|x| a.item(&x)).eq(all.iter().step_by(k).cloned()), format!("step_by({k}) disagrees"));
        let mut m = 0;
        c.constantpool_iter().for_each(|_| m += 1);
        must(m == n, "for_each disagrees".into());
        (n, bad)
    });
    match found {
        Ok((n, bad)) => {
            w.stat("items drawn in other ways", n as u64);
            if let Some(x) = bad {
                w.violate(b, "protocol", &format!("{note}: {x}"));
            }
        }
        Err(p) => w.violate(b, "panic", &format!("{note}: panicked: {p}")),
    }
}

fn c08(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::Wrong => e.path.starts_with("pool"),
        Kind::Panic => true,
        _ => false,
    };
    let both = |w: &mut W, b: &[u8], note: &str, own: bool| {
        w.judge(b, true, note, own);
        iterate(w, b, note);
        protocol(w, b, note);
    };
    jdk(w, 1500, 26_600, |w, _, b| both(w, b, "JDK class", false));
    w.units("pools of everything", 8000, 400_000, |w, r, _| {
        let c = pool_cfg(r);
        let b = generate::class(r, c);
        both(w, &b, "pool", true);
    });
    w.units("high indexes", 200, 5000, |w, r, _| {
        let c = Cfg { pad: *r.pick(&[130, 200, 32500, 65300]), ..pool_cfg(r) };
        let b = generate::class(r, c);
        both(w, &b, "high indexes", true);
    });
    let pool = |m: &Mark| m.what == What::Bits || m.what == What::BsmIndex || m.what == What::RefKind || m.what == What::Utf8 || m.site.contains("ref.") || matches!(m.site, "Class.name" | "String.string" | "MethodType.descriptor" | "MethodHandle.reference" | "NameAndType.name" | "NameAndType.descriptor" | "Dynamic.nt" | "InvokeDynamic.nt" | "Module.name" | "Package.name");
    w.units("pool contents", 4000, 200_000, |w, r, _| {
        let c = pool_cfg(r);
        let base = generate::class(r, c);
        let o = reference::parse_marked(&base, true);
        for _ in 0..10 {
            let Some(m) = mutate::pick_mark(r, &o.info, pool) else { return };
            let b = if m.what == What::Bits && r.one_in(2) { boundary(r, &base, m) } else { mutate::fault(r, &base, &o.info, m) };
            w.judge(&b, true, &format!("{} changed", m.site), true);
            iterate(w, &b, "changed pool");
            protocol(w, &b, "changed pool");
            w.outcome(m.site);
        }
    });
    // Any one reference of the pool turned to every entry that may stand there.
    w.units("every referent", 500, 20_000, |w, r, _| {
        let mut c = pool_cfg(r);
        c.pad = 0;
        c.bootstraps = c.bootstraps.min(3);
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        for _ in 0..6 {
            let Some(m) = mutate::pick_mark(r, &o.info, |m| m.what == What::CpRef && pool(m)) else { return };
            for k in 0..o.info.pool.len().min(300) {
                if o.info.pool[k].kind() & m.allowed != 0 {
                    let x = mutate::set(&b, m.pos, m.len, k as u64);
                    w.judge(&x, true, &format!("{} to {k}", m.site), true);
                }
            }
        }
    });
    big(w, &["pool ints", "pool longs", "pool strings", "pool text", "BootstrapMethods"], true);
    // Long pools of few kinds, some of which leave nothing for the caller to see.
    w.units("long pools", 60, 3000, |w, r, k| {
        let kinds = ["pool ints", "pool longs", "pool strings", "pool text"];
        let n = *r.pick(&[3, 60, 250, 256, 300, 1000, 5000]);
        let b = refmodel::tables::big(r, kinds[k as usize % kinds.len()], n);
        both(w, &b, "long pool", true);
    });
    // Large tables of bootstrap methods, with constants that refer to any of them, anywhere.
    w.units("large bootstrap tables", 24, 240, |w, r, k| {
        let n = [65535usize, 32769, 40000, 300][k as usize % 4];
        let d: Vec<u16> = [0, 1, 255, 256, 0x7fff, 0x8000, 0x8001, 0xff00, n - 1, n / 2 + 1].iter().filter(|x| **x < n).map(|x| *x as u16).collect();
        let pad = *r.pick(&[0usize, 200, 32700, 32760, 33000, 65400]);
        let (b, _) = crate::extra::large_table(r, n, &d, None, 0, pad);
        both(w, &b, "large bootstrap table", true);
    });
}

// ---------------------------------------------------------------- C09

fn c09(w: &mut W) {
    w.mine = |e| match e.kind {
        Kind::FalseAccept => matches!(e.cat, Some(Cat::PoolRef)),
        Kind::Panic => true,
        _ => false,
    };
    jdk(w, 300, 10_000, |w, r, b| {
        let o = reference::parse_marked(b, true);
        for _ in 0..8 {
            let Some(m) = mutate::pick_mark(r, &o.info, |m| m.what == What::CpRef) else { return };
            let x = mutate::fault(r, b, &o.info, m);
            w.judge(&x, true, &format!("JDK class, {} redirected", m.site), true);
        }
    });
    w.units("every reference to every kind", ALL_ATTRS.len() as u64 * 12, ALL_ATTRS.len() as u64 * 500, |w, r, k| {
        let kind = ALL_ATTRS[k as usize % ALL_ATTRS.len()];
        let mut c = plain_class(r);
        c.major = *r.pick(&[48, 51, 52, 55, 65, 65]);
        if kind.starts_with("Module") || r.one_in(12) {
            c.shape = Shape::Module;
            c.major = 65;
        } else {
            c.fields = 1;
            c.methods = 1;
            c.interfaces = 1;
        }
        c.attrs = 2;
        c.exotic = 0;
        c.insns = 12;
        c.loady = 30;
        c.code = 60;
        c.bootstraps = if c.major >= 51 { 2 } else { 0 };
        c.only = if r.one_in(3) { vec![] } else { vec![kind, "Code"] };
        let mut g = hostile::rich(r, &c);
        g.class();
        let b = g.done();
        let o = reference::parse_marked(&b, true);
        w.judge(&b, true, "before redirection", true);
        if o.result.is_err() {
            w.stat("not well-formed", 1);
            return;
        }
        // One entry of each kind that is there, in order of kind.
        let mut targets: Vec<usize> = vec![];
        let mut kinds = std::collections::BTreeMap::<u32, Vec<usize>>::new();
        for (k, e) in o.info.pool.iter().enumerate() {
            kinds.entry(e.kind()).or_default().push(k);
        }
        for list in kinds.values() {
            for _ in 0..if list.len() > 4 { 2 } else { 1 } {
                targets.push(*r.pick(list));
            }
        }
        let n = o.info.pool.len();
        targets.extend([n, n + 1, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff]);
        let mut per_site = std::collections::BTreeMap::<&str, u32>::new();
        for m in o.info.marks.iter().filter(|m| m.what == What::CpRef) {
            let c = per_site.entry(m.site).or_default();
            *c += 1;
            if *c > 2 && r.below(*c as usize) > 0 {
                continue;
            }
            for t in &targets {
                if m.len == 1 && *t > 255 {
                    continue;
                }
                let x = mutate::set(&b, m.pos, m.len, *t as u64);
                w.judge(&x, true, &format!("{} redirected to {t}", m.site), true);
            }
            w.outcome(m.site);
            w.stat("references redirected to every kind", 1);
        }
    });
    sweep(w, "references in larger classes", 4000, 250_000, 14, |r| Cfg { extra: 20, ..cfg(r) }, |m| m.what == What::CpRef);
    // The last indexes there are, referred to from everywhere.
    w.units("full pools", 40, 1200, |w, r, k| {
        let kind = ["Code", "InnerClasses", "ConstantValue", "Module", "BootstrapMethods", "Exceptions", "AnnotationDefault", "MethodParameters"][k as usize % 8];
        let mut c = plain_class(r);
        c.major = 65;
        if kind == "Module" {
            c.shape = Shape::Module;
        } else {
            c.fields = 2;
            c.methods = 2;
        }
        c.insns = 30;
        c.loady = 50;
        c.code = 100;
        c.bootstraps = 2;
        c.only = vec![kind, "Code"];
        c.pad = 65535;
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        w.judge(&b, true, "a full pool", true);
        let n = o.info.pool.len();
        w.stat("full pools", (n == 65535) as u64);
        for _ in 0..6 {
            let Some(m) = mutate::pick_mark(r, &o.info, |m| m.what == What::CpRef && m.len == 2) else { return };
            let k = match r.below(3) {
                0 => n - 1 - r.below(8),
                1 => *r.pick(&[n, 65535, 65534, 0]),
                _ => (0..8).map(|_| r.below(n)).find(|k| o.info.pool[*k].kind() & m.allowed != 0).unwrap_or(n - 1),
            };
            let x = mutate::set(&b, m.pos, 2, k as u64);
            w.judge(&x, true, &format!("{} of a full pool redirected to {k}", m.site), true);
        }
    });
    // Zero where it may and may not be; references with the low or high byte alone wrong.
    w.units("absent references", 2500, 100_000, |w, r, _| {
        let c = cfg(r);
        let b = generate::class(r, c);
        let o = reference::parse_marked(&b, true);
        if o.result.is_err() {
            return;
        }
        for _ in 0..14 {
            let Some(m) = mutate::pick_mark(r, &o.info, |m| m.what == What::CpRef) else { return };
            let x = mutate::set(&b, m.pos, m.len, 0);
            w.judge(&x, true, &format!("{} set to zero", m.site), true);
            if m.len == 2 {
                let old = mutate::get(&b, m.pos, 2);
                for v in [old ^ 0x100, old ^ 0x8000, old & 0xff, old << 8 & 0xff00] {
                    let x = mutate::set(&b, m.pos, 2, v);
                    w.judge(&x, true, &format!("{} set to {v}", m.site), true);
                }
            }
        }
        let _ = kind::ZERO;
    });
}
