//! C17 and C18: the same outcome in both builds, on all threads, in all places and histories.
use crate::adapt::Adapter;
use crate::checks::cfg;
use crate::work::*;
use refmodel::generate;
use refmodel::hostile;
use refmodel::mutate;
use refmodel::reference;
use refmodel::rng::{mix, Rng};
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::process::{Command, Stdio};
#[cfg(feature = "ts")]
use std::sync::atomic::AtomicU64;
use std::sync::Barrier;

// ---------------------------------------------------------------- fingerprints

struct Hash(u64, u64);
impl std::fmt::Write for Hash {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.as_bytes().chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            self.0 = (self.0 ^ u64::from_le_bytes(x) ^ ((c.len() as u64) << 59)).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
        }
        self.1 += s.len() as u64;
        if self.1 > 1 << 21 {
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}

fn digest(x: &dyn std::fmt::Debug) -> u64 {
    let mut h = Hash(1, 0);
    let _ = write!(h, "{x:?}");
    mix(h.0 ^ h.1)
}

/// Everything a parse reports, as one number: equal in any build.
pub fn print(b: &[u8], bytecode: bool) -> Result<u64, String> {
    sut(|| match parse(b, bytecode) {
        Ok(c) => {
            let mut a = Adapter::new(b);
            let tree = a.class(&c);
            let pool = a.pool(&c);
            digest(&(tree, pool))
        }
        Err(e) => digest(&e.to_string()),
    })
}

/// The same, and the debug text, which may differ between builds but not within one.
fn full(b: &[u8], bytecode: bool) -> Result<(u64, u64, String), String> {
    sut(|| match parse(b, bytecode) {
        Ok(c) => {
            let mut a = Adapter::new(b);
            let tree = a.class(&c);
            let text = digest(&c);
            let pool = a.pool(&c);
            (digest(&(tree, pool)), text, "accepted".into())
        }
        Err(e) => (0, digest(&e), e.to_string()),
    })
}

// ---------------------------------------------------------------- common cases

/// Two inputs that have nearly everything in common, one of which is often at fault.
fn twins(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    if r.one_in(3) {
        let c = generate::Cfg { methods: 1, fields: 1, attrs: 2, insns: 6, ..cfg(r) };
        let a = generate::class(r, c);
        let o = reference::parse_marked(&a, true);
        return match mutate::pick_mark(r, &o.info, |_| true) {
            Some(m) => {
                let b = mutate::fault(r, &a, &o.info, m);
                (a, b)
            }
            None => (a.clone(), mutate::havoc(r, &a)),
        };
    }
    // Two texts, apart by one byte in the middle, in the same place.
    use crate::extra::Role;
    let role = *r.pick(&crate::extra::ROLES);
    let exotic = *r.pick(&[0, 12, 60]);
    let name = (0..=r.small(4)).map(|_| generate::binary_name(r, exotic)).collect::<Vec<_>>().join("/");
    let field = matches!(role, Role::Field | Role::Dyn | Role::FieldDecl) != r.one_in(8);
    let desc = if field {
        generate::field_desc(r, exotic)
    } else {
        let n = r.below(12);
        let params: String = (0..n).map(|_| generate::field_desc(r, exotic)).collect();
        format!("({params}){}", if r.one_in(2) { "V".into() } else { generate::field_desc(r, exotic) })
    };
    let (name, desc) = (refmodel::text::encode(&name), refmodel::text::encode(&desc));
    let (major, flags) = (*r.pick(&[45, 49, 52, 55, 65]), *r.pick(&[0x21, 0x200]));
    let mut change = |x: &[u8]| {
        let mut x = x.to_vec();
        if x.is_empty() {
            return x;
        }
        let k = match r.below(4) {
            0 => x.len() / 2,
            1 => x.len() - 1,
            _ => r.below(x.len()),
        };
        match r.below(5) {
            0 => x[k] ^= 1 << r.below(7),
            1 => x[k] = r.u8() & 0x7f,
            _ => x[k] = *r.pick(b"./;[<>VLI()\\:@a\x01"),
        }
        x
    };
    let (n2, d2) = if matches!(role, crate::extra::Role::MType) || (change(b"ab")[0] & 1 == 0) { (name.clone(), change(&desc)) } else { (change(&name), desc.clone()) };
    (crate::extra::in_role(major, flags, role, &name, &desc), crate::extra::in_role(major, flags, role, &n2, &d2))
}

pub fn case(seed: u64, k: u64) -> (Vec<u8>, bool) {
    // Twins lie eight apart: in one share, and met the other way round by whoever goes backwards.
    let mut r = Rng::new(mix(seed ^ mix((k & !8) ^ 0x7315)));
    if r.one_in(5) {
        let (a, b) = twins(&mut r);
        return (if k & 8 == 0 { a } else { b }, true);
    }
    let mut r = Rng::new(mix(seed ^ mix(k ^ 0x5ca1e)));
    let r = &mut r;
    let bytecode = !r.one_in(4);
    let b = match r.below(12) {
        0 => {
            let fam = *r.pick(&hostile::FAMILIES);
            let k = r.below(110) as u64;
            let b = hostile::make(fam, k, r);
            if b.len() < 400_000 {
                b
            } else {
                b[..400].to_vec()
            }
        }
        1 => {
            let c = cfg(r);
            let b = generate::class(r, c);
            let n = r.below(b.len() + 1);
            b[..n].to_vec()
        }
        2 => {
            let c = cfg(r);
            let b = generate::class(r, c);
            mutate::havoc(r, &b)
        }
        3..=6 => {
            let c = cfg(r);
            let b = generate::class(r, c);
            let o = reference::parse_marked(&b, true);
            match mutate::pick_mark(r, &o.info, |_| true) {
                Some(m) => mutate::fault(r, &b, &o.info, m),
                None => b,
            }
        }
        _ => {
            let c = cfg(r);
            generate::class(r, c)
        }
    };
    (b, bytecode)
}

fn jdk_classes(shard: u64, shards: u64, n: u64, f: &mut dyn FnMut(&[u8])) {
    let Ok(file) = std::fs::File::open(format!("{ROOT}/target/jdk.pack")) else { return };
    let mut file = std::io::BufReader::with_capacity(1 << 20, file);
    let mut b = vec![];
    for k in 0..n {
        let mut len = [0; 4];
        if file.read_exact(&mut len).is_err() {
            return;
        }
        b.resize(u32::from_be_bytes(len) as usize, 0);
        if file.read_exact(&mut b).is_err() {
            return;
        }
        if k % shards == shard {
            f(&b);
        }
    }
}

/// All cases of one share: generated ones, then JDK classes.
fn all_cases(seed: u64, shard: u64, shards: u64, n: u64, backwards: bool, f: &mut dyn FnMut(u64, &[u8], bool)) {
    let ks: Vec<u64> = (0..n).map(|k| k * shards + shard).collect();
    let mut order: Vec<u64> = ks;
    if backwards {
        order.reverse();
    }
    for k in order {
        let (b, bytecode) = case(seed, k);
        f(k, &b, bytecode);
    }
    let mut j = 1 << 40;
    jdk_classes(shard, shards, n * shards / 16, &mut |b| {
        f(j, b, true);
        j += 1;
    });
}

pub fn digests_out(seed: u64, shard: u64, shards: u64, n: u64, backwards: bool) {
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    all_cases(seed, shard, shards, n, backwards, &mut |k, b, bytecode| {
        let d = print(b, bytecode).unwrap_or(u64::MAX);
        let _ = out.write_all(&k.to_le_bytes());
        let _ = out.write_all(&d.to_le_bytes());
    });
    let _ = out.flush();
}

/// A number of cases no longer than given, with the outcome seen here. The shared ones are
/// accepted and have something in their pools.
pub fn pack(seed: u64, n: u64, longest: usize, shared: bool, file: &str) -> i32 {
    let mut out = vec![];
    let (mut found, mut k) = (0, 0);
    while found < n && k < n * 400 {
        k += 1;
        let (b, bytecode) = if shared {
            let mut r = Rng::new(mix(seed ^ mix(k ^ 0x5a11)));
            let c = generate::Cfg { fields: 1, methods: 1, attrs: 2, extra: r.range(2, 9), pad: 0, interfaces: 1, ..cfg(&mut r) };
            (generate::class(&mut r, c), true)
        } else {
            case(seed ^ 0x3141, k)
        };
        if b.len() > longest || b.len() < 24 {
            continue;
        }
        let Ok((ok, h)) = sut(|| crate::look::look(&b, bytecode)) else { continue };
        if shared && !ok {
            continue;
        }
        crate::look::write(&mut out, bytecode, h, &b);
        found += 1;
    }
    std::fs::write(file, out).is_err() as i32
}

pub fn digest_file(file: &str) {
    let b = std::fs::read(file).unwrap_or_default();
    for bytecode in [true, false] {
        let _ = std::io::stdout().write_all(&print(&b, bytecode).unwrap_or(u64::MAX).to_le_bytes());
    }
}

/// Lets another process look at this worker's share of the cases, and compares.
fn against(w: &mut W, what: &str, cmd: &mut Command, n: u64, backwards: bool) {
    let (seed, shard, shards) = (w.seed, w.shard, w.shards);
    cmd.args(["digest", &seed.to_string(), &shard.to_string(), &shards.to_string(), &n.to_string(), if backwards { "1" } else { "0" }]);
    let child = cmd.stdout(Stdio::piped()).stdin(Stdio::null()).spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => {
            w.doubts.push(format!("{what}: {e}"));
            return;
        }
    };
    let mut pipe = child.stdout.take().expect("piped");
    let reader = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = pipe.read_to_end(&mut b);
        b
    });
    let mut mine: Vec<(u64, u64)> = vec![];
    all_cases(seed, shard, shards, n, false, &mut |k, b, bytecode| {
        w.enter(b, what);
        if b.len() > 10 {
            w.seen(b, bytecode as u64);
        }
        match print(b, bytecode) {
            Ok(d) => {
                w.outcomes.insert(d);
                mine.push((k, d));
            }
            Err(p) => {
                w.violate(b, "panic", &format!("{what}: panicked: {p}"));
                mine.push((k, u64::MAX));
            }
        }
    });
    let b = reader.join().unwrap_or_default();
    let st = child.wait();
    let theirs: std::collections::HashMap<u64, u64> = b.chunks_exact(16).map(|x| (u64::from_le_bytes(x[..8].try_into().unwrap()), u64::from_le_bytes(x[8..].try_into().unwrap()))).collect();
    let mut missing = 0;
    for (k, d) in &mine {
        match theirs.get(k) {
            Some(x) if x == d => w.stat(format!("compared {what}"), 1),
            Some(_) => {
                let (k, d) = (*k, *d);
                // Find it again.
                let mut found = None;
                if k < 1 << 40 {
                    found = Some(case(seed, k));
                } else {
                    let mut j = 1 << 40;
                    jdk_classes(shard, shards, n * shards / 16, &mut |b| {
                        if j == k {
                            found = Some((b.to_vec(), true));
                        }
                        j += 1;
                    });
                }
                if let Some((b, bytecode)) = found {
                    w.violate(&b, what, &format!("{what} gave another outcome (bytecode {bytecode}); here: {}, digest {d:016x}", said(&b, bytecode)));
                }
                if w.full() {
                    return;
                }
            }
            None => missing += 1,
        }
    }
    if missing > 0 {
        match st {
            Ok(s) if !s.success() && s.code().is_none() => {
                let k = mine.iter().find(|x| !theirs.contains_key(&x.0)).map_or(0, |x| x.0);
                let (b, _) = case(seed, k);
                w.violate(&b, what, &format!("{what}: the other process died ({s}) about case {k}, this one did not"));
            }
            s => w.doubts.push(format!("{what}: {missing} cases missing, {s:?}")),
        }
    }
}

fn said(b: &[u8], bytecode: bool) -> String {
    match full(b, bytecode) {
        Ok(x) => x.2,
        Err(p) => format!("panic {p}"),
    }
}

// ---------------------------------------------------------------- C18

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}

const PAGE: usize = 4096;

/// A copy of some bytes that cannot be written to, between pages that cannot be touched.
pub struct Guarded {
    base: *mut u8,
    all: usize,
    at: *mut u8,
    len: usize,
}

impl Guarded {
    /// At the very end of its pages, or at their very start.
    pub fn new(b: &[u8], end: bool) -> Option<Guarded> {
        let body = b.len().div_ceil(PAGE).max(1) * PAGE;
        let all = body + 2 * PAGE;
        unsafe {
            let base = mmap(std::ptr::null_mut(), all, 3, 0x22, -1, 0);
            if base as isize == -1 {
                return None;
            }
            let at = base.add(PAGE + if end { body - b.len() } else { 0 });
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            if mprotect(base, PAGE, 0) != 0 || mprotect(base.add(PAGE), body, 1) != 0 || mprotect(base.add(PAGE + body), PAGE, 0) != 0 {
                munmap(base, all);
                return None;
            }
            Some(Guarded { base, all, at, len: b.len() })
        }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.at, self.len) }
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.all);
        }
    }
}

type Print = (u64, u64, String);

/// A thread of one name or another, or of none: nothing may depend on it.
fn thread(r: &mut Rng) -> std::thread::Builder {
    const NAMES: [&str; 10] = ["main", "worker", "worker-1", "tokio-runtime-worker", "rayon-0", "thread", "test", "parser", "", "\u{e9}"];
    let b = std::thread::Builder::new().stack_size(2 << 20);
    if r.one_in(3) {
        return b;
    }
    b.name(r.pick(&NAMES).to_string())
}

fn same(w: &mut W, b: &[u8], note: &str, first: &Print, how: &str, now: Result<Print, String>) {
    w.stat(format!("compared {how}"), 1);
    match now {
        Ok(x) if x == *first => {}
        Ok(x) => w.violate(b, how, &format!("{note}: {how}: first {:?}, then {:?}{}", first.2, x.2, if first.2 == x.2 { " with other contents" } else { "" })),
        Err(p) => w.violate(b, how, &format!("{note}: {how}: panicked: {p}")),
    }
}

/// One input in many places and circumstances.
pub fn pure(w: &mut W, b: &[u8], note: &str) {
    pure_with(w, b, note, &mut Rng::new(refmodel::rng::hash(b)), &mut vec![]);
}

/// A buffer that many inputs in turn are copied into, and what became of earlier inputs.
type Past = Vec<(Vec<u8>, bool, Print)>;

fn pure_with(w: &mut W, b: &[u8], note: &str, r: &mut Rng, past: &mut Past) -> Option<Print> {
    w.enter(b, note);
    if b.len() > 4 {
        w.seen(b, 0);
    }
    let bytecode = !r.one_in(4);
    let mine = b.to_vec();
    let first = match full(&mine, bytecode) {
        Ok(x) => x,
        Err(p) => {
            w.violate(b, "panic", &format!("{note}: panicked: {p}"));
            return None;
        }
    };
    w.outcomes.insert(mix(first.0 ^ first.1));
    if mine != b {
        w.violate(b, "modified", &format!("{note}: the input was modified"));
    }
    same(w, b, note, &first, "again in the same place", full(&mine, bytecode));
    // Elsewhere, at any alignment, with other things around it.
    for _ in 0..2 {
        let (lo, hi) = (r.below(17), r.below(64));
        let mut big = vec![0u8; lo];
        let fill = r.below(4);
        for x in big.iter_mut() {
            *x = if fill == 0 { 0xff } else { r.u8() };
        }
        big.extend_from_slice(b);
        match fill {
            0 => big.extend_from_slice(&vec![0xff; hi]),
            1 => big.extend_from_slice(b),
            2 => big.extend_from_slice(&vec![0; hi]),
            _ => (0..hi).for_each(|_| big.push(r.u8())),
        }
        let keep = big.clone();
        same(w, b, note, &first, "inside a larger buffer", full(&big[lo..lo + b.len()], bytecode));
        if big != keep {
            w.violate(b, "modified", &format!("{note}: the buffer around the input was modified"));
        }
    }
    if let Some(g) = Guarded::new(b, r.one_in(2)) {
        same(w, b, note, &first, "in read-only memory between guard pages", full(g.bytes(), bytecode));
    }
    // After something else, which may well fail.
    let mut slab: Vec<u8> = Vec::with_capacity(b.len() + 64);
    for _ in 0..2 {
        let other = match r.below(4) {
            0 if !past.is_empty() => past[r.below(past.len())].0.clone(),
            1 => {
                let mut x = b.to_vec();
                x.truncate(r.below(b.len() + 1));
                x
            }
            2 => mutate::havoc(r, b),
            _ => {
                // As long, and alike but for one byte.
                let mut x = b.to_vec();
                if !x.is_empty() {
                    let k = r.below(x.len());
                    x[k] ^= 1 << r.below(8);
                }
                x
            }
        };
        slab.clear();
        slab.extend_from_slice(&other);
        let _ = full(&slab, !bytecode);
        slab.clear();
        slab.extend_from_slice(b);
        same(w, b, note, &first, "after another input in the same memory", full(&slab, bytecode));
    }
    if r.one_in(4) {
        let (x, y) = (b.to_vec(), bytecode);
        let t = thread(r).spawn(move || full(&x, y));
        if let Ok(t) = t {
            let x = t.join().unwrap_or_else(|_| Err("thread panicked".into()));
            same(w, b, note, &first, "on another thread", x);
        }
    }
    // Earlier inputs still give what they gave.
    if !past.is_empty() && r.one_in(2) {
        let k = r.below(past.len());
        let (x, y, p) = past[k].clone();
        same(w, &x, note, &p, "long after", full(&x, y));
    }
    if b.len() < 200_000 {
        let e = (b.to_vec(), bytecode, first.clone());
        if past.len() < 200 {
            past.push(e);
        } else {
            let k = r.below(past.len());
            past[k] = e;
        }
    }
    Some(first)
}

/// A class with something of which there are several, and the same with one fault of one sort, at
/// each of its places in turn; and with that fault at several places at once.
struct Alike {
    good: Vec<u8>,
    one: Vec<Vec<u8>>,
    many: Vec<Vec<u8>>,
    note: String,
}

fn alike(w: &W, r: &mut Rng, k: u64) -> Option<Alike> {
    let kinds = refmodel::tables::KINDS;
    let (what, b) = if r.one_in(3) {
        let kind = *r.pick(&refmodel::generate::ALL_ATTRS);
        let mut c = generate::Cfg { only: vec![kind, "Code", "Record"], attrs: 3, insns: 6, methods: 3, fields: 3, ..cfg(r) };
        if kind.starts_with("Module") {
            c.shape = generate::Shape::Module;
            c.major = c.major.max(53);
        }
        if kind == "BootstrapMethods" {
            c.major = c.major.max(51);
            c.bootstraps = 3;
        }
        (kind, generate::class(r, c))
    } else {
        let (kind, most) = kinds[k as usize % kinds.len()];
        let n = most.min(*r.pick(&[4, 9, 17, 40]));
        (kind, refmodel::tables::big(r, kind, n))
    };
    let texts: [&[u8]; 9] = [b"x.y", b"", b"[", b"L;", b"()", b"V", b"a;b", b"<x>", b"\xff\xfe"];
    // Text that is no text may lie in a pool, unless something refers to it.
    let (good, first) = mutate::add_texts(&b, &texts[..])?;
    let o = reference::parse_marked(&good, true);
    if o.result.is_err() {
        return None;
    }
    let _ = w;
    for _ in 0..12 {
        let m = mutate::pick_mark(r, &o.info, |m| m.len <= 8 && m.len > 0 && !matches!(m.what, reference::What::Utf8 | reference::What::Raw | reference::What::Code))?;
        let v = if m.what == reference::What::CpRef && m.len == 2 && r.one_in(2) {
            first + r.below(texts.len()) as u64
        } else {
            let x = mutate::fault(r, &good, &o.info, m);
            mutate::get(&x, m.pos, m.len)
        };
        let mut same: Vec<usize> = o.info.marks.iter().filter(|n| n.site == m.site && n.len == m.len).map(|n| n.pos).collect();
        if same.len() > 16 {
            r.shuffle(&mut same);
            same.truncate(16);
        }
        let one: Vec<Vec<u8>> = same.iter().map(|p| mutate::set(&good, *p, m.len, v)).filter(|x| parse(x, true).is_err()).collect();
        if one.is_empty() {
            continue;
        }
        let mut many = vec![];
        for _ in 0..3 {
            r.shuffle(&mut same);
            let n = r.range(2, same.len().max(2) + 1).min(same.len());
            many.push(same[..n].iter().fold(good.clone(), |x, p| mutate::set(&x, *p, m.len, v)));
        }
        return Some(Alike { good, one, many, note: format!("{what}: {}", m.site) });
    }
    None
}

/// Members with several that occur twice, and bootstrap tables and modules likewise at fault in
/// several places.
fn several_duplicates(r: &mut Rng) -> Vec<u8> {
    let mut p = hostile::Raw::new(*r.pick(&[45, 52, 65]));
    let pairs = r.range(2, 9);
    let n: Vec<u16> = (0..pairs).map(|j| p.utf8(format!("m{}", if r.one_in(3) { 0 } else { j }).as_bytes())).collect();
    let md: Vec<u16> = ["()V", "(I)V", "(La;)I"].iter().map(|x| p.utf8(x.as_bytes())).collect();
    let fd: Vec<u16> = ["I", "[J", "La;"].iter().map(|x| p.utf8(x.as_bytes())).collect();
    p.head();
    let which = r.below(3);
    for (methods, d) in [(false, &fd), (true, &md)] {
        if which != 2 && (which == 1) != methods {
            p.u2(0);
            continue;
        }
        let mut list: Vec<(u16, u16)> = n.iter().map(|x| (*x, *r.pick(d))).collect();
        list.extend(list.clone());
        if r.one_in(2) {
            r.shuffle(&mut list);
        }
        p.u2(list.len() as u16);
        for (a, b) in list {
            p.u2(0).u2(a).u2(b).u2(0);
        }
    }
    p.u2(0);
    p.bytes()
}

/// Parses several inputs over and over, each thread in its own order.
fn hammer(w: &mut W, r: &mut Rng, list: &[(Vec<u8>, bool)], rounds: usize, note: &str) {
    let mut expected = vec![];
    for (b, y) in list {
        w.enter(b, note);
        w.seen(b, 2);
        match full(b, *y) {
            Ok(x) => expected.push(x),
            Err(p) => {
                w.violate(b, "panic", &format!("{note}: panicked: {p}"));
                return;
            }
        }
    }
    let threads = r.range(3, 9);
    let gate = Barrier::new(threads);
    let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
    let (expected2, gate2) = (&expected, &gate);
    let all: Vec<Vec<(usize, Result<Print, String>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(t, seed)| {
                thread(&mut Rng::new(!*seed)).spawn_scoped(s, move || {
                    let mut r = Rng::new(*seed);
                    let mut bad = vec![];
                    gate2.wait();
                    for k in 0..rounds {
                        // Mostly its own, so that the threads differ.
                        let j = if r.one_in(4) { r.below(list.len()) } else { (t + k / 50) % list.len() };
                        let now = full(&list[j].0, list[j].1);
                        if now.as_ref().ok() != Some(&expected2[j]) {
                            bad.push((j, now));
                            break;
                        }
                    }
                    bad
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.ok()).map(|h| h.join().unwrap_or_default()).collect()
    });
    w.stat("parses at once", (threads * rounds) as u64);
    for (j, now) in all.into_iter().flatten() {
        let b = list[j].0.clone();
        same(w, &b, note, &expected[j], "while other threads parse", now);
    }
}

pub fn c18(w: &mut W) {
    let n = if w.thorough { 12000 } else { 500 };
    let exe = std::env::current_exe().expect("own path");
    let mut cmd = Command::new(exe);
    cmd.env_clear().env("LANG", "tr_TR.UTF-8").env("TZ", "Asia/Kathmandu").env("HOME", "/").env("COLUMNS", "7").current_dir("/");
    against(w, "in a process with other surroundings, in reverse order", &mut cmd, n, true);

    let mut past: Past = vec![];
    w.units("histories", 12_000, 900_000, |w, r, k| {
        let (b, _) = case(w.seed ^ 0x18, k);
        if b.len() < 100_000 || r.one_in(20) {
            pure_with(w, &b, "history", r, &mut past);
        }
    });
    w.units("hostile", 600, 4000, |w, r, k| {
        let fam = hostile::FAMILIES[k as usize % hostile::FAMILIES.len()];
        let b = hostile::make(fam, k / hostile::FAMILIES.len() as u64, r);
        pure_with(w, &b, fam, r, &mut past);
    });
    let mut past2: Past = vec![];
    crate::checks::jdk(w, 400, 8000, |w, r, b| {
        pure_with(w, b, "JDK class", r, &mut past2);
    });
    // The same class over and over, with failures of one kind between.
    w.units("canaries", 60, 3000, |w, r, _| {
        let c = cfg(r);
        let g = hostile::rich(r, &c);
        let b = g.done();
        w.enter(&b, "canary");
        let Ok(first) = full(&b, true) else { return };
        let o = reference::parse_marked(&b, true);
        for _ in 0..30 {
            let Some(m) = mutate::pick_mark(r, &o.info, |_| true) else { return };
            let x = mutate::fault(r, &b, &o.info, m);
            for _ in 0..r.range(1, 12) {
                let _ = full(&x, true);
            }
            same(w, &b, "canary", &first, "after failures", full(&b, true));
        }
    });
    // Each of two inputs that are nearly alike, in a thread of its own, and then by turns.
    w.units("twins", 16_000, 600_000, |w, r, _| {
        let (a, b) = twins(r);
        let bytecode = !r.one_in(4);
        let alone = |w: &mut W, x: &[u8]| -> Option<Print> {
            w.enter(x, "one of twins");
            w.seen(x, 0);
            let y = x.to_vec();
            let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || full(&y, bytecode)).ok()?;
            t.join().ok()?.ok()
        };
        let (Some(p), Some(q)) = (alone(w, &a), alone(w, &b)) else { return };
        if p != q {
            w.stat("twins that differ", 1);
        }
        w.outcomes.insert(mix(p.1 ^ q.1));
        let order: Vec<bool> = match r.below(3) {
            0 => vec![true, false, true, false],
            1 => vec![false, true, false],
            _ => (0..8).map(|_| r.one_in(2)).collect(),
        };
        let (x, y) = (a.clone(), b.clone());
        let run = order.clone();
        let t = thread(r).spawn(move || run.iter().map(|t| full(if *t { &x } else { &y }, bytecode)).collect::<Vec<_>>());
        let Some(got) = t.ok().and_then(|t| t.join().ok()) else { return };
        for (t, now) in order.iter().zip(got) {
            same(w, if *t { &a } else { &b }, "twins", if *t { &p } else { &q }, "after its twin", now);
        }
    });
    // Hundreds of failures of one kind, in one thread: whatever is counted, runs over.
    w.units("floods", 400, 20_000, |w, r, k| {
        let Some(a) = alike(w, r, k) else { return };
        w.enter(&a.good, "flood: first");
        w.seen(&a.good, 0);
        let (Ok(good), Ok(half)) = (full(&a.good, true), full(&a.good[..a.good.len() / 2], true)) else { return };
        let bad = r.pick(&a.one).clone();
        w.enter(&bad, "flood");
        w.seen(&bad, 0);
        let Ok(failed) = full(&bad, true) else { return };
        let n = if k % 16 == 0 { 1200 } else { *r.pick(&[40, 140, 270]) };
        for _ in 0..n {
            let _ = sut(|| parse(&bad, true).is_ok());
        }
        w.stat("failures in floods", n);
        same(w, &bad, &a.note, &failed, "after hundreds of failures", full(&bad, true));
        same(w, &a.good, &a.note, &good, "after hundreds of failures", full(&a.good, true));
        for _ in 0..n / 2 {
            let _ = sut(|| parse(&a.good, true).is_ok());
        }
        same(w, &a.good, &a.note, &good, "after hundreds of parses", full(&a.good, true));
        same(w, &a.good[..a.good.len() / 2], &a.note, &half, "after hundreds of parses", full(&a.good[..a.good.len() / 2], true));
    });
    // Which of several faults is reported does not vary.
    w.units("several faults", 3000, 150_000, |w, r, k| {
        let list = if r.one_in(4) {
            vec![several_duplicates(r)]
        } else {
            match alike(w, r, k) {
                Some(a) => a.many,
                None => return,
            }
        };
        for b in list {
            w.enter(&b, "several faults");
            w.seen(&b, 0);
            let Ok(first) = full(&b, true) else { return };
            w.outcomes.insert(mix(first.1));
            for _ in 0..10 {
                same(w, &b, "several faults", &first, "again", full(&b, true));
            }
        }
    });
    // Threads that each parse something with the same fault at another place.
    w.units("faults at once", 260, 12_000, |w, r, k| {
        let Some(a) = alike(w, r, k) else { return };
        let mut list: Vec<(Vec<u8>, bool)> = a.one.into_iter().take(8).map(|b| (b, true)).collect();
        if r.one_in(2) {
            list.push((a.good, true));
        }
        if list.iter().map(|x| x.0.len()).sum::<usize>() < 200_000 {
            hammer(w, r, &list, 200, &a.note);
        }
    });
    // Many at once.
    w.units("at once", 40, 4000, |w, r, k| {
        let list: Vec<(Vec<u8>, bool)> = (0..12).map(|j| case(w.seed ^ 0x7ead, k * 12 + j)).filter(|x| x.0.len() < 60_000).collect();
        hammer(w, r, &list, 40, "at once");
    });
}

// ---------------------------------------------------------------- C17

#[cfg(feature = "ts")]
/// The tickets threads draw as they go, which show how their steps fell between each other.
static TICKET: AtomicU64 = AtomicU64::new(0);

#[cfg(not(feature = "ts"))]
pub fn c17(w: &mut W) {
    w.doubts.push("not the thread-safe build".into());
}
#[cfg(not(feature = "ts"))]
pub fn together(w: &mut W, _b: &[u8], _note: &str) {
    w.doubts.push("not the thread-safe build".into());
}

#[cfg(feature = "ts")]
pub use ts::{c17, together};

#[cfg(feature = "ts")]
mod ts {
    use super::*;
    use cafebabe::ClassFile;
    use refmodel::value::V;
    use std::sync::atomic::Ordering;
    use std::sync::{mpsc, Arc};

    fn shareable<T: Send + Sync>() {}
    /// That these can be sent and shared is decided when this is compiled.
    #[allow(dead_code)]
    fn assertions() {
        shareable::<ClassFile<'static>>();
        shareable::<cafebabe::FieldInfo<'static>>();
        shareable::<cafebabe::MethodInfo<'static>>();
        shareable::<cafebabe::attributes::AttributeInfo<'static>>();
        shareable::<cafebabe::attributes::AttributeData<'static>>();
        shareable::<cafebabe::attributes::CodeData<'static>>();
        shareable::<cafebabe::bytecode::ByteCode<'static>>();
        shareable::<cafebabe::bytecode::Opcode<'static>>();
        shareable::<cafebabe::constant_pool::ConstantPoolItem<'static>>();
        shareable::<cafebabe::ParseError>();
    }

    struct Log {
        bad: Vec<String>,
        /// Tickets of this thread's steps.
        steps: Vec<u64>,
        items: u64,
    }

    fn default_exe() -> String {
        std::env::var("MONITOR_DEFAULT").unwrap_or_else(|_| format!("{ROOT}/target/dev/debug/monitor"))
    }

    fn pause(r: &mut Rng, log: &mut Log) {
        if log.steps.len() < 4000 {
            log.steps.push(TICKET.fetch_add(1, Ordering::Relaxed));
        }
        match r.below(24) {
            0 => std::thread::yield_now(),
            1 => (0..r.below(400)).for_each(|_| std::hint::spin_loop()),
            2 if r.one_in(12) => std::thread::sleep(std::time::Duration::from_micros(r.below(120) as u64)),
            _ => {}
        }
    }

    /// One thread's random use of a shared class.
    fn act<'a>(c: &'a ClassFile<'a>, b: &[u8], tree: &V, pool: &[V], r: &mut Rng, log: &mut Log, rounds: usize) {
        let mut a = Adapter::new(b);
        for _ in 0..rounds {
            if !log.bad.is_empty() {
                return;
            }
            match r.below(10) {
                // From start to end.
                0..=4 => {
                    let mut n = 0;
                    for x in c.constantpool_iter() {
                        let x = a.item(&x);
                        if pool.get(n) != Some(&x) {
                            log.bad.push(format!("item {n}: one thread alone saw {:?}, this one {:?}", pool.get(n).map(|x| x.brief()), x.brief()));
                            return;
                        }
                        n += 1;
                        log.items += 1;
                        pause(r, log);
                    }
                    if n != pool.len() {
                        log.bad.push(format!("{n} items instead of {}", pool.len()));
                    }
                }
                // Two iterations interleaved, one given up half-way.
                5 | 6 => {
                    let (mut x, mut y) = (c.constantpool_iter(), c.constantpool_iter());
                    let (mut i, mut j) = (0, 0);
                    for _ in 0..pool.len() + r.below(pool.len() + 1) {
                        let one = r.one_in(2);
                        let (it, at) = if one { (&mut x, &mut i) } else { (&mut y, &mut j) };
                        let item = it.next();
                        let v = item.as_ref().map(|z| a.item(z));
                        let e = pool.get(*at).cloned();
                        if v != e {
                            log.bad.push(format!("item {at} of two iterations at once: expected {:?}, observed {:?}", e.map(|z| z.brief()), v.map(|z| z.brief())));
                            return;
                        }
                        *at += 1;
                        log.items += 1;
                        pause(r, log);
                    }
                }
                7 => {
                    let v = a.class(c);
                    if v != *tree {
                        log.bad.push("the class's contents differ".into());
                    }
                    pause(r, log);
                }
                // Formatting may say that something is locked, but it has to work.
                8 => {
                    let mut h = Hash(1, 0);
                    let _ = write!(h, "{c:?}");
                    pause(r, log);
                }
                _ => match parse(b, true) {
                    Ok(d) => {
                        let v = a.class(&d);
                        let p = a.pool(&d);
                        if v != *tree || p != pool {
                            log.bad.push("parsed at the same time, it differs".into());
                        }
                    }
                    Err(e) => log.bad.push(format!("parsed at the same time, it is refused: {e}")),
                },
            }
        }
    }

    /// A class shared by several threads.
    fn shared(w: &mut W, b: &[u8], note: &str, r: &mut Rng, rounds: usize) {
        w.enter(b, note);
        w.seen(b, 0);
        let alone = sut(|| {
            let mut a = Adapter::new(b);
            match parse(b, true) {
                Ok(c) => {
                    let t = a.class(&c);
                    let p = a.pool(&c);
                    Some((t, p))
                }
                Err(_) => None,
            }
        });
        let (tree, pool) = match alone {
            Ok(Some(x)) => x,
            Ok(None) => {
                w.stat("refused, not shared", 1);
                return;
            }
            Err(p) => {
                w.violate(b, "panic", &format!("{note}: panicked: {p}"));
                return;
            }
        };
        let threads = r.range(2, 9);
        let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
        let gate = Barrier::new(threads);
        let mut logs = vec![];
        match parse(b, true) {
            Ok(c) => {
                // The class is read by all, and dropped by one when they are done.
                share_out(&c, b, &tree, &pool, &seeds, &gate, rounds, &mut logs);
            }
            Err(e) => w.violate(b, "refused", &format!("{note}: refused the second time: {e}")),
        }
        let mut order: Vec<(u64, usize)> = vec![];
        for (t, l) in logs.into_iter().enumerate() {
            match l {
                Ok(l) => {
                    w.stat("items read from shared classes", l.items);
                    order.extend(l.steps.iter().map(|x| (*x, t)));
                    for m in l.bad {
                        w.violate(b, "shared", &format!("{note}, {threads} threads: {m}"));
                    }
                }
                Err(p) => w.violate(b, "panic in thread", &format!("{note}, {threads} threads: {p}")),
            }
        }
        order.sort();
        let turns = order.windows(2).filter(|x| x[0].1 != x[1].1).count();
        w.stat("steps of threads", order.len() as u64);
        w.stat("turns between threads", turns as u64);
        // One schedule, as far as it was seen.
        let mut h = 7;
        order.iter().for_each(|x| h = mix(h ^ x.1 as u64));
        w.outcomes.insert(h);
    }

    #[allow(clippy::too_many_arguments)]
    fn share_out<'a>(c: &'a ClassFile<'a>, b: &[u8], tree: &V, pool: &[V], seeds: &[u64], gate: &Barrier, rounds: usize, logs: &mut Vec<Result<Log, String>>) {
        std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|seed| {
                    s.spawn(move || {
                        let mut r = Rng::new(*seed);
                        gate.wait();
                        sut(|| {
                            let mut log = Log { bad: vec![], steps: vec![], items: 0 };
                            act(c, b, tree, pool, &mut r, &mut log, rounds);
                            log
                        })
                    })
                })
                .collect();
            for h in hs {
                logs.push(h.join().unwrap_or_else(|_| Err("thread panicked".into())));
            }
        })
    }

    /// Classes parsed on one thread, used on another, dropped on a third.
    fn handed(w: &mut W, list: &[Vec<u8>], r: &mut Rng) {
        let mut expected = vec![];
        for b in list {
            w.enter(b, "handed over: alone");
            match sut(|| {
                let mut a = Adapter::new(b);
                parse(b, true).ok().map(|c| a.class(&c))
            }) {
                Ok(x) => expected.push(x),
                Err(_) => return,
            }
        }
        let rounds = 40;
        let seeds: Vec<u64> = (0..4).map(|_| r.u64()).collect();
        let (tx, rx) = mpsc::channel::<(usize, ClassFile<'_>)>();
        let (tx2, rx2) = mpsc::channel::<Arc<ClassFile<'_>>>();
        let expected = &expected;
        let bad: Vec<(usize, String)> = std::thread::scope(|s| {
            let mut hs = vec![];
            for seed in &seeds {
                let tx = tx.clone();
                hs.push(s.spawn(move || {
                    let mut r = Rng::new(*seed);
                    let mut bad = vec![];
                    for _ in 0..rounds {
                        let k = r.below(list.len());
                        match (sut(|| parse(&list[k], true)), &expected[k]) {
                            (Ok(Ok(c)), Some(_)) => {
                                let _ = tx.send((k, c));
                            }
                            (Ok(Err(_)), None) => {}
                            (Ok(_), _) => bad.push((k, "another verdict on another thread".to_string())),
                            (Err(p), _) => bad.push((k, format!("panicked: {p}"))),
                        }
                    }
                    bad
                }));
            }
            drop(tx);
            hs.push(s.spawn(move || {
                let mut bad = vec![];
                let mut n = 0;
                for (k, c) in rx {
                    n += 1;
                    let Some(tree) = &expected[k] else { continue };
                    if n % 3 == 0 {
                        // Several owners, the last of which drops it.
                        let c = Arc::new(c);
                        let _ = tx2.send(c.clone());
                        if Adapter::new(&list[k]).class(&c) != *tree {
                            bad.push((k, "handed over, its contents differ".to_string()));
                        }
                        drop(c);
                        continue;
                    }
                    let r = sut(|| {
                        let t = Adapter::new(&list[k]).class(&c);
                        drop(c);
                        t == *tree
                    });
                    match r {
                        Ok(true) => {}
                        Ok(false) => bad.push((k, "handed over, its contents differ".to_string())),
                        Err(p) => bad.push((k, format!("handed over, panicked: {p}"))),
                    }
                }
                bad
            }));
            hs.push(s.spawn(move || {
                let mut bad = vec![];
                for c in rx2 {
                    if let Err(p) = sut(|| drop(c)) {
                        bad.push((0, format!("dropped elsewhere, panicked: {p}")));
                    }
                }
                bad
            }));
            hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec![(0, "a thread panicked".into())])).collect()
        });
        w.stat("classes handed over", rounds as u64 * seeds.len() as u64);
        for (k, m) in bad {
            let b = list[k].clone();
            w.violate(&b, "handed over", &m);
        }
    }

    pub fn together(w: &mut W, b: &[u8], note: &str) {
        let f = w.dir.join(format!("one-{}", std::process::id()));
        if std::fs::write(&f, b).is_ok() {
            let out = Command::new(default_exe()).arg("digestfile").arg(&f).stdin(Stdio::null()).output();
            let _ = std::fs::remove_file(&f);
            if let Ok(o) = out {
                for (k, bytecode) in [true, false].into_iter().enumerate() {
                    let Some(x) = o.stdout.get(8 * k..8 * k + 8) else { continue };
                    let d = print(b, bytecode).unwrap_or(u64::MAX);
                    if d != u64::from_le_bytes(x.try_into().unwrap()) {
                        w.violate(b, "build", &format!("{note}: the default build gives another outcome (bytecode {bytecode}); here: {}", said(b, bytecode)));
                    }
                }
            }
        }
        let mut r = Rng::new(refmodel::rng::hash(b));
        for _ in 0..5 {
            shared(w, b, note, &mut r, 30);
        }
    }

    pub fn c17(w: &mut W) {
        let n = if w.thorough { 20000 } else { 1500 };
        against(w, "in the default build", &mut Command::new(default_exe()), n, false);
        w.units("shared", 500, 30_000, |w, r, _| {
            let c = cfg(r);
            let b = if r.one_in(2) { hostile::rich(r, &c).done() } else { generate::class(r, c) };
            if b.len() > 100_000 {
                return;
            }
            let rounds = r.range(3, 30);
            shared(w, &b, "shared", r, rounds);
        });
        // Few entries, much contention.
        w.units("contended", 160, 9000, |w, r, _| {
            let c = generate::Cfg { fields: 0, methods: 0, attrs: 0, extra: r.range(1, 8), pad: 0, interfaces: 0, ..cfg(r) };
            let b = generate::class(r, c);
            shared(w, &b, "contended", r, 120);
        });
        crate::checks::jdk(w, 60, 3000, |w, r, b| {
            if b.len() < 40_000 {
                shared(w, b, "JDK class", r, 4);
            }
        });
        w.units("handed over", 60, 4000, |w, r, k| {
            let list: Vec<Vec<u8>> = (0..10).map(|j| case(w.seed ^ 0x17, k * 10 + j).0).filter(|b| b.len() < 60_000).collect();
            handed(w, &list, r);
        });
    }
}
