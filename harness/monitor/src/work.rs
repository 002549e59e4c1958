//! One worker: runs its share of a check's cases, judges them, and keeps count.
use crate::adapt::Adapter;
use refmodel::reference::{self, Cat, Outcome};
use refmodel::rng::{self, Rng};
use refmodel::value::{self, Diff, V};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Cases started; and whether cafebabe is at work on one right now.
pub static TICK: AtomicU64 = AtomicU64::new(0);
pub static BUSY: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|p| {
        let msg = p.payload().downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| p.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = p.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if BUSY.load(Ordering::Relaxed) == 0 {
            eprintln!("the monitor itself panicked: {msg} at {at}");
        }
        let _ = PANIC.try_with(|x| *x.borrow_mut() = format!("{msg} at {at}"));
    }));
}

/// Runs code of cafebabe; a panic is caught and described.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    BUSY.fetch_add(1, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    BUSY.fetch_sub(1, Ordering::Relaxed);
    r.map_err(|_| PANIC.with(|x| x.borrow().clone()))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    FalseAccept,
    FalseReject,
    Panic,
    Wrong,
    Copied,
}

pub struct Event {
    pub kind: Kind,
    pub cat: Option<Cat>,
    /// Where in the tree.
    pub path: String,
    pub msg: String,
}

/// What a parse gave, in neutral form.
pub struct Got {
    pub result: Result<(V, Vec<V>), String>,
    pub bad_borrows: Vec<String>,
    pub borrowed: u64,
    pub owned: u64,
}

pub fn parse(b: &[u8], bytecode: bool) -> Result<cafebabe::ClassFile<'_>, cafebabe::ParseError> {
    let mut o = cafebabe::ParseOptions::default();
    o.parse_bytecode(bytecode);
    cafebabe::parse_class_with_options(b, &o)
}

pub fn observe(b: &[u8], bytecode: bool) -> Result<Got, String> {
    sut(|| {
        let mut a = Adapter::new(b);
        let result = match parse(b, bytecode) {
            Ok(c) => {
                let tree = a.class(&c);
                let cp = a.pool(&c);
                Ok((tree, cp))
            }
            Err(e) => Err(e.to_string()),
        };
        Got { result, bad_borrows: std::mem::take(&mut a.bad_borrows), borrowed: a.borrowed, owned: a.owned }
    })
}

/// Everything on which the reference and cafebabe disagree about one input.
pub fn compare(o: &Outcome, got: &Result<Got, String>) -> Vec<Event> {
    let mut ev = vec![];
    let got = match got {
        Err(p) => {
            ev.push(Event { kind: Kind::Panic, cat: None, path: String::new(), msg: format!("panicked: {p}") });
            return ev;
        }
        Ok(g) => g,
    };
    let lenient = !o.info.lenient.is_empty();
    match (&o.result, &got.result) {
        (Ok(e), Ok((tree, cp))) => {
            let mut d: Vec<Diff> = value::diff(&e.tree, tree, 6);
            d.extend(value::diff(&V::L(e.cp.clone()), &V::L(cp.clone()), 3).into_iter().map(|mut d| {
                d.path = format!("pool{}", d.path);
                d
            }));
            for d in d {
                ev.push(Event { kind: Kind::Wrong, cat: None, msg: format!("{}: expected {}, observed {}", d.path, d.expected, d.observed), path: d.path });
            }
            if !lenient {
                for x in &got.bad_borrows {
                    ev.push(Event { kind: Kind::Copied, cat: None, path: String::new(), msg: format!("not a borrow from the input: {x}") });
                }
            }
        }
        (Ok(_), Err(e)) => {
            if !lenient {
                ev.push(Event { kind: Kind::FalseReject, cat: None, path: String::new(), msg: format!("a well-formed class was refused: {e}") });
            }
        }
        (Err(r), Ok(_)) => {
            if r.cat != Cat::TooDeep {
                ev.push(Event { kind: Kind::FalseAccept, cat: Some(r.cat), path: String::new(), msg: format!("accepted, though it is faulty: {:?}: {} (in {:?}, innermost first)", r.cat, r.msg, r.at) });
            }
        }
        (Err(_), Err(_)) => {}
    }
    ev
}

pub struct Violation {
    pub file: String,
    pub msg: String,
}

pub struct W {
    pub id: String,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    /// Which of the workers that run the same build this is, and how many there are.
    pub group: (u64, u64),
    pub thorough: bool,
    /// How many times over the quick tier does a workload of which there is always more.
    scale: u64,
    pub dir: PathBuf,
    deadline: Instant,
    cur: Option<File>,
    pub stats: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub evaluations: u64,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    keys: BTreeMap<String, u32>,
    pub known: Vec<(u64, String)>,
    pub known_seen: Vec<String>,
    /// What went wrong with the check itself.
    pub doubts: Vec<String>,
    /// Whether inputs of violations are written down.
    pub keep: bool,
    /// Which disagreements are this check's business when a case does not own them all.
    pub mine: fn(&Event) -> bool,
    unit: String,
}

pub const ROOT: &str = "/verif";

impl W {
    pub fn new(id: &str, seed: u64, shard: u64, shards: u64, thorough: bool, dir: PathBuf, secs: u64) -> W {
        let cur = File::options().create(true).write(true).truncate(false).open(dir.join(format!("{id}-{shard}.cur"))).ok();
        W {
            id: id.into(),
            seed,
            shard,
            shards,
            group: std::env::var("MONITOR_GROUP").ok().and_then(|x| x.split_once('/').map(|(a, b)| (a.parse().unwrap_or(0), b.parse().unwrap_or(1)))).unwrap_or((shard, shards)),
            thorough,
            scale: match id {
                "C01" | "C06" | "C07" | "C08" | "C17" | "C18" => 2,
                "C16" | "C21" => 3,
                "C03" | "C04" | "C09" => 5,
                _ => 8,
            },
            dir,
            deadline: Instant::now() + Duration::from_secs(secs),
            cur,
            stats: BTreeMap::new(),
            distinct: HashSet::new(),
            outcomes: HashSet::new(),
            evaluations: 0,
            samples: vec![],
            violations: vec![],
            keys: BTreeMap::new(),
            known: crate::parent::known_findings(id),
            known_seen: vec![],
            doubts: vec![],
            keep: true,
            mine: |_| true,
            unit: String::new(),
        }
    }
    pub fn stat(&mut self, k: impl Into<String>, n: u64) {
        *self.stats.entry(k.into()).or_insert(0) += n;
    }
    pub fn late(&self) -> bool {
        Instant::now() > self.deadline
    }
    /// Enough violations found to stop.
    pub fn full(&self) -> bool {
        self.violations.len() >= if std::env::var_os("MONITOR_FAST").is_some() { 1 } else { 12 }
    }

    /// Runs this worker's share of units 0..n of a named workload.
    pub fn units(&mut self, name: &str, quick: u64, thorough: u64, f: impl FnMut(&mut W, &mut Rng, u64)) {
        let n = if self.thorough { thorough } else { (quick * self.scale).min(thorough).max(quick) };
        self.share(name, 0, n, self.shard, self.shards, f);
    }

    /// The same, but every build of cafebabe that takes part in the check runs all the units.
    pub fn units_each(&mut self, name: &str, n: u64, f: impl FnMut(&mut W, &mut Rng, u64)) {
        self.share(name, 0, n, self.group.0, self.group.1, f);
    }

    pub fn share(&mut self, name: &str, from: u64, n: u64, shard: u64, shards: u64, mut f: impl FnMut(&mut W, &mut Rng, u64)) {
        let t0 = Instant::now();
        // Different workloads start at different shards.
        let skew = rng::hash(name.as_bytes());
        let mut done = 0;
        for k in from..n {
            if (k.wrapping_add(skew)) % shards != shard {
                continue;
            }
            if self.late() {
                self.stat(format!("cut short by time: {name}"), 1);
                break;
            }
            if self.full() {
                break;
            }
            self.unit = format!("{name}#{k}");
            let mut r = Rng::new(rng::mix(self.seed ^ rng::mix(skew ^ rng::mix(k))));
            f(self, &mut r, k);
            done += 1;
        }
        self.stat(format!("units of {name}"), done);
        if std::env::var_os("MONITOR_STATS").is_some() {
            self.stat(format!("ms in {name}"), t0.elapsed().as_millis() as u64);
        }
    }

    /// Called before cafebabe gets to see an input, so that a crash can be put down to it.
    pub fn enter(&mut self, b: &[u8], note: &str) {
        TICK.fetch_add(1, Ordering::Relaxed);
        self.evaluations += 1;
        if self.samples.len() < 3 || (self.samples.len() < 8 && self.evaluations % 997 == 0) {
            let hex: String = b.iter().take(60).map(|x| format!("{x:02x}")).collect();
            self.samples.push(format!("{} {note}: {} bytes {hex}{}", self.unit, b.len(), if b.len() > 60 { "…" } else { "" }));
        }
        if let Some(f) = &self.cur {
            let head = format!("{} {note}\n", self.unit);
            let mut x = Vec::with_capacity(16 + head.len() + b.len());
            x.extend_from_slice(&(head.len() as u64).to_le_bytes());
            x.extend_from_slice(&(b.len() as u64).to_le_bytes());
            x.extend_from_slice(head.as_bytes());
            x.extend_from_slice(b);
            let _ = f.write_all_at(&x, 0);
        }
    }

    pub fn seen(&mut self, b: &[u8], salt: u64) {
        if self.distinct.len() < 3_000_000 {
            self.distinct.insert(rng::hash(b) ^ salt);
        }
    }
    pub fn outcome(&mut self, x: &str) {
        self.outcomes.insert(rng::hash(x.as_bytes()));
    }

    /// Reports a violation, keeping its input.
    pub fn violate(&mut self, b: &[u8], key: &str, msg: &str) {
        let h = rng::hash(b);
        if let Some(k) = self.known.iter().find(|k| k.0 == h) {
            if !self.known_seen.contains(&k.1) {
                self.known_seen.push(k.1.clone());
            }
            return;
        }
        let short: String = key.chars().filter(|c| !c.is_ascii_digit()).collect();
        let n = self.keys.entry(short).or_insert(0);
        *n += 1;
        if *n > 3 || self.full() {
            return;
        }
        let file = format!("{ROOT}/replays/{}-{:016x}.class", self.id, h);
        if self.keep {
            let _ = std::fs::create_dir_all(format!("{ROOT}/replays"));
            let _ = std::fs::write(&file, b);
            let _ = std::fs::write(format!("{file}.txt"), format!("property {}\nunit {} (seed {})\n{msg}\nreplay: {ROOT}/check.sh replay {} {file}\n", self.id, self.unit, self.seed, self.id));
        }
        self.violations.push(Violation { file, msg: format!("[{}] {msg}", self.unit) });
    }

    /// Puts one input to both the reference and cafebabe. `own`: every disagreement is a breach
    /// of this check's property; otherwise only those it calls its own.
    pub fn judge(&mut self, b: &[u8], bytecode: bool, note: &str, own: bool) -> (Outcome, Result<Got, String>) {
        let o = reference::parse(b, bytecode);
        self.judge_with(b, bytecode, note, own, o)
    }
    pub fn judge_with(&mut self, b: &[u8], bytecode: bool, note: &str, own: bool, o: Outcome) -> (Outcome, Result<Got, String>) {
        self.enter(b, note);
        let got = observe(b, bytecode);
        self.tally(b, bytecode, &o, &got);
        let mine = self.mine;
        for e in compare(&o, &got) {
            if own || mine(&e) {
                let key = format!("{:?}{:?}{}", e.kind, e.cat, e.path);
                self.violate(b, &key, &format!("{note}{}: {}", if bytecode { "" } else { " (bytecode off)" }, e.msg));
            } else {
                self.stat("disagreements outside this property", 1);
            }
        }
        (o, got)
    }
    pub fn tally(&mut self, b: &[u8], bytecode: bool, o: &Outcome, got: &Result<Got, String>) {
        if o.info.pool.len() > 1 {
            self.seen(b, bytecode as u64);
        }
        match &o.result {
            Ok(p) => {
                self.stat("well-formed classes", 1);
                self.stat("attributes", o.info.attrs as u64);
                self.stat("constants listed", p.cp.len() as u64);
                self.outcome(&format!("ok{}", o.info.attrs));
            }
            Err(r) => {
                self.stat(format!("faulty: {:?}", r.cat), 1);
                let m: String = r.msg.chars().filter(|c| !c.is_ascii_digit()).take(24).collect();
                self.outcome(&format!("{:?}{:?}{m}", r.cat, r.at.len()));
            }
        }
        if !o.info.lenient.is_empty() {
            self.stat("with latitude", 1);
        }
        if let Ok(g) = got {
            self.stat("strings and slices borrowed", g.borrowed);
            self.stat("strings copied", g.owned);
        }
    }
}

/// CPU time of this process in seconds, and of all its threads.
pub fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let t: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |k: usize| t.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / 100.0
}

pub const HUNG: i32 = 97;
pub const STUCK: i32 = 98;

/// Ends the process if one case takes far longer than any case should.
pub fn watchdog(threads: f64) {
    std::thread::spawn(move || {
        let (mut tick, mut cpu0, mut wall0) = (u64::MAX, 0.0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = TICK.load(Ordering::Relaxed);
            if t != tick {
                (tick, cpu0, wall0) = (t, cpu(), Instant::now());
                continue;
            }
            let used = cpu() - cpu0;
            let busy = BUSY.load(Ordering::Relaxed) > 0;
            // Spinning, or (when several threads are at it) waiting for each other for ever.
            if busy && (used > 30.0 * threads || (used < 1.0 && wall0.elapsed().as_secs() > 60)) {
                std::process::exit(HUNG);
            }
            if wall0.elapsed().as_secs() > 400 {
                std::process::exit(STUCK);
            }
        }
    });
}
