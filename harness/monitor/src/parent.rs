//! Starts the workers of a check, gathers what they saw, and writes the verdict and the evidence.
use crate::work::{Violation, HUNG, ROOT, STUCK, W};
use refmodel::rng;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command};
use std::time::{Duration, Instant};

/// Defects on record that this property's check knows of: hash of the input, and a description.
pub fn known_findings(id: &str) -> Vec<(u64, String)> {
    let text = std::fs::read_to_string(format!("{ROOT}/known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("finding: property=")?;
            let (p, rest) = rest.split_once(" input=")?;
            let (h, what) = rest.split_once(' ')?;
            (p == id).then_some(())?;
            Some((u64::from_str_radix(h, 16).ok()?, what.to_string()))
        })
        .collect()
}

/// One worker's results, for its parent.
pub fn write_results(w: &W) {
    let mut s = String::new();
    let flat = |x: &str| x.replace(['\n', '\t'], " ");
    let _ = writeln!(s, "E\t{}", w.evaluations);
    for (k, n) in &w.stats {
        let _ = writeln!(s, "S\t{}\t{n}", flat(k));
    }
    for x in &w.samples {
        let _ = writeln!(s, "P\t{}", flat(x));
    }
    for v in &w.violations {
        let _ = writeln!(s, "V\t{}\t{}", v.file, flat(&v.msg));
    }
    for k in &w.known_seen {
        let _ = writeln!(s, "K\t{}", flat(k));
    }
    for x in &w.doubts {
        let _ = writeln!(s, "D\t{}", flat(x));
    }
    let set = |x: &HashSet<u64>| x.iter().flat_map(|n| n.to_le_bytes()).collect::<Vec<u8>>();
    let base = w.dir.join(format!("{}-{}", w.id, w.shard));
    let _ = std::fs::write(base.with_extension("distinct"), set(&w.distinct));
    let _ = std::fs::write(base.with_extension("outcomes"), set(&w.outcomes));
    let _ = std::fs::write(base.with_extension("res"), s);
}

fn read_set(p: &Path, into: &mut HashSet<u64>) {
    let b = std::fs::read(p).unwrap_or_default();
    into.extend(b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
}

#[derive(Default)]
pub struct Total {
    pub evaluations: u64,
    pub stats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub doubts: Vec<String>,
    pub distinct: HashSet<u64>,
    pub outcomes: HashSet<u64>,
}

impl Total {
    fn gather(&mut self, dir: &Path, id: &str, shard: u64) -> bool {
        let base = dir.join(format!("{id}-{shard}"));
        let Ok(s) = std::fs::read_to_string(base.with_extension("res")) else { return false };
        for l in s.lines() {
            let mut f = l.split('\t');
            match (f.next(), f.next(), f.next()) {
                (Some("E"), Some(n), _) => self.evaluations += n.parse::<u64>().unwrap_or(0),
                (Some("S"), Some(k), Some(n)) => {
                    let n = n.parse::<u64>().unwrap_or(0);
                    let x = self.stats.entry(k.into()).or_insert(0);
                    *x = if k.starts_with("largest") { (*x).max(n) } else { *x + n };
                }
                (Some("P"), Some(x), _) => self.samples.push(x.into()),
                (Some("V"), Some(file), Some(msg)) => self.violations.push(Violation { file: file.into(), msg: msg.into() }),
                (Some("K"), Some(x), _) => {
                    if !self.known.iter().any(|k| k == x) {
                        self.known.push(x.into())
                    }
                }
                (Some("D"), Some(x), _) => self.doubts.push(x.into()),
                _ => {}
            }
        }
        read_set(&base.with_extension("distinct"), &mut self.distinct);
        read_set(&base.with_extension("outcomes"), &mut self.outcomes);
        true
    }
}

/// The input a worker had in hand.
fn current(dir: &Path, id: &str, shard: u64) -> Option<(String, Vec<u8>)> {
    let b = std::fs::read(dir.join(format!("{id}-{shard}.cur"))).ok()?;
    let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
    let m = u64::from_le_bytes(b.get(8..16)?.try_into().ok()?) as usize;
    Some((String::from_utf8_lossy(b.get(16..16 + n)?).trim().to_string(), b.get(16 + n..16 + n + m)?.to_vec()))
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The executable of the thread-safe build, next to this one's target folder.
pub fn other_exe() -> PathBuf {
    PathBuf::from(std::env::var("MONITOR_TS").unwrap_or_else(|_| format!("{ROOT}/target/ts/debug/monitor")))
}

/// An interpreter or sanitizer that watches the small program.
struct Watcher {
    name: &'static str,
    cmd: Vec<String>,
    /// Threads share what is parsed.
    shared: bool,
    /// Processes at once, cases of each, and their longest, in the quick check.
    size: (u64, u64, usize),
    miri: bool,
}

fn watchers(id: &str) -> Vec<Watcher> {
    let all: &[(&str, &str, &str, bool, (u64, u64, usize), bool)] = &[
        ("C01", "Miri, 32-bit", "MONITOR_MIRI", false, (8, 36, 450), true),
        ("C01", "AddressSanitizer", "MONITOR_ASAN", false, (8, 1500, 20_000), false),
        ("C17", "Miri", "MONITOR_MIRI", true, (8, 6, 420), true),
        ("C17", "ThreadSanitizer", "MONITOR_TSAN", true, (4, 300, 6000), false),
        ("C18", "Miri, big-endian", "MONITOR_MIRI", false, (8, 36, 450), true),
        ("C18", "AddressSanitizer", "MONITOR_ASAN", false, (8, 1500, 20_000), false),
    ];
    all.iter()
        .filter(|x| x.0 == id)
        .filter_map(|x| {
            let cmd: Vec<String> = std::env::var(x.2).ok()?.split_whitespace().map(String::from).collect();
            (!cmd.is_empty()).then_some(Watcher { name: x.1, cmd, shared: x.3, size: x.4, miri: x.5 })
        })
        .collect()
}

/// Runs it. What it cannot run is no verdict, and no doubt either: the rest of the check stands.
fn watched(id: &str, tier: &str, seed: u64, dir: &Path, e: &Watcher, total: &mut Total) {
    let (procs, n, longest) = e.size;
    let n = if tier == "quick" { n } else { n * 25 };
    let limit = Duration::from_secs(if tier == "quick" { 200 } else { 3600 });
    let t0 = Instant::now();
    let mut running = vec![];
    for k in 0..procs {
        let base = dir.join(format!("{}-{k}", e.name.replace([' ', ','], "-")));
        let pack = base.with_extension("pack");
        if crate::share::pack(rng::mix(seed ^ 0x3a5a + k), n, longest, e.shared, &pack.to_string_lossy()) != 0 {
            continue;
        }
        let (Ok(out), Ok(err)) = (std::fs::File::create(base.with_extension("out")), std::fs::File::create(base.with_extension("err"))) else { continue };
        let mut c = Command::new(&e.cmd[0]);
        c.args(&e.cmd[1..]).arg(if e.shared { "share" } else { "each" }).arg(&pack).stdin(std::process::Stdio::null()).stdout(out).stderr(err);
        c.env("RUST_BACKTRACE", "0").env("ASAN_OPTIONS", "exitcode=66:allocator_may_return_null=1").env("TSAN_OPTIONS", "exitcode=66 halt_on_error=1");
        if e.miri {
            let rate = [0.01, 0.03, 0.1, 0.3][k as usize % 4];
            let s = seed.wrapping_mul(1000).wrapping_add(k) % 1_000_000;
            c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={s} -Zmiri-preemption-rate={rate}"));
        }
        if let Ok(c) = c.spawn() {
            running.push((base, c));
        }
    }
    for (base, mut c) in running {
        let st = loop {
            match c.try_wait() {
                Ok(Some(st)) => break Some(st),
                Ok(None) if t0.elapsed() < limit => std::thread::sleep(Duration::from_millis(20)),
                _ => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
            }
        };
        let out = std::fs::read_to_string(base.with_extension("out")).unwrap_or_default();
        let err = String::from_utf8_lossy(&std::fs::read(base.with_extension("err")).unwrap_or_default()).into_owned();
        let pack = std::fs::read(base.with_extension("pack")).unwrap_or_default();
        let cases = crate::look::cases(&pack);
        let at = err.lines().rev().find_map(|l| l.strip_prefix("case ")?.trim().parse::<usize>().ok());
        let mut add = |k: &str, n: u64| *total.stats.entry(format!("{}: {k}", e.name)).or_insert(0) += n;
        if st.is_none() {
            add("processes stopped for lack of time", 1);
        }
        add("cases begun", at.map_or(0, |x| x as u64 + 1));
        for l in out.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "SHARED" => {
                    add("items read from shared classes", w[2].parse().unwrap_or(0));
                    for x in &w[4..] {
                        let Some((turns, h)) = x.split_once(':') else { continue };
                        add("turns between threads", turns.parse().unwrap_or(0));
                        total.outcomes.insert(u64::from_str_radix(h, 16).unwrap_or(0));
                    }
                }
                "LOOKED" => add("cases accepted", w[2].parse().unwrap_or(0)),
                _ => {}
            }
        }
        total.evaluations += at.map_or(0, |x| x as u64 + 1);
        // What counts as a report.
        let signs = ["Undefined Behavior", "data race", "Data race", "deadlock", "panicked at", "AddressSanitizer", "ThreadSanitizer: ", "has overflowed its stack"];
        let fine = st.is_some_and(|x| x.success());
        let differs = out.lines().find_map(|l| l.strip_prefix("DIFFERS ")?.trim().parse::<usize>().ok());
        let sign = err.lines().find(|l| signs.iter().any(|s| l.contains(s)) && !l.contains("FATAL: ThreadSanitizer") && !l.contains("Shadow memory range") && !l.contains("failed to intercept"));
        let hit = match (differs, sign, at) {
            (Some(k), _, _) => Some((k, "it sees another outcome than the default build on this machine".to_string())),
            (None, Some(l), Some(k)) if !fine => {
                let more: Vec<&str> = err.lines().skip_while(|x| *x != l).skip(1).filter(|x| x.contains("/repo/") || x.contains(".rs:")).take(3).collect();
                Some((k, format!("{l} {}", more.join(" "))))
            }
            _ => None,
        };
        match hit {
            Some((k, what)) => {
                let b = cases.get(k).map_or(&[][..], |c| c.bytes);
                let _ = std::fs::create_dir_all(format!("{ROOT}/replays"));
                let file = format!("{ROOT}/replays/{id}-{:016x}.class", rng::hash(b));
                let msg = format!("[{}, case {k}] {what}", e.name);
                let _ = std::fs::write(&file, b);
                let _ = std::fs::write(format!("{file}.txt"), format!("property {id}\nseed {seed}\n{msg}\nseen by: {}\n\n{err}", e.cmd.join(" ")));
                if !known_findings(id).iter().any(|x| x.0 == rng::hash(b)) {
                    total.violations.push(Violation { file, msg });
                }
            }
            None if !fine && st.is_some() => {
                let l = err.lines().rev().find(|l| !l.starts_with("case ") && !l.trim().is_empty()).unwrap_or("");
                println!("note: {} did not run to its end: {l}", e.name);
                add("processes that could not run", 1);
            }
            None => {}
        }
    }
}

pub fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").is_ok_and(|x| x == "thorough") { "thorough" } else { "quick" };
    let shards: u64 = std::env::var("MONITOR_SHARDS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let dir = PathBuf::from(format!("{ROOT}/scratch/{id}-{}", std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        println!("cannot make {}: {e}", dir.display());
        return 2;
    }
    // The sharing check runs in the thread-safe build, some others in both.
    let exe = std::env::current_exe().expect("own path");
    let ts = other_exe();
    let raw = std::env::var_os("MONITOR_RAW").map(PathBuf::from);
    let both = matches!(id, "C01" | "C02" | "C08" | "C18") && ts.exists();
    let mut total = Total::default();
    let mut doubts: Vec<String> = vec![];
    let which = |shard: u64| -> &Path {
        if id == "C17" || (both && shard % 2 == 1) {
            &ts
        } else if let Some(raw) = raw.as_ref().filter(|_| shard % 4 == 0) {
            raw
        } else {
            &exe
        }
    };
    let spawn = |shard: u64| -> std::io::Result<Child> {
        let same: Vec<u64> = (0..shards).filter(|s| which(*s) == which(shard)).collect();
        let nth = same.iter().position(|s| *s == shard).unwrap_or(0);
        Command::new(which(shard))
            .args(["worker", id, tier, &seed.to_string(), &shard.to_string(), &shards.to_string()])
            .arg(&dir)
            .env("MONITOR_GROUP", format!("{nth}/{}", same.len()))
            .env("RUST_BACKTRACE", "0")
            .env("MONITOR_DEFAULT", &exe)
            .spawn()
    };
    let mut limit = Duration::from_secs(if tier == "quick" { 600 } else { 6 * 3600 });
    let mut running: Vec<(u64, u32, Child)> = vec![];
    for s in 0..shards {
        match spawn(s) {
            Ok(c) => running.push((s, 0, c)),
            Err(e) => doubts.push(format!("worker {s} did not start: {e}")),
        }
    }
    while !running.is_empty() {
        std::thread::sleep(Duration::from_millis(10));
        let mut next = vec![];
        for (s, tries, mut c) in running {
            let st = match c.try_wait() {
                Ok(None) => {
                    if t0.elapsed() > limit {
                        let _ = c.kill();
                        let _ = c.wait();
                        doubts.push(format!("worker {s} ran out of time"));
                        continue;
                    }
                    next.push((s, tries, c));
                    continue;
                }
                Ok(Some(st)) => st,
                Err(e) => {
                    doubts.push(format!("worker {s}: {e}"));
                    continue;
                }
            };
            if st.success() {
                if !total.gather(&dir, id, s) {
                    doubts.push(format!("worker {s} left no results"));
                }
                // For whom the first violation is enough (none of the registered commands).
                if !total.violations.is_empty() && std::env::var_os("MONITOR_FAST").is_some() {
                    limit = Duration::ZERO;
                }
                continue;
            }
            let (code, sig) = (st.code(), st.signal());
            let guilty = matches!(sig, Some(4 | 5 | 6 | 7 | 8 | 11)) || code == Some(HUNG);
            match current(&dir, id, s) {
                Some((note, b)) if guilty => {
                    let how = match sig {
                        Some(6) => "the process aborted (stack overflow, refused allocation or abort)".to_string(),
                        Some(n) => format!("the process died of signal {n}"),
                        None => "it did not come to an end".to_string(),
                    };
                    let _ = std::fs::create_dir_all(format!("{ROOT}/replays"));
                    let file = format!("{ROOT}/replays/{id}-{:016x}.class", rng::hash(&b));
                    let msg = format!("[{note}] {how}");
                    let _ = std::fs::write(&file, &b);
                    let _ = std::fs::write(format!("{file}.txt"), format!("property {id}\nseed {seed}\n{msg}\nreplay: {ROOT}/check.sh replay {id} {file}\n"));
                    let h = rng::hash(&b);
                    match known_findings(id).into_iter().find(|k| k.0 == h) {
                        Some(k) => total.known.push(k.1),
                        None => total.violations.push(Violation { file, msg }),
                    }
                }
                _ if tries == 0 && (sig == Some(9) || code == Some(STUCK)) => match spawn(s) {
                    Ok(c) => next.push((s, 1, c)),
                    Err(e) => doubts.push(format!("worker {s} did not start: {e}")),
                },
                _ => doubts.push(format!("worker {s} ended with {st}")),
            }
        }
        running = next;
    }
    if total.violations.is_empty() {
        let t = Instant::now();
        for e in watchers(id) {
            watched(id, tier, seed, &dir, &e, &mut total);
        }
        *total.stats.entry("ms in interpreters and sanitizers".into()).or_insert(0) += t.elapsed().as_millis() as u64;
    }
    let _ = std::fs::remove_dir_all(&dir);
    doubts.append(&mut total.doubts);

    // The verdict.
    let mut said: HashSet<String> = HashSet::new();
    let mut shown = 0;
    for v in &total.violations {
        let short: String = v.msg.chars().filter(|c| !c.is_ascii_digit()).take(90).collect();
        if !said.insert(short) || shown >= 10 {
            continue;
        }
        shown += 1;
        let m: String = v.msg.chars().take(700).collect();
        println!("VIOLATION property={id} replay={}", v.file);
        println!("  {m}");
    }
    for k in &total.known {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    for d in &doubts {
        println!("inconclusive: {d}");
    }
    evidence(id, tier, seed, &total, &doubts, t0.elapsed().as_secs_f64());
    println!(
        "{id} {tier} seed {seed}: {} evaluations, {} distinct, {} outcomes, {} violations, {:.1} s",
        total.evaluations,
        total.distinct.len(),
        total.outcomes.len(),
        total.violations.len(),
        t0.elapsed().as_secs_f64()
    );
    if std::env::var("MONITOR_STATS").is_ok() {
        for (k, n) in &total.stats {
            println!("  {k}: {n}");
        }
    }
    let _ = std::io::stdout().flush();
    if !total.violations.is_empty() {
        1
    } else if !doubts.is_empty() {
        2
    } else {
        0
    }
}

fn evidence(id: &str, tier: &str, seed: u64, t: &Total, doubts: &[String], wall: f64) {
    let mut samples: Vec<&String> = vec![];
    // A few of each worker's, the workloads mixed.
    let mut seen = HashSet::new();
    for s in &t.samples {
        let kind: String = s.split('#').next().unwrap_or("").to_string();
        if samples.len() < 24 && (seen.insert(kind) || samples.len() < 6) {
            samples.push(s);
        }
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        json(id),
        json(tier),
        t.evaluations,
        t.distinct.len(),
        json(crate::rules::rule(id))
    );
    let _ = write!(o, "  \"distinct_observations\": {},\n  \"observed\": {{", t.outcomes.len());
    for (i, (k, n)) in t.stats.iter().take(400).enumerate() {
        let _ = write!(o, "{}\n   {}: {n}", if i > 0 { "," } else { "" }, json(k));
    }
    let _ = write!(o, "\n  }},\n  \"samples\": [");
    for (i, s) in samples.iter().enumerate() {
        let s: String = s.chars().take(260).collect();
        let _ = write!(o, "{}\n   {}", if i > 0 { "," } else { "" }, json(&s));
    }
    let _ = write!(o, "\n  ]\n }},\n \"assumptions\": [");
    for (i, s) in crate::rules::ASSUMPTIONS.iter().enumerate() {
        let _ = write!(o, "{}\n  {}", if i > 0 { "," } else { "" }, json(s));
    }
    let _ = write!(o, "\n ],\n \"inconclusive\": [");
    for (i, s) in doubts.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { ", " } else { "" }, json(s));
    }
    let _ = write!(o, "],\n \"known_findings\": {},\n \"violations\": {},\n \"wall_s\": {wall:.2}\n}}\n", t.known.len(), t.violations.len());
    let _ = std::fs::create_dir_all(format!("{ROOT}/evidence"));
    let _ = std::fs::write(format!("{ROOT}/evidence/{id}.json"), o);
}
