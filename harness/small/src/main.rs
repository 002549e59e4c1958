//! What the interpreter Miri and ThreadSanitizer watch: cases made beforehand, one process's
//! share of them. Says which case it is at, so that whoever started it can tell.
//!   small each PACK       parses each, looks at everything, drops it
//!   small share PACK      threads share each class, and parse at once
mod look;

fn at(k: usize) {
    eprintln!("case {k}");
}

fn each(list: &[look::Case]) -> i32 {
    let (mut accepted, mut bad) = (0, 0);
    for (k, c) in list.iter().enumerate() {
        at(k);
        // In memory of exactly its size.
        let b: Box<[u8]> = c.bytes.into();
        let (ok, h) = look::look(&b, c.bytecode);
        accepted += ok as usize;
        if h != c.expected {
            println!("DIFFERS {k}");
            bad += 1;
        }
        for x in [look::look(&b[..b.len() / 2], c.bytecode).0] {
            accepted += x as usize;
        }
    }
    println!("LOOKED {} {accepted}", list.len());
    (bad > 0) as i32
}

#[cfg(feature = "ts")]
mod together {
    use super::look;
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Mutex;

    struct Log {
        bad: AtomicUsize,
        steps: AtomicUsize,
        who: Mutex<Vec<u8>>,
    }

    /// One thread reads all there is, twice.
    fn read<'a>(class: &'a cafebabe::ClassFile<'a>, expected: u64, log: &Log, who: u8, k: usize) {
        for _ in 0..2 {
            for x in class.constantpool_iter() {
                std::hint::black_box(&x);
                log.steps.fetch_add(1, Ordering::Relaxed);
                if let Ok(mut l) = log.who.try_lock() {
                    l.push(who);
                }
            }
            if look::class(class) != expected {
                println!("DIFFERS {k}");
                log.bad.fetch_add(1, Ordering::Relaxed);
            }
        }
    }

    fn shared<'a>(class: &'a cafebabe::ClassFile<'a>, c: &look::Case, log: &Log, k: usize) {
        std::thread::scope(|s| {
            for who in 0..2 {
                s.spawn(move || read(class, c.expected, log, who, k));
            }
            // Another parses the same bytes, and a fourth gets to use and drop what it made.
            s.spawn(move || {
                if let Ok(d) = look::parse(c.bytes, c.bytecode) {
                    let p = look::parts(&d);
                    s.spawn(move || {
                        let d = d;
                        if look::parts(&d) != p {
                            println!("DIFFERS {k}");
                            log.bad.fetch_add(1, Ordering::Relaxed);
                        }
                        drop(d);
                    });
                }
                if look::look(c.bytes, c.bytecode).1 != c.expected {
                    println!("DIFFERS {k}");
                    log.bad.fetch_add(1, Ordering::Relaxed);
                }
            });
        });
    }

    pub fn share(list: &[look::Case]) -> i32 {
        let log = Log { bad: AtomicUsize::new(0), steps: AtomicUsize::new(0), who: Mutex::new(vec![]) };
        let mut order = String::new();
        for (k, c) in list.iter().enumerate() {
            super::at(k);
            if let Ok(class) = look::parse(c.bytes, c.bytecode) {
                shared(&class, c, &log, k);
            }
            let l = std::mem::take(&mut *log.who.lock().unwrap());
            let mut h: u64 = 7;
            l.iter().for_each(|x| h = h.wrapping_mul(31).wrapping_add(*x as u64 + 1));
            let turns = l.windows(2).filter(|x| x[0] != x[1]).count();
            order.push_str(&format!(" {turns}:{h:x}"));
        }
        println!("SHARED {} {} turns{order}", list.len(), log.steps.load(Ordering::Relaxed));
        (log.bad.load(Ordering::Relaxed) > 0) as i32
    }
}
#[cfg(feature = "ts")]
use together::share;
#[cfg(not(feature = "ts"))]
fn share(_: &[look::Case]) -> i32 {
    2
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let pack = std::fs::read(&a[2]).expect("cases");
    let list = look::cases(&pack);
    std::process::exit(match a[1].as_str() {
        "each" => each(&list),
        "share" => share(&list),
        _ => 2,
    });
}
