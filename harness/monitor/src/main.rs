#![allow(unused_must_use)]
mod adapt;
mod alloc;
mod checks;
mod extra;
#[path = "../../small/src/look.rs"]
mod look;
mod parent;
mod rules;
mod share;
mod work;

use std::path::PathBuf;

#[global_allocator]
static HEAP: alloc::Counting = alloc::Counting;

/// Runs code on a thread with the stack that threads ordinarily have.
fn on_thread(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(f).expect("thread");
    t.join().unwrap_or(101)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = move |k: usize| a.get(k).cloned().unwrap_or_default();
    let num = |k: usize| std::env::args().nth(k).unwrap_or_default().parse::<u64>().unwrap_or(0);
    let code = match arg(1).as_str() {
        "check" if checks::IDS.contains(&arg(2).as_str()) => parent::check(&arg(2)),
        "worker" => {
            let (id, thorough) = (arg(2), arg(3) == "thorough");
            let (seed, shard, shards, dir) = (num(4), num(5), num(6).max(1), PathBuf::from(arg(7)));
            work::watchdog(if id == "C17" || id == "C18" { 8.0 } else { 1.0 });
            on_thread(move || {
                work::quiet_panics();
                let secs = if thorough { 2400 } else { 330 };
                let mut w = work::W::new(&id, seed, shard, shards, thorough, dir, secs);
                checks::run(&mut w);
                parent::write_results(&w);
                0
            })
        }
        "replay" => {
            let (id, file) = (arg(2), arg(3));
            let b = match std::fs::read(&file) {
                Ok(b) => b,
                Err(e) => {
                    println!("{file}: {e}");
                    std::process::exit(2);
                }
            };
            work::watchdog(8.0);
            on_thread(move || {
                work::quiet_panics();
                let mut w = work::W::new(&id, 1, 0, 1, false, std::env::temp_dir(), 600);
                w.keep = false;
                checks::single(&mut w, &b, "replay");
                for v in &w.violations {
                    println!("VIOLATION property={id} replay={file}\n  {}", v.msg);
                }
                if w.violations.is_empty() {
                    println!("{id}: nothing amiss with {file}");
                }
                !w.violations.is_empty() as i32
            })
        }
        // The digests of a share of the common cases, for comparison with another process.
        "digest" => {
            let (seed, shard, shards, n, backwards) = (num(2), num(3), num(4), num(5), num(6) == 1);
            on_thread(move || {
                work::quiet_panics();
                share::digests_out(seed, shard, shards, n, backwards);
                0
            })
        }
        "digestfile" => on_thread(move || {
            work::quiet_panics();
            share::digest_file(&arg(2));
            0
        }),
        // Cases and what becomes of them here, for interpreters and sanitizers.
        "pack" => {
            let (seed, n, longest, shared, file) = (num(2), num(3), num(4) as usize, num(5) == 1, arg(6));
            on_thread(move || {
                work::quiet_panics();
                share::pack(seed, n, longest, shared, &file)
            })
        }
        _ => {
            println!("usage: monitor check Cxx | replay Cxx FILE");
            2
        }
    };
    std::process::exit(code);
}
