//! Counts what the current thread holds. A request of a gigabyte or more is refused, so that it
//! shows as an abort of the process that asked for it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

#[derive(Clone, Copy, Default, Debug)]
pub struct Use {
    pub live: i64,
    pub blocks: i64,
    pub peak: i64,
    pub largest: usize,
    pub requests: u64,
}

thread_local! {
    static USE: Cell<Use> = const { Cell::new(Use { live: 0, blocks: 0, peak: 0, largest: 0, requests: 0 }) };
}

pub const REFUSED: usize = 1 << 30;

/// More than one thread of ours ever holds: a leak or a runaway.
const TOO_MUCH: i64 = 4 << 30;

fn refuse(n: usize) -> bool {
    n >= REFUSED || USE.try_with(|u| u.get().live > TOO_MUCH).unwrap_or(false)
}

fn note(got: usize, lost: usize, blocks: i64) {
    let _ = USE.try_with(|u| {
        let mut x = u.get();
        x.live += got as i64 - lost as i64;
        x.blocks += blocks;
        x.peak = x.peak.max(x.live);
        if got > 0 {
            x.largest = x.largest.max(got);
            x.requests += 1;
        }
        u.set(x);
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            note(l.size(), 0, 1);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            note(l.size(), 0, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) };
        note(0, l.size(), -1);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse(n) {
            return std::ptr::null_mut();
        }
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            note(n, l.size(), 0);
        }
        q
    }
}

pub fn now() -> Use {
    USE.with(|u| u.get())
}

/// Starts peak and largest request afresh.
pub fn reset() -> Use {
    USE.with(|u| {
        let mut x = u.get();
        x.peak = x.live;
        x.largest = 0;
        x.requests = 0;
        u.set(x);
        x
    })
}
