//! An allocator that counts, for each thread, what is allocated.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone, Copy, Debug)]
pub struct Counts {
    /// Bytes that are allocated (relative to the start).
    pub live: i64,
    /// The most that `live` has been.
    pub peak: i64,
    /// Bytes that have been allocated, freed or not.
    pub total: i64,
}

const ZERO: Counts = Counts { live: 0, peak: 0, total: 0 };

thread_local! {
    static COUNTS: Cell<Counts> = const { Cell::new(ZERO) };
}

fn change(allocated: usize, freed: usize) {
    // There are no counts while a thread ends.
    let _ = COUNTS.try_with(|c| {
        let mut v = c.get();
        v.live += allocated as i64 - freed as i64;
        v.peak = v.peak.max(v.live);
        v.total += allocated as i64;
        c.set(v);
    });
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        change(l.size(), 0);
        System.alloc(l)
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        change(l.size(), 0);
        System.alloc_zeroed(l)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        change(0, l.size());
        System.dealloc(p, l);
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        change(n, l.size());
        System.realloc(p, l, n)
    }
}

/// Starts to count.
pub fn start() {
    COUNTS.with(|c| c.set(ZERO));
}

pub fn counts() -> Counts {
    COUNTS.with(Cell::get)
}
