//! Counting allocator: what the current thread has taken and not given back.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn add(d: i64) {
    let _ = NET.try_with(|n| {
        n.set(n.get() + d);
        let _ = PEAK.try_with(|p| p.set(p.get().max(n.get())));
    });
}

/// The most since last set.
pub fn peak() -> i64 {
    PEAK.with(Cell::get)
}

pub fn set_peak(x: i64) {
    PEAK.with(|p| p.set(x));
}

pub fn net() -> i64 {
    NET.with(Cell::get)
}

// SAFETY: delegates to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
