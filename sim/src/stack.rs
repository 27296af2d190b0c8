//! Measures how much call stack a call touches, also where no callback could look.
//!
//! Fills the unused part of this thread's stack with a pattern before, and looks for where it is
//! gone after.  Threads of the simulator have far greater stacks, mapped as a whole.

use std::hint::black_box;

const AREA: usize = 768 * 1024;
/// For the frames of the functions here.
const GAP: usize = 4096;
const PAT: u64 = 0xA5C3_96E1_5A3C_691E;

#[inline(never)]
fn paint(base: usize) {
    let mut p = base - AREA;
    while p < base - GAP {
        // SAFETY: below all frames in use, within the stack of this thread, aligned.
        unsafe { (p as *mut u64).write_volatile(PAT) };
        p += 8;
    }
}

#[inline(never)]
fn scan(base: usize) -> usize {
    let mut p = base - AREA;
    while p < base - GAP {
        // SAFETY: as above; whatever is there is what is wanted.
        if unsafe { (p as *const u64).read_volatile() } != PAT {
            break;
        }
        p += 8;
    }
    base - p
}

/// Bytes of stack below here that `f` wrote to (at most the painted area).
#[inline(never)]
pub fn measured<T>(touched: &mut usize, f: impl FnOnce() -> T) -> T {
    let mark = 0u64;
    let base = black_box(&mark) as *const u64 as usize & !63;
    paint(base);
    let r = f();
    *touched = scan(base);
    black_box(r)
}
