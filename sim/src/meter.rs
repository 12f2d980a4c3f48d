//! The allocator seam: measures what a call allocates, and refuses a single
//! call more than `HARD` bytes (an allocation that fails, as in a deployment
//! with limited memory).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub const HARD: isize = 1 << 30;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

pub struct Meter;

fn grow(n: isize) -> bool {
    let l = LIVE.with(|c| {
        let v = c.get() + n;
        c.set(v);
        v
    });
    if ARMED.with(|a| a.get()) {
        PEAK.with(|p| {
            if l > p.get() {
                p.set(l)
            }
        });
        if l > HARD {
            LIVE.with(|c| c.set(c.get() - n));
            return false;
        }
    }
    true
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.with(|c| c.set(c.get() - l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !grow(n as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// The result of `f` and the largest number of bytes it held at once on this thread.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, u64) {
    // relative to now
    LIVE.with(|c| c.set(0));
    PEAK.with(|p| p.set(0));
    ARMED.with(|a| a.set(true));
    let r = f();
    ARMED.with(|a| a.set(false));
    (r, PEAK.with(|p| p.get()).max(0) as u64)
}
