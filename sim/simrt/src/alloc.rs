//! Counts the live heap bytes of each thread; a simulated run owns its thread, so the counter is the
//! memory held by the run.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static REFUSED: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

pub struct Counting;

thread_local! {
    static PAUSED: Cell<bool> = const { Cell::new(false) };
}

/// Run `f` without counting its allocations (for the simulator's own bookkeeping)
pub fn uncounted<R>(f: impl FnOnce() -> R) -> R {
    let old = PAUSED.with(|p| p.replace(true));
    let r = f();
    PAUSED.with(|p| p.set(old));
    r
}

fn add(n: i64) {
    if PAUSED.try_with(|p| p.get()).unwrap_or(false) {
        return;
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}

fn allowed(n: usize) -> bool {
    let ok = LIMIT.try_with(|l| n as i64 <= l.get()).unwrap_or(true);
    if !ok {
        let _ = REFUSED.try_with(|r| r.set(r.get() + 1));
    }
    ok
}

/// Allocations that failed on this thread
pub fn refused() -> u64 {
    REFUSED.with(|r| r.get())
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !allowed(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !allowed(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() && !allowed(new) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            add(new as i64 - l.size() as i64);
        }
        q
    }
}

/// Live heap bytes allocated (net) by this thread
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

pub fn peak() -> i64 {
    PEAK.with(|l| l.get())
}

pub fn reset_peak() {
    PEAK.with(|p| p.set(live()))
}

/// Single allocations larger than this fail on this thread
pub fn set_single_limit(n: i64) {
    LIMIT.with(|l| l.set(n))
}
