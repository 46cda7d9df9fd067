//! Simulated allocator: counts live and peak heap bytes, and fails any
//! allocation which would exceed the budget (the process then aborts, and the
//! parent reports the run which was in progress).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};

pub struct SimAlloc;

static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
static BUDGET: AtomicIsize = AtomicIsize::new(isize::MAX);

fn grow(n: usize) -> bool {
    let n = n as isize;
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if live > BUDGET.load(Relaxed) {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
    }
    true
}

fn shrink(n: usize) {
    LIVE.fetch_sub(n as isize, Relaxed);
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        unsafe { System.dealloc(p, l) }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !grow(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            shrink(l.size() - n);
        }
        unsafe { System.realloc(p, l, n) }
    }
}

/// Limit the heap to `bytes` more than is live now
pub fn set_budget(bytes: usize) {
    BUDGET.store(LIVE.load(Relaxed).saturating_add(bytes as isize), Relaxed);
}

/// Start a measurement; returns the base for `peak_since`
pub fn start() -> isize {
    let live = LIVE.load(Relaxed);
    PEAK.store(live, Relaxed);
    live
}

/// Peak bytes over the base
pub fn peak_since(base: isize) -> usize {
    (PEAK.load(Relaxed) - base).max(0) as usize
}

/// Live bytes now
pub fn live() -> isize {
    LIVE.load(Relaxed)
}
