//! Counting allocator: live bytes, their peak, and a ceiling above which an
//! allocation fails (which aborts the worker, and is reported as a crash).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
const CEILING: usize = 1 << 30;

fn add(n: usize) -> bool {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
    if ON.load(Relaxed) && l > CEILING {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if add(l.size()) { System.alloc(l) } else { std::ptr::null_mut() }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if add(l.size()) { System.alloc_zeroed(l) } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !add(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

/// the ceiling applies only while the code under test runs
pub fn guard(on: bool) {
    ON.store(on, Relaxed);
}
pub fn start() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}
pub fn peak_since(base: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(base)
}
