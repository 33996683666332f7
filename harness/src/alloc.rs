//! Counting allocator: bytes requested while a measurement is armed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
pub static ARMED: AtomicBool = AtomicBool::new(false);
pub static TOTAL: AtomicUsize = AtomicUsize::new(0);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

fn add(n: usize) {
    if ARMED.load(Relaxed) {
        let t = TOTAL.fetch_add(n, Relaxed) + n;
        let l = LIVE.fetch_add(n, Relaxed) + n;
        PEAK.fetch_max(l, Relaxed);
        if t > LIMIT.load(Relaxed) {
            ARMED.store(false, Relaxed);
            crate::cov::die("alloc", t as u64);
        }
    }
}
fn sub(n: usize) {
    if ARMED.load(Relaxed) {
        let _ = LIVE.try_update(Relaxed, Relaxed, |l| Some(l.saturating_sub(n)));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // growth counts as its increment: an amortised vector stays proportional
        if n > l.size() {
            add(n - l.size());
        } else {
            sub(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

/// runs f with counting on: (result, total bytes requested, bytes still allocated)
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    TOTAL.store(0, Relaxed);
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    ARMED.store(true, Relaxed);
    let r = f();
    ARMED.store(false, Relaxed);
    (r, TOTAL.load(Relaxed), LIVE.load(Relaxed))
}
