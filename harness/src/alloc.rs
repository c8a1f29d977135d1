//! Counting allocator: largest request, and bytes requested, since the last reset.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static CURRENT: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

fn add(n: usize) {
    let c = CURRENT.fetch_add(n, Relaxed).wrapping_add(n);
    if n > LARGEST.load(Relaxed) {
        LARGEST.store(n, Relaxed);
    }
    if c > PEAK.load(Relaxed) && c < usize::MAX / 2 {
        PEAK.store(c, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CURRENT.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        CURRENT.fetch_sub(l.size(), Relaxed);
        add(n);
        System.realloc(p, l, n)
    }
}

pub fn reset() {
    LARGEST.store(0, Relaxed);
    PEAK.store(CURRENT.load(Relaxed), Relaxed);
}
/// (largest single request, growth of the peak) since the reset given the start level
pub fn stats(start: usize) -> (usize, usize) {
    (LARGEST.load(Relaxed), PEAK.load(Relaxed).saturating_sub(start))
}
pub fn level() -> usize {
    CURRENT.load(Relaxed)
}
