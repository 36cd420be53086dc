//! Allocation monitor: ends the worker with code 77 when live or single allocations exceed the budget.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Mon;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(3 << 30);
static TRIP: AtomicBool = AtomicBool::new(false);

fn grow(n: usize) {
    let v = LIVE.fetch_add(n, Relaxed) + n;
    if v > PEAK.load(Relaxed) {
        PEAK.store(v, Relaxed);
    }
    if v > LIMIT.load(Relaxed) && !TRIP.swap(true, Relaxed) {
        LIMIT.store(usize::MAX, Relaxed);
        eprintln!("{} bytes live, last request {}", v, n);
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        eprintln!("{}", crate::first_repo_frame(&bt));
        std::process::exit(77);
    }
}
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        let p = System.alloc(l);
        if p.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        let p = System.alloc_zeroed(l);
        if p.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grow(n - l.size());
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}
pub fn peak_reset() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
pub fn set_limit(n: usize) {
    LIMIT.store(n, Relaxed);
}
