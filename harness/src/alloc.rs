//! Counting allocator: how much memory a call had in use at its peak.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
pub struct Counting;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { let c = CUR.fetch_add(l.size(), Relaxed) + l.size(); PEAK.fetch_max(c, Relaxed); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l); CUR.fetch_sub(l.size(), Relaxed); }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() { let c = CUR.fetch_add(l.size(), Relaxed) + l.size(); PEAK.fetch_max(c, Relaxed); }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            CUR.fetch_sub(l.size(), Relaxed);
            let c = CUR.fetch_add(n, Relaxed) + n;
            PEAK.fetch_max(c, Relaxed);
        }
        q
    }
}
/// Starts a measurement: forgets the peak so far.
pub fn mark() -> usize { let c = CUR.load(Relaxed); PEAK.store(c, Relaxed); c }
/// Bytes in use at the peak above the mark.
pub fn peak(since: usize) -> usize { PEAK.load(Relaxed).saturating_sub(since) }
