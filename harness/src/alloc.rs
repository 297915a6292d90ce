//! How much memory the code under test holds at most.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
struct Counting;
#[global_allocator]
static A: Counting = Counting;

fn add(n: usize) {
    let x = NOW.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(x, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        NOW.fetch_sub(l.size(), Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n);
            NOW.fetch_sub(l.size(), Relaxed);
        }
        q
    }
}
/// Starts measuring; returns what is held now.
pub fn start() -> usize {
    let n = NOW.load(Relaxed);
    PEAK.store(n, Relaxed);
    n
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
