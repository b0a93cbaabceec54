//! Counts what is allocated, and refuses what no object in these tests can need.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
pub struct Counting;
static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
const REFUSE: usize = 1 << 32;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        NOW.fetch_sub(l.size(), Relaxed);
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
fn note(n: usize) {
    let now = NOW.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(now, Relaxed);
    LARGEST.fetch_max(n, Relaxed);
}
pub fn reset() {
    let n = NOW.load(Relaxed);
    BASE.store(n, Relaxed);
    PEAK.store(n, Relaxed);
    LARGEST.store(0, Relaxed);
}
/// the most memory in use since `reset`, above what was in use then
pub fn peak() -> u64 {
    PEAK.load(Relaxed).saturating_sub(BASE.load(Relaxed)) as u64
}
pub fn warm() {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let mut c = crate::case::Case::new("warm up");
        let id = [1u8; 20];
        c.loose(&id, &crate::util::zlib(&crate::util::obj_raw("commit", b"tree aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\nauthor A <a@x> 1 +0000\ncommitter A <a@b> 1 +0000\n\nhi")));
        c.object(&id, crate::case::Expect::Any);
        let _ = c.run();
    });
}
