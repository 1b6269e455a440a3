//! Counts what is allocated.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
pub struct Counting;
static N: AtomicI64 = AtomicI64::new(0);
static B: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(1, Relaxed);
        B.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        N.fetch_sub(1, Relaxed);
        B.fetch_sub(l.size() as i64, Relaxed);
        // use after free shows
        if l.size() <= 1 << 20 {
            std::ptr::write_bytes(p, 0xdd, l.size());
            std::hint::black_box(p);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
pub fn balance() -> (i64, i64) {
    (N.load(Relaxed), B.load(Relaxed))
}
