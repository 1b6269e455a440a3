//! A heap that notices releases that do not match an allocation, keeps released memory for a while
//! (filled with a pattern), and counts what is live.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};

pub struct Heap;
const HDR: usize = 64;
const LIVE: u64 = 0xA11C_0DE5_1234_5678;
const DEAD: u64 = 0xDEAD_0DE5_8765_4321;
const RING: usize = 2048;
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static BYTES: AtomicI64 = AtomicI64::new(0);
static AT: AtomicUsize = AtomicUsize::new(0);
static OLD: [AtomicUsize; RING] = [const { AtomicUsize::new(0) }; RING];

fn whole(size: usize, align: usize) -> Layout {
    unsafe { Layout::from_size_align_unchecked(size + HDR.max(align), align.max(16)) }
}
fn die(what: &str) -> ! {
    use std::io::Write;
    let _ = std::io::stderr().write_all(what.as_bytes());
    std::process::abort()
}
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(whole(l.size(), l.align()));
        if p.is_null() {
            return p;
        }
        let q = p.add(HDR.max(l.align()));
        let h = q.cast::<u64>();
        *h.sub(1) = LIVE;
        *h.sub(2) = l.size() as u64;
        *h.sub(3) = l.align() as u64;
        BLOCKS.fetch_add(1, Relaxed);
        BYTES.fetch_add(l.size() as i64, Relaxed);
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let h = q.cast::<u64>();
        if *h.sub(1) == DEAD {
            die("HEAP memory released twice\n");
        }
        if *h.sub(1) != LIVE {
            die("HEAP released what was never allocated\n");
        }
        if *h.sub(2) != l.size() as u64 || *h.sub(3) != l.align() as u64 {
            die("HEAP released with the wrong type\n");
        }
        *h.sub(1) = DEAD;
        BLOCKS.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        if l.size() > 1 << 16 {
            System.dealloc(q.sub(HDR.max(l.align())), whole(l.size(), l.align()));
            return;
        }
        q.write_bytes(0xD7, l.size());
        let i = AT.fetch_add(1, Relaxed) % RING;
        let o = OLD[i].swap(q as usize, Relaxed) as *mut u8;
        if !o.is_null() {
            let h = o.cast::<u64>();
            let (size, align) = (*h.sub(2) as usize, *h.sub(3) as usize);
            if *h.sub(1) != DEAD || (0..size).any(|k| *o.add(k) != 0xD7) {
                die("HEAP memory was written after its release\n");
            }
            System.dealloc(o.sub(HDR.max(align)), whole(size, align));
        }
    }
}
#[global_allocator]
static HEAP: Heap = Heap;

/// Every block in quarantine still holds the pattern?
pub fn settle() {
    for s in &OLD {
        let o = s.load(Relaxed) as *mut u8;
        if !o.is_null() {
            unsafe {
                let size = *o.cast::<u64>().sub(2) as usize;
                if (0..size).any(|k| *o.add(k) != 0xD7) {
                    die("HEAP memory was written after its release\n");
                }
            }
        }
    }
}
pub fn live() -> (i64, i64) {
    (BLOCKS.load(Relaxed), BYTES.load(Relaxed))
}
