//! `portable_atomic` for the instrumented build: 128-bit atomics as single engine operations (the
//! real crate uses inline assembly, which no instrumentation sees); everything else is core's.
pub use core::sync::atomic::*;
use core::cell::UnsafeCell;

extern "C" {
    fn __tsan_atomic128_load(a: *const u128, mo: i32) -> u128;
    fn __tsan_atomic128_store(a: *mut u128, v: u128, mo: i32);
    fn __tsan_atomic128_exchange(a: *mut u128, v: u128, mo: i32) -> u128;
    fn __tsan_atomic128_fetch_add(a: *mut u128, v: u128, mo: i32) -> u128;
    fn __tsan_atomic128_fetch_sub(a: *mut u128, v: u128, mo: i32) -> u128;
    fn __tsan_atomic128_fetch_and(a: *mut u128, v: u128, mo: i32) -> u128;
    fn __tsan_atomic128_fetch_or(a: *mut u128, v: u128, mo: i32) -> u128;
    fn __tsan_atomic128_fetch_xor(a: *mut u128, v: u128, mo: i32) -> u128;
    fn __tsan_atomic128_compare_exchange_val(a: *mut u128, c: u128, v: u128, mo: i32, f: i32) -> u128;
}
fn mo(o: Ordering) -> i32 {
    match o {
        Ordering::Relaxed => 0,
        Ordering::Acquire => 2,
        Ordering::Release => 3,
        Ordering::AcqRel => 4,
        _ => 5,
    }
}
/// 128-bit atomic.
#[repr(C, align(16))]
pub struct AtomicU128(UnsafeCell<u128>);
unsafe impl Sync for AtomicU128 {}
unsafe impl Send for AtomicU128 {}
impl core::fmt::Debug for AtomicU128 {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        core::fmt::Debug::fmt(&self.load(Ordering::Relaxed), f)
    }
}
impl Default for AtomicU128 {
    fn default() -> Self {
        Self::new(0)
    }
}
impl From<u128> for AtomicU128 {
    fn from(v: u128) -> Self {
        Self::new(v)
    }
}
#[allow(missing_docs)]
impl AtomicU128 {
    pub const fn new(v: u128) -> Self {
        AtomicU128(UnsafeCell::new(v))
    }
    pub fn is_lock_free() -> bool {
        true
    }
    pub const fn is_always_lock_free() -> bool {
        true
    }
    pub fn get_mut(&mut self) -> &mut u128 {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> u128 {
        self.0.into_inner()
    }
    pub const fn as_ptr(&self) -> *mut u128 {
        self.0.get()
    }
    pub fn load(&self, o: Ordering) -> u128 {
        unsafe { __tsan_atomic128_load(self.0.get(), mo(o)) }
    }
    pub fn store(&self, v: u128, o: Ordering) {
        unsafe { __tsan_atomic128_store(self.0.get(), v, mo(o)) }
    }
    pub fn swap(&self, v: u128, o: Ordering) -> u128 {
        unsafe { __tsan_atomic128_exchange(self.0.get(), v, mo(o)) }
    }
    pub fn fetch_add(&self, v: u128, o: Ordering) -> u128 {
        unsafe { __tsan_atomic128_fetch_add(self.0.get(), v, mo(o)) }
    }
    pub fn fetch_sub(&self, v: u128, o: Ordering) -> u128 {
        unsafe { __tsan_atomic128_fetch_sub(self.0.get(), v, mo(o)) }
    }
    pub fn fetch_and(&self, v: u128, o: Ordering) -> u128 {
        unsafe { __tsan_atomic128_fetch_and(self.0.get(), v, mo(o)) }
    }
    pub fn fetch_or(&self, v: u128, o: Ordering) -> u128 {
        unsafe { __tsan_atomic128_fetch_or(self.0.get(), v, mo(o)) }
    }
    pub fn fetch_xor(&self, v: u128, o: Ordering) -> u128 {
        unsafe { __tsan_atomic128_fetch_xor(self.0.get(), v, mo(o)) }
    }
    pub fn compare_exchange(&self, c: u128, v: u128, s: Ordering, f: Ordering) -> Result<u128, u128> {
        let r = unsafe { __tsan_atomic128_compare_exchange_val(self.0.get(), c, v, mo(s), mo(f)) };
        if r == c { Ok(r) } else { Err(r) }
    }
    pub fn compare_exchange_weak(&self, c: u128, v: u128, s: Ordering, f: Ordering) -> Result<u128, u128> {
        self.compare_exchange(c, v, s, f)
    }
    pub fn fetch_update<F: FnMut(u128) -> Option<u128>>(
        &self,
        s: Ordering,
        f: Ordering,
        mut g: F,
    ) -> Result<u128, u128> {
        let mut p = self.load(f);
        while let Some(n) = g(p) {
            match self.compare_exchange_weak(p, n, s, f) {
                x @ Ok(_) => return x,
                Err(q) => p = q,
            }
        }
        Err(p)
    }
}
