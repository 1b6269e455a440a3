//! Model of the `seize` reclamation API for the controlled scheduler.
//!
//! Same public API as seize 0.5, but retired objects are reclaimed at the earliest moment the
//! contract allows: as soon as every guard that was active when the object was retired has been
//! dropped (at once when none was active).  That is the most adversarial legal collector, so any
//! reliance on reclamation being later than promised becomes a use-after-free the engine sees.
use std::fmt;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicPtr, Ordering};

extern "C" {
    fn mc_collector_point(obj: *const u8, wr: i32);
    fn mc_release(obj: *const u8);
    fn mc_acquire(obj: *const u8);
    fn mc_tid() -> i32;
    fn mc_harness_alloc(d: i32);
}

/// Reclamation functions.
pub mod reclaim {
    use super::Collector;
    /// Drops a box.
    pub unsafe fn boxed<T>(ptr: *mut T, _c: &Collector) {
        unsafe { drop(Box::from_raw(ptr)) }
    }
    /// Drops in place.
    pub unsafe fn in_place<T>(ptr: *mut T, _c: &Collector) {
        unsafe { std::ptr::drop_in_place(ptr) }
    }
}

struct Retired {
    ptr: *mut u8,
    call: unsafe fn(*mut u8, *const u8, &Collector),
    f: *const u8,
    wait: Vec<u64>, // guards that must be dropped first
}

struct State {
    next: u64,
    active: Vec<u64>,
    retired: Vec<Retired>,
}

/// The collector.
pub struct Collector {
    // Only ever touched by the one running thread; never across a scheduling point.
    st: Box<std::cell::UnsafeCell<State>>,
    id: Box<u64>,
}
unsafe impl Send for Collector {}
unsafe impl Sync for Collector {}

fn quiet<R>(f: impl FnOnce() -> R) -> R {
    unsafe { mc_harness_alloc(1) };
    let r = f();
    unsafe { mc_harness_alloc(-1) };
    r
}

mod raw; // uninstrumented bookkeeping lives behind this door
pub(crate) use raw::shadow_off;

impl Default for Collector {
    fn default() -> Self {
        Self::new()
    }
}

impl Collector {
    /// New collector.
    pub fn new() -> Self {
        quiet(|| Collector {
            st: Box::new(std::cell::UnsafeCell::new(State {
                next: 1,
                active: Vec::with_capacity(8),
                retired: Vec::with_capacity(16),
            })),
            id: Box::new(0),
        })
    }
    /// Batch size (ignored: reclamation is always as early as possible).
    pub fn batch_size(self, _n: usize) -> Self {
        self
    }
    /// Enter.
    pub fn enter(&self) -> LocalGuard<'_> {
        let id = self.enter_raw();
        LocalGuard { collector: self, id, _p: PhantomData }
    }
    /// Enter (owned).
    pub fn enter_owned(&self) -> OwnedGuard<'_> {
        let id = self.enter_raw();
        OwnedGuard { collector: self, id }
    }
    fn key(&self) -> *const u8 {
        &*self.id as *const u64 as *const u8
    }
    fn enter_raw(&self) -> u64 {
        unsafe { mc_collector_point(self.key(), 0) };
        shadow_off(|| {
            let s = unsafe { &mut *self.st.get() };
            let id = s.next;
            s.next += 1;
            s.active.push(id);
            id
        })
    }
    fn leave_raw(&self, id: u64) {
        unsafe {
            mc_collector_point(self.key(), 0);
            mc_release(self.key());
        }
        let ready = shadow_off(|| {
            let s = unsafe { &mut *self.st.get() };
            s.active.retain(|&g| g != id);
            let mut ready = Vec::new();
            let mut i = 0;
            while i < s.retired.len() {
                s.retired[i].wait.retain(|&g| g != id);
                if s.retired[i].wait.is_empty() {
                    ready.push(s.retired.remove(i));
                } else {
                    i += 1;
                }
            }
            ready
        });
        self.run(ready);
    }
    fn run(&self, ready: Vec<Retired>) {
        if !ready.is_empty() {
            unsafe { mc_acquire(self.key()) };
        }
        for r in &ready {
            unsafe { (r.call)(r.ptr, r.f, self) };
        }
        shadow_off(|| drop(ready));
    }
    /// Retire.
    ///
    /// # Safety
    /// As in seize.
    pub unsafe fn retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector)) {
        unsafe fn call<T>(p: *mut u8, f: *const u8, c: &Collector) {
            let f: unsafe fn(*mut T, &Collector) = unsafe { std::mem::transmute(f) };
            unsafe { f(p.cast(), c) }
        }
        debug_assert!(!ptr.is_null(), "attempted to retire a null pointer");
        unsafe {
            mc_collector_point(self.key(), 1);
            mc_release(self.key());
        }
        let now = shadow_off(|| {
            let s = unsafe { &mut *self.st.get() };
            let r = Retired {
                ptr: ptr.cast(),
                call: call::<T>,
                f: reclaim as *const u8,
                wait: s.active.clone(),
            };
            if r.wait.is_empty() {
                vec![r]
            } else {
                s.retired.push(r);
                Vec::new()
            }
        });
        self.run(now);
    }
    /// Reclaim everything.
    ///
    /// # Safety
    /// As in seize.
    pub unsafe fn reclaim_all(&self) {
        loop {
            let all = shadow_off(|| {
                let s = unsafe { &mut *self.st.get() };
                std::mem::take(&mut s.retired)
            });
            if all.is_empty() {
                break;
            }
            self.run(all);
        }
    }
}

impl Drop for Collector {
    fn drop(&mut self) {
        unsafe { self.reclaim_all() };
    }
}

impl Eq for Collector {}
impl PartialEq for Collector {
    fn eq(&self, o: &Self) -> bool {
        std::ptr::eq(self.key(), o.key())
    }
}
impl fmt::Debug for Collector {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Collector").finish()
    }
}

/// Guard operations.
pub trait Guard {
    /// Refresh.
    fn refresh(&mut self);
    /// Flush.
    fn flush(&self);
    /// Collector.
    fn collector(&self) -> &Collector;
    /// Thread id.
    fn thread_id(&self) -> usize;
    /// Protected load.
    fn protect<T>(&self, ptr: &AtomicPtr<T>, order: Ordering) -> *mut T {
        ptr.load(order)
    }
    /// Swap.
    fn swap<T>(&self, ptr: &AtomicPtr<T>, value: *mut T, order: Ordering) -> *mut T {
        ptr.swap(value, order)
    }
    /// CAS.
    fn compare_exchange<T>(
        &self,
        ptr: &AtomicPtr<T>,
        current: *mut T,
        new: *mut T,
        success: Ordering,
        failure: Ordering,
    ) -> Result<*mut T, *mut T> {
        ptr.compare_exchange(current, new, success, failure)
    }
    /// Weak CAS.
    fn compare_exchange_weak<T>(
        &self,
        ptr: &AtomicPtr<T>,
        current: *mut T,
        new: *mut T,
        success: Ordering,
        failure: Ordering,
    ) -> Result<*mut T, *mut T> {
        ptr.compare_exchange_weak(current, new, success, failure)
    }
    /// Defer retirement.
    ///
    /// # Safety
    /// As in seize.
    unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector));
}

/// Guard tied to the current thread.
pub struct LocalGuard<'a> {
    collector: &'a Collector,
    id: u64,
    _p: PhantomData<*mut ()>,
}
/// Guard not tied to a thread.
pub struct OwnedGuard<'a> {
    collector: &'a Collector,
    id: u64,
}

macro_rules! guard {
    ($g:ident) => {
        impl Guard for $g<'_> {
            fn refresh(&mut self) {
                let old = self.id;
                self.id = self.collector.enter_raw();
                self.collector.leave_raw(old);
            }
            fn flush(&self) {}
            fn collector(&self) -> &Collector {
                self.collector
            }
            fn thread_id(&self) -> usize {
                unsafe { mc_tid() as usize }
            }
            unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector)) {
                unsafe { self.collector.retire(ptr, reclaim) }
            }
        }
        impl Drop for $g<'_> {
            fn drop(&mut self) {
                self.collector.leave_raw(self.id);
            }
        }
        impl fmt::Debug for $g<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_tuple(stringify!($g)).finish()
            }
        }
    };
}
guard!(LocalGuard);
guard!(OwnedGuard);
