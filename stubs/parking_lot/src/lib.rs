//! Model of the parts of `parking_lot` a user of locks needs, on the controlled scheduler:
//! acquiring a held lock blocks the thread in the engine (so deadlocks are seen).
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};

extern "C" {
    fn mc_lock(m: *mut u32);
    fn mc_trylock(m: *mut u32) -> i32;
    fn mc_unlock(m: *mut u32);
    fn mc_yield();
}

/// Mutex.
pub struct Mutex<T: ?Sized> {
    raw: UnsafeCell<u32>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

impl<T> Mutex<T> {
    /// New.
    pub const fn new(v: T) -> Self {
        Mutex { raw: UnsafeCell::new(0), data: UnsafeCell::new(v) }
    }
    /// Into inner.
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    /// Lock.
    pub fn lock(&self) -> MutexGuard<'_, T> {
        unsafe { mc_lock(self.raw.get()) };
        MutexGuard { m: self }
    }
    /// Try lock.
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        if unsafe { mc_trylock(self.raw.get()) } != 0 {
            Some(MutexGuard { m: self })
        } else {
            None
        }
    }
    /// Get mut.
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
    /// Is locked.
    pub fn is_locked(&self) -> bool {
        match self.try_lock() {
            Some(_) => false,
            None => true,
        }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
/// Guard.
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { mc_unlock(self.m.raw.get()) };
    }
}

/// Condition variable: a waiter wakes after any write by another thread and re-checks (a spurious
/// wake-up is always legal).
#[derive(Default, Debug)]
pub struct Condvar(());
impl Condvar {
    /// New.
    pub const fn new() -> Self {
        Condvar(())
    }
    /// Notify one.
    pub fn notify_one(&self) -> bool {
        true
    }
    /// Notify all.
    pub fn notify_all(&self) -> usize {
        1
    }
    /// Wait.
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        unsafe {
            mc_unlock(g.m.raw.get());
            mc_yield();
            mc_lock(g.m.raw.get());
        }
    }
}

/// Result of a timed wait.
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    /// Timed out?
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Condvar {
    /// Timed wait: behaves as a wait that may time out at any moment.
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _t: std::time::Duration) -> WaitTimeoutResult {
        self.wait(g);
        WaitTimeoutResult(true)
    }
    /// Timed wait.
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, _t: std::time::Instant) -> WaitTimeoutResult {
        self.wait(g);
        WaitTimeoutResult(true)
    }
}

/// Reader-writer lock (exclusive in this model).
pub struct RwLock<T: ?Sized>(Mutex<T>);
impl<T> RwLock<T> {
    /// New.
    pub const fn new(v: T) -> Self {
        RwLock(Mutex::new(v))
    }
}
impl<T: ?Sized> RwLock<T> {
    /// Read.
    pub fn read(&self) -> MutexGuard<'_, T> {
        self.0.lock()
    }
    /// Write.
    pub fn write(&self) -> MutexGuard<'_, T> {
        self.0.lock()
    }
}
