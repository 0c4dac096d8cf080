//! k-lock's mutex on simulated tasks: contention suspends the coroutine instead of the thread, and
//! taking or releasing it is a scheduling point.

use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicBool, Ordering};

pub use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

pub struct Mutex<T: ?Sized> {
    held: AtomicBool,
    poisoned: AtomicBool,
    data: UnsafeCell<T>,
}
// SAFETY: `held` makes access to `data` exclusive.
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    panicking: bool,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { held: AtomicBool::new(false), poisoned: AtomicBool::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.load(Ordering::Relaxed);
        let v = self.data.into_inner();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn key(&self) -> usize {
        &self.held as *const _ as usize
    }
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { lock: self, panicking: std::thread::panicking() };
        if self.poisoned.load(Ordering::Relaxed) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        simcore::point(simcore::P_LOCK);
        while self.held.swap(true, Ordering::Acquire) {
            if !simcore::block_on_key(self.key()) {
                simcore::stuck("a lock is held by a suspended task while this one unwinds");
            }
        }
        // holding it is a point too: others may run into it
        simcore::point(simcore::P_LOCK);
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        simcore::point(simcore::P_LOCK);
        if self.held.swap(true, Ordering::Acquire) {
            return Err(TryLockError::WouldBlock);
        }
        Ok(self.guard()?)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.load(Ordering::Relaxed);
        let v = self.data.get_mut();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.load(Ordering::Relaxed)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() {
            self.lock.poisoned.store(true, Ordering::Relaxed);
        }
        simcore::point(simcore::P_UNLOCK);
        self.lock.held.store(false, Ordering::Release);
        simcore::unblock(self.lock.key());
        simcore::point(simcore::P_UNLOCK);
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        // SAFETY: the guard is exclusive
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        // SAFETY: the guard is exclusive
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
