//! Stand-in: the locks of parking_lot under the harness scheduler.
use std::{cell::UnsafeCell, ops::{Deref, DerefMut}, fmt};
use sched::Held;
pub struct Mutex<T: ?Sized> { h: UnsafeCell<Held>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self { Mutex { h: UnsafeCell::new(Held::new()), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> T { self.v.into_inner() }
    pub fn lock(&self) -> MutexGuard<'_, T> { sched::point(); unsafe { (*self.h.get()).lock() }; MutexGuard(self) }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        sched::point();
        if unsafe { (*self.h.get()).writer } { return None }
        unsafe { (*self.h.get()).lock() };
        Some(MutexGuard(self))
    }
    pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Mutex") } }
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> { fn drop(&mut self) { unsafe { (*self.0.h.get()).writer = false } } }
pub struct RwLock<T: ?Sized> { h: UnsafeCell<Held>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self { RwLock { h: UnsafeCell::new(Held::new()), v: UnsafeCell::new(v) } }
    pub fn read(&self) -> RwLockReadGuard<'_, T> { sched::point(); unsafe { (*self.h.get()).read() }; RwLockReadGuard(self) }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> { sched::point(); unsafe { (*self.h.get()).lock() }; RwLockWriteGuard(self) }
    pub fn into_inner(self) -> T { self.v.into_inner() }
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RwLock") } }
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { unsafe { (*self.0.h.get()).readers -= 1 } } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { unsafe { (*self.0.h.get()).writer = false } } }
