//! Stand-in for the parts of `parking_lot` that the clock views use.
use crate::sched::{controlled, new_key, soft_block_on, soft_point, spin_hint, torn_down, wake};
use std::ops::{Deref, DerefMut};
use std::sync::{self, OnceLock, TryLockError};

pub struct Mutex<T: ?Sized> {
    key: OnceLock<u64>,
    inner: sync::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized> {
    inner: Option<sync::MutexGuard<'a, T>>,
    key: u64,
}

impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { key: OnceLock::new(), inner: sync::Mutex::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.inner.into_inner().unwrap_or_else(|e| e.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    fn key(&self) -> u64 {
        *self.key.get_or_init(new_key)
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        soft_point();
        let r = self.raw_try();
        if r.is_none() {
            spin_hint();
        }
        r
    }
    fn raw_try(&self) -> Option<MutexGuard<'_, T>> {
        match self.inner.try_lock() {
            Ok(g) => Some(MutexGuard { inner: Some(g), key: self.key() }),
            Err(TryLockError::Poisoned(e)) => Some(MutexGuard { inner: Some(e.into_inner()), key: self.key() }),
            Err(TryLockError::WouldBlock) => None,
        }
    }
    pub fn lock(&self) -> MutexGuard<'_, T> {
        if controlled() {
            soft_point();
            while !torn_down() {
                if let Some(g) = self.raw_try() {
                    return g;
                }
                soft_block_on(self.key(), "lock");
            }
        }
        let g = self.inner.lock().unwrap_or_else(|e| e.into_inner());
        MutexGuard { inner: Some(g), key: self.key() }
    }
    pub fn is_locked(&self) -> bool {
        self.raw_try().is_none()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.inner.get_mut().unwrap_or_else(|e| e.into_inner())
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if controlled() {
            soft_point();
        }
        self.inner = None;
        wake(self.key);
    }
}
