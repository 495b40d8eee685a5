//! std::sync locks as the shim exports them: lock operations are scheduling points.
use crate::sched::{controlled, new_key, soft_block_on, soft_point, torn_down, wake};
use std::ops::{Deref, DerefMut};
use std::sync::{self, LockResult, OnceLock, PoisonError, TryLockError};

#[derive(Default)]
pub struct Mutex<T: ?Sized> {
    key: OnceLock<u64>,
    inner: sync::Mutex<T>,
}
#[derive(Default)]
pub struct RwLock<T: ?Sized> {
    key: OnceLock<u64>,
    inner: sync::RwLock<T>,
}
/// Guard over any of the standard guards: releases, then wakes whoever waits.
pub struct Guard<G> {
    inner: Option<G>,
    key: u64,
}
impl<G: Deref> Deref for Guard<G> {
    type Target = G::Target;
    fn deref(&self) -> &G::Target {
        self.inner.as_ref().unwrap()
    }
}
impl<G: DerefMut> DerefMut for Guard<G> {
    fn deref_mut(&mut self) -> &mut G::Target {
        self.inner.as_mut().unwrap()
    }
}
impl<G> Drop for Guard<G> {
    fn drop(&mut self) {
        if controlled() {
            soft_point();
        }
        self.inner = None;
        wake(self.key);
    }
}
fn acquire<G>(key: u64, try_it: impl Fn() -> Result<G, TryLockError<G>>, hard: impl Fn() -> LockResult<G>) -> LockResult<Guard<G>> {
    if controlled() {
        soft_point();
        while !torn_down() {
            match try_it() {
                Ok(g) => return Ok(Guard { inner: Some(g), key }),
                Err(TryLockError::Poisoned(e)) => {
                    return Err(PoisonError::new(Guard { inner: Some(e.into_inner()), key }))
                }
                Err(TryLockError::WouldBlock) => {
                    soft_block_on(key, "lock");
                }
            }
        }
    }
    match hard() {
        Ok(g) => Ok(Guard { inner: Some(g), key }),
        Err(e) => Err(PoisonError::new(Guard { inner: Some(e.into_inner()), key })),
    }
}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { key: OnceLock::new(), inner: sync::Mutex::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<Guard<sync::MutexGuard<'_, T>>> {
        acquire(*self.key.get_or_init(new_key), || self.inner.try_lock(), || self.inner.lock())
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { key: OnceLock::new(), inner: sync::RwLock::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<Guard<sync::RwLockReadGuard<'_, T>>> {
        acquire(*self.key.get_or_init(new_key), || self.inner.try_read(), || self.inner.read())
    }
    pub fn write(&self) -> LockResult<Guard<sync::RwLockWriteGuard<'_, T>>> {
        acquire(*self.key.get_or_init(new_key), || self.inner.try_write(), || self.inner.write())
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: ?Sized> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> std::fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("RwLock")
    }
}
