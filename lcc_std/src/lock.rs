//! Locks and atomics with scheduling points.

use crate::{block, point};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync as real;
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

#[derive(Default)]
pub struct Mutex<T: ?Sized>(real::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized + 'a>(Option<real::MutexGuard<'a, T>>);

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(real::Mutex::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        point("mutex lock");
        loop {
            match self.0.try_lock() {
                Ok(g) => return Ok(MutexGuard(Some(g))),
                Err(TryLockError::Poisoned(p)) => return Err(PoisonError::new(MutexGuard(Some(p.into_inner())))),
                Err(TryLockError::WouldBlock) => block("mutex lock"),
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        point("mutex try_lock");
        match self.0.try_lock() {
            Ok(g) => Ok(MutexGuard(Some(g))),
            Err(TryLockError::Poisoned(p)) => {
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard(Some(p.into_inner())))))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.0 = None;
        point("mutex unlock");
    }
}

#[derive(Default)]
pub struct RwLock<T: ?Sized>(real::RwLock<T>);
pub struct RwLockReadGuard<'a, T: ?Sized + 'a>(Option<real::RwLockReadGuard<'a, T>>);
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a>(Option<real::RwLockWriteGuard<'a, T>>);

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(real::RwLock::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        point("rwlock read");
        loop {
            match self.0.try_read() {
                Ok(g) => return Ok(RwLockReadGuard(Some(g))),
                Err(TryLockError::Poisoned(p)) => return Err(PoisonError::new(RwLockReadGuard(Some(p.into_inner())))),
                Err(TryLockError::WouldBlock) => block("rwlock read"),
            }
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        point("rwlock write");
        loop {
            match self.0.try_write() {
                Ok(g) => return Ok(RwLockWriteGuard(Some(g))),
                Err(TryLockError::Poisoned(p)) => return Err(PoisonError::new(RwLockWriteGuard(Some(p.into_inner())))),
                Err(TryLockError::WouldBlock) => block("rwlock write"),
            }
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0 = None;
        point("rwlock unlock");
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0 = None;
        point("rwlock unlock");
    }
}

/// A `OnceLock` whose initialisation is a scheduling point.
#[derive(Default, Debug, Clone)]
pub struct OnceLock<T>(real::OnceLock<T>);
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock(real::OnceLock::new())
    }
    pub fn get(&self) -> Option<&T> {
        point("once get");
        self.0.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.0.get_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        point("once set");
        self.0.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        point("once get_or_init");
        self.0.get_or_init(f)
    }
    pub fn into_inner(self) -> Option<T> {
        self.0.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.0.take()
    }
}

pub mod atomics {
    use crate::point;
    use std::sync::atomic as real;
    use std::sync::atomic::Ordering;

    macro_rules! atomic {
        ($($n:ident: $t:ty, [$($op:ident),*];)*) => {$(
            #[derive(Default, Debug)]
            #[repr(transparent)]
            pub struct $n(real::$n);
            impl $n {
                pub const fn new(t: $t) -> Self { $n(real::$n::new(t)) }
                pub fn load(&self, o: Ordering) -> $t { point("atomic load"); self.0.load(o) }
                pub fn store(&self, t: $t, o: Ordering) { point("atomic store"); self.0.store(t, o) }
                pub fn swap(&self, t: $t, o: Ordering) -> $t { point("atomic swap"); self.0.swap(t, o) }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    point("atomic compare_exchange");
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    point("atomic compare_exchange");
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                    point("atomic fetch_update");
                    self.0.try_update(s, f, g)
                }
                $(pub fn $op(&self, t: $t, o: Ordering) -> $t { point("atomic update"); self.0.$op(t, o) })*
            }
            impl From<$t> for $n { fn from(t: $t) -> Self { $n::new(t) } }
        )*};
    }
    atomic! {
        AtomicUsize: usize, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min];
        AtomicIsize: isize, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min];
        AtomicU64: u64, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min];
        AtomicI64: i64, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min];
        AtomicU32: u32, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min];
        AtomicI32: i32, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min];
        AtomicU8: u8, [fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min];
        AtomicBool: bool, [fetch_and, fetch_or, fetch_xor];
    }
}
