//! `Arc` with a scheduling point before every access to its counts.

use crate::point;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::mem::ManuallyDrop;
use std::ops::Deref;
use std::sync as real;

pub struct Arc<T: ?Sized>(ManuallyDrop<real::Arc<T>>);
pub struct Weak<T: ?Sized>(ManuallyDrop<real::Weak<T>>);

fn arc<T: ?Sized>(a: real::Arc<T>) -> Arc<T> {
    Arc(ManuallyDrop::new(a))
}

impl<T: ?Sized> Arc<T> {
    /// give up the handle without running `Drop`
    fn real(self) -> real::Arc<T> {
        let mut s = ManuallyDrop::new(self);
        unsafe { ManuallyDrop::take(&mut s.0) }
    }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        point("arc get_mut");
        real::Arc::get_mut(&mut this.0)
    }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool {
        real::Arc::ptr_eq(&a.0, &b.0)
    }
    pub fn as_ptr(this: &Self) -> *const T {
        real::Arc::as_ptr(&this.0)
    }
    pub fn strong_count(this: &Self) -> usize {
        point("arc strong_count");
        real::Arc::strong_count(&this.0)
    }
    pub fn weak_count(this: &Self) -> usize {
        point("arc weak_count");
        real::Arc::weak_count(&this.0)
    }
    pub fn downgrade(this: &Self) -> Weak<T> {
        point("arc downgrade");
        Weak(ManuallyDrop::new(real::Arc::downgrade(&this.0)))
    }
    pub fn into_raw(this: Self) -> *const T {
        real::Arc::into_raw(this.real())
    }
    /// # Safety
    /// As for the real `Arc::from_raw`.
    pub unsafe fn from_raw(p: *const T) -> Self {
        arc(real::Arc::from_raw(p))
    }
    /// # Safety
    /// As for the real `Arc::increment_strong_count`.
    pub unsafe fn increment_strong_count(p: *const T) {
        point("arc clone");
        real::Arc::increment_strong_count(p)
    }
    /// # Safety
    /// As for the real `Arc::decrement_strong_count`.
    pub unsafe fn decrement_strong_count(p: *const T) {
        point("arc drop");
        real::Arc::decrement_strong_count(p)
    }
}

impl<T> Arc<T> {
    pub fn new(t: T) -> Self {
        arc(real::Arc::new(t))
    }
    pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Self {
        arc(real::Arc::new_cyclic(|w| {
            let w = Weak(ManuallyDrop::new(w.clone()));
            f(&w)
        }))
    }
    pub fn try_unwrap(this: Self) -> Result<T, Self> {
        point("arc try_unwrap");
        real::Arc::try_unwrap(this.real()).map_err(arc)
    }
    pub fn into_inner(this: Self) -> Option<T> {
        point("arc into_inner");
        real::Arc::into_inner(this.real())
    }
}

impl<T: Clone> Arc<T> {
    pub fn make_mut(this: &mut Self) -> &mut T {
        point("arc make_mut");
        if real::Arc::get_mut(&mut this.0).is_none() {
            // the clone below may interleave with other threads
            let copy = (**this).clone();
            *this = Arc::new(copy);
        }
        real::Arc::get_mut(&mut this.0).unwrap()
    }
    pub fn unwrap_or_clone(this: Self) -> T {
        Arc::try_unwrap(this).unwrap_or_else(|a| (*a).clone())
    }
}

impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        point("arc clone");
        arc(real::Arc::clone(&self.0))
    }
}
impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        point("arc drop");
        unsafe { ManuallyDrop::drop(&mut self.0) }
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> AsRef<T> for Arc<T> {
    fn as_ref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> Borrow<T> for Arc<T> {
    fn borrow(&self) -> &T {
        &self.0
    }
}
impl<T> From<T> for Arc<T> {
    fn from(t: T) -> Self {
        Arc::new(t)
    }
}
impl<T> From<Vec<T>> for Arc<[T]> {
    fn from(t: Vec<T>) -> Self {
        arc(real::Arc::from(t))
    }
}
impl<T> From<Box<T>> for Arc<T> {
    fn from(t: Box<T>) -> Self {
        Arc::new(*t)
    }
}
impl<T> FromIterator<T> for Arc<[T]> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        arc(real::Arc::from_iter(i))
    }
}
impl<T: Default> Default for Arc<T> {
    fn default() -> Self {
        Arc::new(T::default())
    }
}
impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: ?Sized + Eq> Eq for Arc<T> {}
impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        (**self).partial_cmp(&**o)
    }
}
impl<T: ?Sized + Ord> Ord for Arc<T> {
    fn cmp(&self, o: &Self) -> Ordering {
        (**self).cmp(&**o)
    }
}
impl<T: ?Sized + Hash> Hash for Arc<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (**self).hash(h)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

impl<T> Weak<T> {
    pub fn new() -> Self {
        Weak(ManuallyDrop::new(real::Weak::new()))
    }
}
impl<T> Default for Weak<T> {
    fn default() -> Self {
        Weak::new()
    }
}
impl<T: ?Sized> Weak<T> {
    pub fn upgrade(&self) -> Option<Arc<T>> {
        point("weak upgrade");
        self.0.upgrade().map(arc)
    }
    pub fn strong_count(&self) -> usize {
        point("weak strong_count");
        self.0.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        point("weak weak_count");
        self.0.weak_count()
    }
    pub fn ptr_eq(&self, o: &Self) -> bool {
        self.0.ptr_eq(&o.0)
    }
    pub fn as_ptr(&self) -> *const T {
        self.0.as_ptr()
    }
}
impl<T: ?Sized> Clone for Weak<T> {
    fn clone(&self) -> Self {
        point("weak clone");
        Weak(ManuallyDrop::new((*self.0).clone()))
    }
}
impl<T: ?Sized> Drop for Weak<T> {
    fn drop(&mut self) {
        point("weak drop");
        unsafe { ManuallyDrop::drop(&mut self.0) }
    }
}
impl<T: ?Sized> fmt::Debug for Weak<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "(Weak)")
    }
}
