//! `Rc`, `Cell` and `RefCell`.  Their accesses are not atomic: a thread can be
//! preempted between reading a count and writing it back.

use crate::point;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::mem::ManuallyDrop;
use std::ops::Deref;
use std::ptr::NonNull;

struct Inner<T> {
    strong: std::cell::Cell<usize>,
    weak: std::cell::Cell<usize>,
    value: ManuallyDrop<T>,
}

pub struct Rc<T>(NonNull<Inner<T>>, PhantomData<std::rc::Rc<T>>);
pub struct RcWeak<T>(Option<NonNull<Inner<T>>>, PhantomData<std::rc::Rc<T>>);

/// read, maybe be preempted, write
fn add(c: &std::cell::Cell<usize>, d: isize, what: &'static str) -> usize {
    point(what);
    let n = c.get();
    point(what);
    let n = (n as isize).wrapping_add(d) as usize;
    c.set(n);
    n
}

impl<T> Rc<T> {
    fn inner(&self) -> &Inner<T> {
        unsafe { self.0.as_ref() }
    }
    pub fn new(t: T) -> Self {
        let b = Box::new(Inner {
            strong: std::cell::Cell::new(1),
            weak: std::cell::Cell::new(1),
            value: ManuallyDrop::new(t),
        });
        Rc(NonNull::from(Box::leak(b)), PhantomData)
    }
    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
        point("rc get_mut");
        if this.inner().strong.get() == 1 && this.inner().weak.get() == 1 {
            Some(unsafe { &mut this.0.as_mut().value })
        } else {
            None
        }
    }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool {
        a.0 == b.0
    }
    pub fn as_ptr(this: &Self) -> *const T {
        &**this
    }
    pub fn strong_count(this: &Self) -> usize {
        point("rc strong_count");
        this.inner().strong.get()
    }
    pub fn weak_count(this: &Self) -> usize {
        point("rc weak_count");
        this.inner().weak.get() - 1
    }
    pub fn downgrade(this: &Self) -> RcWeak<T> {
        add(&this.inner().weak, 1, "rc downgrade");
        RcWeak(Some(this.0), PhantomData)
    }
    pub fn try_unwrap(this: Self) -> Result<T, Self> {
        point("rc try_unwrap");
        if this.inner().strong.get() != 1 {
            return Err(this);
        }
        let this = ManuallyDrop::new(this);
        unsafe {
            let t = ManuallyDrop::take(&mut (*this.0.as_ptr()).value);
            this.inner().strong.set(0);
            free(this.0);
            Ok(t)
        }
    }
    pub fn into_inner(this: Self) -> Option<T> {
        Rc::try_unwrap(this).ok()
    }
}

unsafe fn free<T>(p: NonNull<Inner<T>>) {
    if add(&p.as_ref().weak, -1, "rc weak drop") == 0 {
        drop(Box::from_raw(p.as_ptr()));
    }
}

impl<T: Clone> Rc<T> {
    pub fn make_mut(this: &mut Self) -> &mut T {
        point("rc make_mut");
        if this.inner().strong.get() != 1 || this.inner().weak.get() != 1 {
            let copy = (**this).clone();
            *this = Rc::new(copy);
        }
        unsafe { &mut this.0.as_mut().value }
    }
    pub fn unwrap_or_clone(this: Self) -> T {
        Rc::try_unwrap(this).unwrap_or_else(|a| (*a).clone())
    }
}
impl<T> Clone for Rc<T> {
    fn clone(&self) -> Self {
        add(&self.inner().strong, 1, "rc clone");
        Rc(self.0, PhantomData)
    }
}
impl<T> Drop for Rc<T> {
    fn drop(&mut self) {
        if add(&self.inner().strong, -1, "rc drop") == 0 {
            unsafe {
                ManuallyDrop::drop(&mut self.0.as_mut().value);
                free(self.0);
            }
        }
    }
}
impl<T> Deref for Rc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner().value
    }
}
impl<T> AsRef<T> for Rc<T> {
    fn as_ref(&self) -> &T {
        self
    }
}
impl<T> Borrow<T> for Rc<T> {
    fn borrow(&self) -> &T {
        self
    }
}
impl<T> From<T> for Rc<T> {
    fn from(t: T) -> Self {
        Rc::new(t)
    }
}
impl<T: Default> Default for Rc<T> {
    fn default() -> Self {
        Rc::new(T::default())
    }
}
impl<T: PartialEq> PartialEq for Rc<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: Eq> Eq for Rc<T> {}
impl<T: PartialOrd> PartialOrd for Rc<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        (**self).partial_cmp(&**o)
    }
}
impl<T: Ord> Ord for Rc<T> {
    fn cmp(&self, o: &Self) -> Ordering {
        (**self).cmp(&**o)
    }
}
impl<T: Hash> Hash for Rc<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (**self).hash(h)
    }
}
impl<T: fmt::Debug> fmt::Debug for Rc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

impl<T> RcWeak<T> {
    pub fn new() -> Self {
        RcWeak(None, PhantomData)
    }
    pub fn upgrade(&self) -> Option<Rc<T>> {
        let p = self.0?;
        let i = unsafe { p.as_ref() };
        point("rc upgrade");
        if i.strong.get() == 0 {
            return None;
        }
        add(&i.strong, 1, "rc upgrade");
        Some(Rc(p, PhantomData))
    }
}
impl<T> Default for RcWeak<T> {
    fn default() -> Self {
        RcWeak::new()
    }
}
impl<T> Clone for RcWeak<T> {
    fn clone(&self) -> Self {
        if let Some(p) = self.0 {
            add(unsafe { &p.as_ref().weak }, 1, "rc weak clone");
        }
        RcWeak(self.0, PhantomData)
    }
}
impl<T> Drop for RcWeak<T> {
    fn drop(&mut self) {
        if let Some(p) = self.0 {
            unsafe { free(p) }
        }
    }
}

#[derive(Default)]
#[repr(transparent)]
pub struct Cell<T: ?Sized>(std::cell::Cell<T>);
impl<T> Cell<T> {
    pub const fn new(t: T) -> Self {
        Cell(std::cell::Cell::new(t))
    }
    pub fn set(&self, t: T) {
        point("cell set");
        self.0.set(t)
    }
    pub fn replace(&self, t: T) -> T {
        point("cell replace");
        self.0.replace(t)
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
impl<T: Copy> Cell<T> {
    pub fn get(&self) -> T {
        point("cell get");
        self.0.get()
    }
}
impl<T: Default> Cell<T> {
    pub fn take(&self) -> T {
        point("cell take");
        self.0.take()
    }
}
impl<T: ?Sized> Cell<T> {
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
    pub fn as_ptr(&self) -> *mut T {
        self.0.as_ptr()
    }
}
impl<T: Copy> Clone for Cell<T> {
    fn clone(&self) -> Self {
        Cell::new(self.get())
    }
}
impl<T: Copy + fmt::Debug> fmt::Debug for Cell<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

#[derive(Default, Debug)]
pub struct RefCell<T: ?Sized>(std::cell::RefCell<T>);
impl<T> RefCell<T> {
    pub const fn new(t: T) -> Self {
        RefCell(std::cell::RefCell::new(t))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
    pub fn replace(&self, t: T) -> T {
        point("refcell replace");
        self.0.replace(t)
    }
}
impl<T: Default> RefCell<T> {
    pub fn take(&self) -> T {
        point("refcell take");
        self.0.take()
    }
}
impl<T: ?Sized> RefCell<T> {
    pub fn borrow(&self) -> std::cell::Ref<'_, T> {
        point("refcell borrow");
        self.0.borrow()
    }
    pub fn borrow_mut(&self) -> std::cell::RefMut<'_, T> {
        point("refcell borrow_mut");
        self.0.borrow_mut()
    }
    pub fn try_borrow(&self) -> Result<std::cell::Ref<'_, T>, std::cell::BorrowError> {
        point("refcell borrow");
        self.0.try_borrow()
    }
    pub fn try_borrow_mut(&self) -> Result<std::cell::RefMut<'_, T>, std::cell::BorrowMutError> {
        point("refcell borrow_mut");
        self.0.try_borrow_mut()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
    pub fn as_ptr(&self) -> *mut T {
        self.0.as_ptr()
    }
}
