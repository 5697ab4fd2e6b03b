//! A stand-in for `std` whose reference counts, cells and locks announce every
//! access to a scheduler.  The library under test is compiled against it with
//! `std::` spelled `lcc_std::`; everything not defined here is the real thing.

pub use std::*;

use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static HOOK: AtomicUsize = AtomicUsize::new(0);
static BLOCK: AtomicUsize = AtomicUsize::new(0);

/// `point` is called before every access to shared state, `block` when a thread
/// cannot go on until another one has.
pub fn set_hooks(point: fn(&'static str), block: fn(&'static str)) {
    HOOK.store(point as usize, Relaxed);
    BLOCK.store(block as usize, Relaxed);
}

#[inline]
pub fn point(what: &'static str) {
    let h = HOOK.load(Relaxed);
    if h != 0 {
        let f: fn(&'static str) = unsafe { std::mem::transmute(h) };
        f(what);
    }
}

pub fn block(what: &'static str) {
    let h = BLOCK.load(Relaxed);
    if h != 0 {
        let f: fn(&'static str) = unsafe { std::mem::transmute(h) };
        f(what);
    } else {
        std::thread::yield_now();
    }
}

mod arc;
mod lock;
mod unsync;

pub mod sync {
    pub use crate::arc::{Arc, Weak};
    pub use crate::lock::{Mutex, MutexGuard, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub use std::sync::*;

    pub mod atomic {
        pub use crate::lock::atomics::{AtomicBool, AtomicI32, AtomicI64, AtomicIsize, AtomicU32, AtomicU64, AtomicU8, AtomicUsize};
        pub use std::sync::atomic::*;
    }
}

pub mod rc {
    pub use crate::unsync::{Rc, RcWeak as Weak};
    pub use std::rc::*;
}

pub mod cell {
    pub use crate::unsync::{Cell, RefCell};
    pub use std::cell::*;
}
