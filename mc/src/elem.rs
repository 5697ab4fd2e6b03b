//! Instrumented element types.
//!
//! Every key and value carries a token registered in a per-execution registry.
//! The registry notices a second drop, a use after drop, a use of memory that
//! never held an element, and elements that are never dropped.  It also counts
//! clones and comparisons and can inject a panic into the n-th user callback.

use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;

const MAGIC: u32 = 0x1CC0_11EC;

pub struct Reg {
    state: Vec<u8>, // 1 live, 2 dead; index = token id
    pub live: i64,
    pub clones_k: u64,
    pub clones_v: u64,
    /// default values made
    pub defaults: u64,
    pub cmps: u64,
    pub events: u64,
    /// panic when `events` reaches this number (0 = never)
    pub panic_at: u64,
    pub panicked: bool,
    /// which kind of callback the injected panic came from
    pub panic_kind: &'static str,
    pub fault: Option<String>,
    /// log of keys that were compared with `cmp_target` (for shape fingerprints)
    pub cmp_log: Option<Vec<i64>>,
    pub cmp_target: i64,
    /// adversarial comparison answers
    pub oracle: Option<Oracle>,
    /// scheduling hook, called at every callback
    pub hook: Option<fn(&'static str)>,
    /// which callbacks count as injection points
    pub inject_cmp: bool,
    pub inject_clone: bool,
}

/// Dishonest comparison answers: first those of the script, which grows by
/// `Less` up to `grow` answers, then those of the mode.
#[derive(Clone)]
pub struct Oracle {
    pub script: Vec<u8>,
    pub pos: usize,
    pub grow: usize,
    pub mode: u8,
    /// number of comparisons asked so far, and how many may be
    pub asked: u64,
    pub limit: u64,
}
pub const MODES: u8 = 13;

impl Oracle {
    fn answer(&mut self, a: i64, b: i64) -> Ordering {
        use Ordering::*;
        let of = |x: u64| [Less, Equal, Greater][(x % 3) as usize];
        if self.pos == self.script.len() && self.pos < self.grow {
            self.script.push(0);
        }
        if self.pos < self.script.len() {
            let x = self.script[self.pos];
            self.pos += 1;
            return of(x as u64);
        }
        let mix = |x: u64| {
            let h = (a as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(31) ^ (b as u64).wrapping_mul(0xC2B2AE3D27D4EB4F) ^ x;
            let h = (h ^ h >> 29).wrapping_mul(0xBF58476D1CE4E5B9);
            h ^ h >> 32
        };
        match self.mode {
            0 => a.cmp(&b),
            // a consistent but different order
            1 => b.cmp(&a),
            2 => Less,
            3 => Equal,
            4 => Greater,
            5 => [Less, Greater][(self.asked % 2) as usize],
            6 => [Greater, Less, Less][(self.asked % 3) as usize],
            // a relation that is not transitive, the same each time
            7 => of(mix(1)),
            8 => of(mix(2)),
            9 => [Less, Greater][(mix(3) % 2) as usize],
            // changes its mind
            10 => of(mix(self.asked)),
            11 => [Less, Greater][(mix(self.asked) % 2) as usize],
            // neither Less nor Greater is ever confirmed by the opposite question
            _ => {
                if a == b {
                    Less
                } else {
                    a.cmp(&b)
                }
            }
        }
    }
}

impl Reg {
    fn new() -> Self {
        Reg {
            state: Vec::with_capacity(1 << 14),
            live: 0,
            clones_k: 0,
            clones_v: 0,
            defaults: 0,
            cmps: 0,
            events: 0,
            panic_at: 0,
            panicked: false,
            panic_kind: "",
            fault: None,
            cmp_log: None,
            cmp_target: 0,
            oracle: None,
            hook: None,
            inject_cmp: true,
            inject_clone: true,
        }
    }

    pub fn set_fault(&mut self, s: String) {
        if self.fault.is_none() {
            self.fault = Some(s);
        }
    }

    pub fn reset(&mut self) {
        self.state.clear();
        self.live = 0;
        self.clones_k = 0;
        self.clones_v = 0;
        self.defaults = 0;
        self.cmps = 0;
        self.events = 0;
        self.panic_at = 0;
        self.panicked = false;
        self.fault = None;
        self.cmp_log = None;
        self.oracle = None;
        self.hook = None;
        self.inject_cmp = true;
        self.inject_clone = true;
    }
}

thread_local! {
    static REG: Cell<*mut Reg> = const { Cell::new(std::ptr::null_mut()) };
}

/// The registry of the current execution.
#[inline]
pub fn reg() -> &'static mut Reg {
    REG.with(|c| {
        let mut p = c.get();
        if p.is_null() {
            p = Box::into_raw(Box::new(Reg::new()));
            c.set(p);
        }
        unsafe { &mut *p }
    })
}

pub fn reg_ptr() -> *mut Reg {
    reg() as *mut Reg
}

/// Make the current thread use somebody else's registry (the threads of one
/// controlled execution share one; only one of them runs at a time).
pub fn adopt_reg(p: *mut Reg) {
    REG.with(|c| c.set(p));
}

fn event(what: &'static str, injectable: bool) {
    let r = reg();
    if injectable {
        r.events += 1;
        if r.events == r.panic_at {
            r.panic_at = 0;
            r.panicked = true;
            r.panic_kind = what;
            std::panic::panic_any(Injected);
        }
    }
    if let Some(h) = r.hook {
        h(what);
    }
}

/// Payload of an injected panic.
pub struct Injected;

/// A user closure was called: an injection and scheduling point.
pub fn closure_event() {
    event("closure", true);
}

pub struct Tok {
    id: u32,
    magic: u32,
}

impl Tok {
    fn new() -> Tok {
        let r = reg();
        let id = r.state.len() as u32;
        r.state.push(1);
        r.live += 1;
        Tok { id, magic: MAGIC }
    }

    #[inline]
    fn ok(&self, what: &str) -> bool {
        let r = reg();
        if self.magic != MAGIC || self.id as usize >= r.state.len() {
            r.set_fault(format!(
                "{what} of memory that holds no element (uninitialised or freed)"
            ));
            return false;
        }
        if r.state[self.id as usize] != 1 {
            r.set_fault(format!("{what} of an element that was already dropped"));
            return false;
        }
        true
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        if self.ok("drop") {
            let r = reg();
            r.state[self.id as usize] = 2;
            r.live -= 1;
        }
    }
}

/// The part of a key that determines its order.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct KQ(pub i64);

fn cmp_i(a: i64, b: i64) -> Ordering {
    let r = reg();
    r.cmps += 1;
    if let Some(l) = r.cmp_log.as_mut() {
        l.push(if a == r.cmp_target { b } else { a });
    }
    if let Some(o) = r.oracle.as_mut() {
        o.asked += 1;
        if o.asked > o.limit {
            r.set_fault("an operation does not stop comparing".to_string());
            std::panic::panic_any(Injected);
        }
        return o.answer(a, b);
    }
    a.cmp(&b)
}

impl PartialOrd for KQ {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for KQ {
    fn cmp(&self, o: &Self) -> Ordering {
        let inj = reg().inject_cmp;
        event("cmp", inj);
        cmp_i(self.0, o.0)
    }
}

/// A key.  Equality and order look at `q` only; `tag` tells equal keys apart.
#[repr(C)]
pub struct Key {
    pub q: KQ,
    pub tag: u32,
    tok: Tok,
}

impl Key {
    pub fn new(q: i64, tag: u32) -> Key {
        Key { q: KQ(q), tag, tok: Tok::new() }
    }
    pub fn check(&self) {
        if reg().hook.is_some() {
            event("read", false);
        }
        self.tok.ok("read");
    }
}

/// What is read where there is no key.
pub static NO_KEY: Key = Key { q: KQ(i64::MIN), tag: 0, tok: Tok { id: 0, magic: 0 } };

impl Clone for Key {
    fn clone(&self) -> Key {
        let inj = reg().inject_clone;
        event("clone", inj);
        self.tok.ok("clone");
        reg().clones_k += 1;
        Key { q: self.q, tag: self.tag, tok: Tok::new() }
    }
}

impl Drop for Key {
    fn drop(&mut self) {
        if reg().hook.is_some() {
            event("drop", false);
        }
    }
}

impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.tok.ok("comparison");
        o.tok.ok("comparison");
        self.q.0 == o.q.0
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> Ordering {
        let inj = reg().inject_cmp;
        event("cmp", inj);
        self.tok.ok("comparison");
        o.tok.ok("comparison");
        cmp_i(self.q.0, o.q.0)
    }
}
impl std::hash::Hash for Key {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.tok.ok("hash");
        self.q.0.hash(h)
    }
}
impl Borrow<KQ> for Key {
    fn borrow(&self) -> &KQ {
        self.tok.ok("borrow");
        &self.q
    }
}
impl std::fmt::Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.tok.ok("format");
        write!(f, "{}", self.q.0)
    }
}

/// A value.
#[repr(C)]
pub struct Val {
    pub v: u32,
    tok: Tok,
}
impl Val {
    pub fn new(v: u32) -> Val {
        Val { v, tok: Tok::new() }
    }
    pub fn check(&self) {
        if reg().hook.is_some() {
            event("read", false);
        }
        self.tok.ok("read");
    }
}
impl Default for Val {
    fn default() -> Val {
        event("default", true);
        reg().defaults += 1;
        Val::new(DEFAULT_VAL)
    }
}
pub const DEFAULT_VAL: u32 = 0xDEF;
impl Clone for Val {
    fn clone(&self) -> Val {
        let inj = reg().inject_clone;
        event("clone", inj);
        self.tok.ok("clone");
        reg().clones_v += 1;
        Val { v: self.v, tok: Tok::new() }
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        if reg().hook.is_some() {
            event("drop", false);
        }
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        self.tok.ok("comparison");
        o.tok.ok("comparison");
        self.v == o.v
    }
}
impl Eq for Val {}
impl PartialOrd for Val {
    fn partial_cmp(&self, o: &Val) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Val {
    fn cmp(&self, o: &Val) -> Ordering {
        self.tok.ok("comparison");
        o.tok.ok("comparison");
        self.v.cmp(&o.v)
    }
}
impl std::hash::Hash for Val {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.tok.ok("hash");
        self.v.hash(h)
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.tok.ok("format");
        write!(f, "{}", self.v)
    }
}

/// Take the recorded fault, if any.
pub fn take_fault() -> Result<(), String> {
    match reg().fault.take() {
        None => Ok(()),
        Some(s) => Err(s),
    }
}

// ---------------------------------------------------------------------------
// Allocation accounting and poisoning.

use std::alloc::{GlobalAlloc, Layout, System};

pub struct Poison;

thread_local! {
    static ALLOCS: Cell<i64> = const { Cell::new(0) };
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static BLOCKS: std::cell::UnsafeCell<Vec<(usize, usize, bool)>> = const { std::cell::UnsafeCell::new(Vec::new()) };
}

/// Run `f`, whose memory is the harness' own.
pub fn uncounted<R>(f: impl FnOnce() -> R) -> R {
    let (n, t, q) = (ALLOCS.get(), TRACK.replace(false), QON.replace(false));
    let r = f();
    ALLOCS.set(n);
    TRACK.set(t);
    QON.set(q);
    r
}

/// Start recording which memory blocks this thread allocates and frees.
pub fn track_blocks() {
    BLOCKS.with(|b| unsafe { (*b.get()).clear() });
    TRACK.with(|t| t.set(true));
}
/// Stop recording; the blocks still allocated, by start address.
pub fn tracked_blocks() -> std::collections::BTreeMap<usize, usize> {
    if !TRACK.with(|t| t.replace(false)) {
        return Default::default();
    }
    let mut m = std::collections::BTreeMap::new();
    BLOCKS.with(|b| {
        for (p, n, alloc) in unsafe { &*b.get() } {
            if *alloc {
                m.insert(*p, *n);
            } else {
                m.remove(p);
            }
        }
    });
    m
}
/// Fold what was recorded so far into `m` and go on recording.
pub fn tracked_so_far(m: &mut std::collections::BTreeMap<usize, usize>) {
    let on = TRACK.with(|t| t.replace(false));
    let v = BLOCKS.with(|b| unsafe { std::mem::take(&mut *b.get()) });
    for (p, n, alloc) in v {
        if alloc {
            m.insert(p, n);
        } else {
            m.remove(&p);
        }
    }
    TRACK.with(|t| t.set(on));
}
#[inline]
fn track(p: *mut u8, n: usize, alloc: bool) {
    let _ = TRACK.try_with(|t| {
        if t.get() {
            t.set(false);
            let ok = BLOCKS.try_with(|b| unsafe { (*b.get()).push((p as usize, n, alloc)) });
            t.set(ok.is_ok());
        }
    });
}

/// Blocks allocated minus blocks freed by this thread so far.
pub fn alloc_balance() -> i64 {
    ALLOCS.with(|c| c.get())
}

thread_local! {
    static QON: Cell<bool> = const { Cell::new(false) };
    static QUAR: std::cell::UnsafeCell<Vec<(usize, Layout)>> = const { std::cell::UnsafeCell::new(Vec::new()) };
}

/// From now on keep the blocks this thread frees, filled with a pattern, so
/// that later accesses to them can be noticed.
pub fn quarantine() {
    let _ = quarantine_end();
    QON.with(|q| q.set(true));
}
/// Release the kept blocks; an error if one was written to or freed twice.
pub fn quarantine_end() -> Result<(), String> {
    QON.with(|q| q.set(false));
    let mut v = QUAR.with(|b| unsafe { std::mem::take(&mut *b.get()) });
    let balance = alloc_balance();
    let mut bad = 0;
    let n = v.len();
    v.sort_unstable_by_key(|x| x.0);
    for i in 0..v.len() {
        if i > 0 && v[i].0 == v[i - 1].0 {
            bad += 1; // the same block, freed twice
            continue;
        }
        let (p, l) = v[i];
        unsafe {
            let b = std::slice::from_raw_parts(p as *const u8, l.size());
            if b.iter().any(|x| *x != 0xA5) {
                bad += 1;
            }
            System.dealloc(p as *mut u8, l);
        }
    }
    drop(v);
    ALLOCS.with(|c| c.set(balance));
    if bad > 0 {
        return Err(format!("{bad} of {n} freed memory blocks were written to or freed again after they were freed"));
    }
    Ok(())
}

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
            track(p, l.size(), true);
            if l.size() <= 4096 {
                std::ptr::write_bytes(p, 0x5A, l.size());
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            track(p, l.size(), true);
            let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = ALLOCS.try_with(|c| c.set(c.get() - 1));
        track(p, l.size(), false);
        if l.size() <= 4096 {
            std::ptr::write_bytes(p, 0xA5, l.size());
            if QON.try_with(|q| q.replace(false)).unwrap_or(false) {
                // the list's own memory does not count
                let n = ALLOCS.with(|c| c.get());
                let kept = QUAR.try_with(|b| (*b.get()).push((p as usize, l))).is_ok();
                ALLOCS.with(|c| c.set(n));
                if kept {
                    QON.with(|q| q.set(true));
                    return;
                }
            }
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if QON.try_with(|q| q.get()).unwrap_or(false) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                self.dealloc(p, l);
            }
            return q;
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            track(p, l.size(), false);
            track(q, n, true);
        }
        q
    }
}
