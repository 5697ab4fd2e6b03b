//! Exploration engine: parallel enumeration of cases, crash isolation,
//! violation collection, statistics.

use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::elem::Injected;

pub const SLOTS: usize = 64;
pub const SLOT_SZ: usize = 1 << 17;
pub const STACK: usize = 512 << 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Memory shared with the parent; holds the case each thread is working on.
#[derive(Clone, Copy)]
pub struct Shared {
    base: *mut u8,
}
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

impl Shared {
    pub fn open(p: &Path) -> std::io::Result<Shared> {
        use std::os::unix::io::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p)?;
        f.set_len((SLOTS * SLOT_SZ) as u64)?;
        let base = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOTS * SLOT_SZ,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if base == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Shared { base: base as *mut u8 })
    }
    fn seq(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(i * SLOT_SZ) as *const AtomicU64) }
    }
    fn len(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(i * SLOT_SZ + 8) as *const AtomicU64) }
    }
    pub fn begin(&self, i: usize, case: &str) {
        let n = case.len().min(SLOT_SZ - 16);
        unsafe {
            std::ptr::copy_nonoverlapping(case.as_ptr(), self.base.add(i * SLOT_SZ + 16), n);
        }
        self.len(i).store(n as u64, Release);
        self.seq(i).fetch_add(1, AcqRel);
    }
    pub fn end(&self, i: usize) {
        self.len(i).store(0, Release);
        self.seq(i).fetch_add(1, AcqRel);
    }
    pub fn seq_of(&self, i: usize) -> u64 {
        self.seq(i).load(Acquire)
    }
    pub fn current(&self, i: usize) -> Option<String> {
        let n = self.len(i).load(Acquire) as usize;
        if n == 0 || n > SLOT_SZ - 16 {
            return None;
        }
        let b = unsafe { std::slice::from_raw_parts(self.base.add(i * SLOT_SZ + 16), n) };
        Some(String::from_utf8_lossy(b).into_owned())
    }
}

pub struct Violation {
    pub case: String,
    pub msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    shared: Shared,
    start: Instant,
    budget: Duration,
    stop: AtomicBool,
    pub capped: AtomicBool,
    violations: Mutex<Vec<Violation>>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    sample_tick: AtomicU64,
    pub counters: Mutex<BTreeMap<String, u64>>,
    pub notes: Mutex<Vec<String>>,
    outcomes: Mutex<std::collections::HashSet<u64>>,
}

pub struct Slot<'a> {
    pub ctx: &'a Ctx,
    idx: usize,
    buf: String,
    local: BTreeMap<&'static str, u64>,
    transitions: u64,
    traces: u64,
    outcomes: std::collections::HashSet<u64>,
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64, threads: usize, shared: Shared, budget: Duration) -> Ctx {
        Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            threads,
            shared,
            start: Instant::now(),
            budget,
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            violations: Mutex::new(vec![]),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            sample_tick: AtomicU64::new(1),
            counters: Mutex::new(BTreeMap::new()),
            notes: Mutex::new(vec![]),
            outcomes: Mutex::new(Default::default()),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// pick the quick or the thorough bound
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    pub fn stopped(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        if self.start.elapsed() > self.budget {
            self.capped.store(true, Relaxed);
            return true;
        }
        false
    }

    pub fn add_states(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }

    pub fn note(&self, s: String) {
        self.notes.lock().unwrap().push(s);
    }

    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }

    fn violation(&self, case: &str, msg: String) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 5 {
            v.push(Violation { case: case.to_string(), msg });
        }
        if v.len() >= 5 {
            self.stop.store(true, Relaxed);
        }
        // give other threads a moment, but do not explore much further
        self.stop.store(true, Relaxed);
    }

    /// Run `f` on every item, in parallel; results in item order.
    pub fn par_map<T: Sync, R: Send>(
        &self,
        items: &[T],
        f: impl Fn(&mut Slot, &T) -> R + Sync,
    ) -> Vec<Option<R>> {
        let next = AtomicUsize::new(0);
        let chunk = (items.len() / (self.threads * 16)).clamp(1, 256);
        let mut res: Vec<Option<R>> = Vec::new();
        res.resize_with(items.len(), || None);
        let out = Mutex::new(&mut res);
        let nthreads = self.threads.min(items.len().max(1));
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let (next, out, f) = (&next, &out, &f);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let mut slot = Slot {
                            ctx: self,
                            idx: t,
                            buf: String::new(),
                            local: BTreeMap::new(),
                            transitions: 0,
                            traces: 0,
                            outcomes: Default::default(),
                        };
                        loop {
                            let i = next.fetch_add(chunk, Relaxed);
                            if i >= items.len() || self.stopped() {
                                break;
                            }
                            let hi = (i + chunk).min(items.len());
                            let mut rs = Vec::with_capacity(hi - i);
                            for it in &items[i..hi] {
                                if self.stopped() {
                                    break;
                                }
                                rs.push(f(&mut slot, it));
                            }
                            let mut g = out.lock().unwrap();
                            for (j, r) in rs.into_iter().enumerate() {
                                g[i + j] = Some(r);
                            }
                        }
                        slot.flush();
                    })
                    .unwrap();
            }
        });
        res
    }

    pub fn par_for<T: Sync>(&self, items: &[T], f: impl Fn(&mut Slot, &T) + Sync) {
        self.par_map(items, |s, t| f(s, t));
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    pub fn write_results(&self, p: &Path) -> std::io::Result<()> {
        let mut s = String::new();
        s.push_str(&format!("states\t{}\n", self.states.load(Relaxed)));
        s.push_str(&format!("transitions\t{}\n", self.transitions.load(Relaxed)));
        s.push_str(&format!("traces\t{}\n", self.traces.load(Relaxed)));
        s.push_str(&format!("capped\t{}\n", self.capped.load(Relaxed) as u8));
        s.push_str(&format!("outcomes\t{}\n", self.outcomes.lock().unwrap().len()));
        for (k, v) in self.counters.lock().unwrap().iter() {
            s.push_str(&format!("counter\t{}\t{}\n", esc(k), v));
        }
        for n in self.notes.lock().unwrap().iter() {
            s.push_str(&format!("note\t{}\n", esc(n)));
        }
        for n in self.samples.lock().unwrap().iter() {
            s.push_str(&format!("sample\t{}\n", esc(n)));
        }
        for v in self.violations.lock().unwrap().iter() {
            s.push_str(&format!("violation\t{}\t{}\n", esc(&v.case), esc(&v.msg)));
        }
        s.push_str("end\n");
        let mut f = fs::File::create(p)?;
        f.write_all(s.as_bytes())
    }
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c);
        }
    }
    o
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl<'a> Slot<'a> {
    /// Run one case: one complete execution against the real code.
    pub fn case<R>(
        &mut self,
        case: impl FnOnce(&mut String),
        f: impl FnOnce(&mut u64) -> Result<R, String>,
    ) -> Option<R> {
        self.buf.clear();
        case(&mut self.buf);
        self.ctx.shared.begin(self.idx, &self.buf);
        let mut steps = 0u64;
        let r = run_guarded(|| f(&mut steps));
        self.ctx.shared.end(self.idx);
        self.transitions += steps;
        self.traces += 1;
        match r {
            Ok(r) => {
                let n = self.traces;
                if n & (n - 1) == 0 {
                    self.sample();
                }
                Some(r)
            }
            Err(msg) => {
                self.ctx.violation(&self.buf, msg);
                None
            }
        }
    }

    fn sample(&mut self) {
        let t = self.ctx.sample_tick.fetch_add(1, Relaxed);
        if t & (t - 1) == 0 {
            let mut s = self.ctx.samples.lock().unwrap();
            if s.len() < 12 && self.buf.len() < 600 {
                s.push(self.buf.clone());
            }
        }
    }

    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.local.entry(name).or_insert(0) += n;
    }

    /// Record an observed outcome (hash), to show that cases really differ.
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 1_000_000 {
            self.outcomes.insert(h);
        }
    }

    fn flush(&mut self) {
        self.ctx.transitions.fetch_add(self.transitions, Relaxed);
        self.ctx.traces.fetch_add(self.traces, Relaxed);
        let mut c = self.ctx.counters.lock().unwrap();
        for (k, v) in &self.local {
            *c.entry(k.to_string()).or_insert(0) += v;
        }
        drop(c);
        self.ctx.outcomes.lock().unwrap().extend(self.outcomes.drain());
    }
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Injected>() {
            return;
        }
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_TRACE").is_some() {
            eprintln!("panic: {m} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = PANIC_MSG.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("panicked: {m} ({loc})");
            }
        });
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

/// Run `f`; an escaping panic becomes an error.
pub fn run_guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    let r = catch_unwind(AssertUnwindSafe(f));
    // a case that ends early leaves its allocator modes on
    let _ = crate::elem::quarantine_end();
    if r.is_err() {
        crate::elem::tracked_blocks();
    }
    match r {
        Ok(r) => r,
        Err(p) => {
            if p.is::<Injected>() {
                Err("an injected panic escaped unexpectedly".to_string())
            } else {
                Err(last_panic())
            }
        }
    }
}

/// Run `f` on a fresh big-stack thread.
pub fn on_big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

pub fn scratch_dir() -> PathBuf {
    let base = std::env::var("MC_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let p = base.join(format!("mc-{}-{}", std::process::id(), Instant::now().elapsed().as_nanos()));
    fs::create_dir_all(&p).unwrap();
    p
}
