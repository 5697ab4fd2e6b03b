//! C15: clones on different threads, under every schedule up to a preemption bound.
//!
//! The threads of an execution are real ones, but only the one holding the token
//! runs.  The token changes hands at scheduling points only: before every access
//! to a reference count (the library is compiled against `lcc_std` for this
//! check) and in every user callback.

use crate::c09::Panicky;
use crate::elem::*;
use crate::engine::*;
use crate::fam::*;
use crate::machine::*;
use crate::setm::*;
use crate::shapes::*;
use crate::subj::*;
use crate::{ensure, for_map, for_set};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Arc;
use std::thread::Thread;

const MAIN: usize = usize::MAX;
pub const THREADS: usize = 3;

/// A scheduling point that was passed.
#[derive(Clone, Copy)]
struct Pt {
    /// 2: reference counts and locks; 1: clone and drop of elements; 0: other callbacks
    class: u8,
    /// the running thread could not go on
    forced: bool,
    /// the thread that runs next if nothing is scheduled here
    next: u8,
    /// threads that may run here
    enabled: u8,
}

type Job<'a> = Box<dyn FnMut() + 'a>;

struct Inner {
    n: usize,
    done: [bool; THREADS],
    step: u32,
    sched: Vec<(u32, u8)>,
    pos: usize,
    log: Vec<Pt>,
    jobs: [Option<*mut (dyn FnMut() + 'static)>; THREADS],
    blocks: u32,
    quit: bool,
    reg: *mut Reg,
    balance: [i64; THREADS],
}

struct Sched {
    turn: AtomicUsize,
    inner: UnsafeCell<Inner>,
    threads: UnsafeCell<Vec<Thread>>,
    main: Thread,
}
unsafe impl Send for Sched {}
unsafe impl Sync for Sched {}

thread_local! {
    static ME: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static MUTE: Cell<bool> = const { Cell::new(false) };
    static POOL: RefCell<Option<Pool>> = const { RefCell::new(None) };
}

impl Sched {
    #[allow(clippy::mut_from_ref)]
    fn inner(&self) -> &mut Inner {
        unsafe { &mut *self.inner.get() }
    }
    fn wait(&self, me: usize) {
        while self.turn.load(Acquire) != me {
            std::thread::park();
        }
    }
    fn hand_to(&self, t: usize) {
        self.turn.store(t, Release);
        if t == MAIN {
            self.main.unpark();
        } else {
            unsafe { (&*self.threads.get())[t].unpark() };
        }
    }
    /// Pass a scheduling point; the thread that runs next.
    fn choose(&self, class: u8, forced: bool, default: usize, enabled: u8) -> usize {
        let i = self.inner();
        let s = i.step;
        i.step += 1;
        i.log.push(Pt { class, forced, next: default as u8, enabled });
        if i.pos < i.sched.len() && i.sched[i.pos].0 == s {
            let t = i.sched[i.pos].1 as usize;
            i.pos += 1;
            if enabled & (1 << t) != 0 {
                return t;
            }
        }
        default
    }
    /// Let `t` run until somebody gives the token back to `me`.
    fn leave(&self, me: usize, t: usize) {
        // operations look at what these grow by: not by what others do
        let r = unsafe { &mut *self.inner().reg };
        let (defaults, k, v, cmps) = (r.defaults, r.clones_k, r.clones_v, r.cmps);
        self.hand_to(t);
        self.wait(me);
        let r = unsafe { &mut *self.inner().reg };
        (r.defaults, r.clones_k, r.clones_v, r.cmps) = (defaults, k, v, cmps);
    }
    fn enabled(&self) -> u8 {
        let i = self.inner();
        (0..i.n).filter(|t| !i.done[*t]).map(|t| 1 << t).sum()
    }
    fn finish(&self, me: usize) {
        let i = self.inner();
        i.done[me] = true;
        i.blocks = 0;
        let en = self.enabled();
        if en == 0 {
            self.hand_to(MAIN);
        } else {
            let t = self.choose(2, true, en.trailing_zeros() as usize, en);
            self.hand_to(t);
        }
    }
}

fn class_of(what: &str) -> u8 {
    match what {
        "clone" | "drop" => 1,
        "cmp" | "read" | "closure" | "default" => 0,
        _ => 2,
    }
}

pub fn point(what: &'static str) {
    let (s, me) = ME.with(|m| m.get());
    if s.is_null() || MUTE.with(|m| m.get()) {
        return;
    }
    let s = unsafe { &*s };
    s.inner().blocks = 0;
    let t = s.choose(class_of(what), false, me, s.enabled());
    if t != me {
        s.leave(me, t);
    }
}

/// The running thread waits for something only another thread can provide.
pub fn block(what: &'static str) {
    let (s, me) = ME.with(|m| m.get());
    if s.is_null() {
        reg().set_fault(format!("deadlock: a thread waits for itself ({what})"));
        panic!("deadlock ({what})");
    }
    let s = unsafe { &*s };
    let en = s.enabled() & !(1 << me);
    let i = s.inner();
    i.blocks += 1;
    if en == 0 || i.blocks > 4 * i.n as u32 {
        reg().set_fault(format!("deadlock: no thread can go on ({what})"));
        panic!("deadlock ({what})");
    }
    // round robin, so that everybody gets to try
    let n = i.n;
    let default = (1..=n).map(|d| (me + d) % n).find(|t| en & (1 << t) != 0).unwrap();
    let t = s.choose(2, true, default, en);
    s.leave(me, t);
}

struct Pool {
    s: Arc<Sched>,
    joins: Vec<std::thread::JoinHandle<()>>,
}

fn pin() {
    use std::sync::atomic::AtomicUsize;
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    // the threads of one execution never run at the same time: keep them together
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[NEXT.fetch_add(1, Relaxed) % cpus.len()];
        libc::CPU_ZERO(&mut set);
        libc::CPU_SET(c, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}

impl Pool {
    fn new() -> Pool {
        pin();
        let s = Arc::new(Sched {
            turn: AtomicUsize::new(MAIN),
            inner: UnsafeCell::new(Inner {
                n: 0,
                done: [true; THREADS],
                step: 0,
                sched: Vec::with_capacity(16),
                pos: 0,
                log: Vec::with_capacity(1 << 14),
                jobs: [None; THREADS],
                blocks: 0,
                quit: false,
                reg: std::ptr::null_mut(),
                balance: [0; THREADS],
            }),
            threads: UnsafeCell::new(vec![]),
            main: std::thread::current(),
        });
        let joins: Vec<_> = (0..THREADS)
            .map(|me| {
                let s = s.clone();
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || loop {
                        s.wait(me);
                        let i = s.inner();
                        if i.quit {
                            break;
                        }
                        adopt_reg(i.reg);
                        ME.with(|m| m.set((&*s, me)));
                        let b = alloc_balance();
                        if let Some(j) = i.jobs[me] {
                            unsafe { (*j)() }
                        }
                        s.inner().balance[me] = alloc_balance() - b;
                        ME.with(|m| m.set((std::ptr::null(), 0)));
                        s.finish(me);
                    })
                    .unwrap()
            })
            .collect();
        unsafe { *s.threads.get() = joins.iter().map(|j| j.thread().clone()).collect() };
        Pool { s, joins }
    }

    /// Run the jobs under a schedule; returns the log and the blocks allocated.
    fn run(&self, jobs: Vec<Job<'_>>, sched: &[(u32, u8)]) -> (Vec<Pt>, i64) {
        let n = jobs.len();
        let i = self.s.inner();
        i.n = n;
        i.step = 0;
        i.sched.clear();
        i.sched.extend_from_slice(sched);
        i.pos = 0;
        i.log.clear();
        i.blocks = 0;
        i.reg = reg_ptr();
        i.balance = [0; THREADS];
        let mut jobs = jobs;
        for (t, j) in jobs.iter_mut().enumerate() {
            i.done[t] = false;
            let p: *mut (dyn FnMut() + '_) = &mut **j;
            i.jobs[t] = Some(unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(p) });
        }
        let en = self.s.enabled();
        let t = self.s.choose(2, true, 0, en);
        self.s.hand_to(t);
        self.s.wait(MAIN);
        let i = self.s.inner();
        i.jobs = [None; THREADS];
        (i.log.clone(), i.balance[..n].iter().sum())
    }
}
impl Drop for Pool {
    fn drop(&mut self) {
        self.s.inner().quit = true;
        for (t, j) in self.joins.drain(..).enumerate() {
            self.s.hand_to(t);
            let _ = j.join();
        }
    }
}

fn with_pool<R>(f: impl FnOnce(&Pool) -> R) -> R {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        f(p.get_or_insert_with(Pool::new))
    })
}

pub trait Threaded: Panicky {
    /// Move some handles into a family of their own.
    fn lend(&mut self, hs: &[usize], j: u32) -> Self;
}
impl<M: MapSub> Threaded for Fam<M> {
    fn lend(&mut self, hs: &[usize], j: u32) -> Self {
        let v = (0..self.hs.len()).map(|h| if hs.contains(&h) { self.hs[h].take() } else { None }).collect();
        Fam { hs: v, tag: self.tag + 1000 * (j + 1) }
    }
}
impl<S: SetSub> Threaded for SFam<S> {
    fn lend(&mut self, hs: &[usize], j: u32) -> Self {
        let v = (0..self.hs.len()).map(|h| if hs.contains(&h) { self.hs[h].take() } else { None }).collect();
        SFam { hs: v, tag: self.tag + 1000 * (j + 1) }
    }
}

/// Who owns which handle: 0.. a thread, 8 the main thread until the end,
/// 9 the main thread, which drops it before the threads start.
type Owners = Vec<u8>;

/// One execution.
fn run<F: Threaded>(
    hist: &[F::O],
    owners: &[u8],
    progs: &[Vec<F::O>],
    sched: &[(u32, u8)],
    steps: &mut u64,
) -> Result<Vec<Pt>, String> {
    reg().reset();
    let n = progs.len();
    with_pool(|pool| {
        let before = alloc_balance();
        let mut f = F::fresh();
        for o in hist {
            f.apply_op(o)?;
        }
        let mut fams: Vec<Option<F>> = Vec::with_capacity(n);
        for t in 0..n {
            let hs: Vec<usize> = (0..owners.len()).filter(|h| owners[*h] == t as u8).collect();
            fams.push(Some(f.lend(&hs, t as u32)));
        }
        for (h, o) in owners.iter().enumerate() {
            if *o == 9 {
                f.drop_handle(h);
            }
        }
        let mut res: Vec<Result<(), String>> = vec![Ok(()); n];
        let (log, bal) = {
            let jobs: Vec<Job<'_>> = fams
                .iter_mut()
                .zip(&mut res)
                .zip(progs)
                .map(|((fam, res), prog)| {
                    let j: Job<'_> = Box::new(move || {
                        let mut f = fam.take().unwrap();
                        let r = run_guarded(|| {
                            for o in prog {
                                f.apply_op(o)?;
                            }
                            MUTE.with(|m| m.set(true));
                            let r = f.observe_all(Obs::Full);
                            MUTE.with(|m| m.set(false));
                            r
                        });
                        MUTE.with(|m| m.set(false));
                        let r2 = run_guarded(|| {
                            drop(f);
                            take_fault()
                        });
                        *res = r.and(r2);
                    });
                    j
                })
                .collect();
            reg().hook = Some(point);
            let x = pool.run(jobs, sched);
            reg().hook = None;
            x
        };
        *steps += log.len() as u64;
        // an error message is a block, too, but then nobody looks at the balance
        for (t, r) in res.into_iter().enumerate() {
            r.map_err(|e| format!("thread {t}: {e}"))?;
        }
        take_fault()?;
        f.observe_all(Obs::Full).map_err(|e| format!("main thread: {e}"))?;
        drop(f);
        take_fault()?;
        ensure!(reg().live == 0, "{} elements were never dropped", reg().live);
        drop(fams);
        let d = alloc_balance() - before + bal - log_blocks(&log);
        ensure!(d == 0, "{d} memory blocks remain allocated");
        Ok(log)
    })
}

fn log_blocks(log: &Vec<Pt>) -> i64 {
    (log.capacity() > 0) as i64
}

fn text<F: Threaded>(hist: &[F::O], owners: &[u8], progs: &[Vec<F::O>], sched: &[(u32, u8)], s: &mut String) {
    s.push_str("par ");
    s.push_str(F::WORD);
    s.push(' ');
    s.push_str(F::NAME);
    s.push_str(" | ");
    F::write(hist, s);
    s.push_str(" | ");
    for o in owners {
        s.push((b'0' + o) as char);
    }
    s.push_str(" | ");
    for (i, p) in progs.iter().enumerate() {
        if i > 0 {
            s.push_str(" & ");
        }
        F::write(p, s);
    }
    s.push_str(" | ");
    for (i, (a, b)) in sched.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!("{a}>{b}"));
    }
}

/// Every schedule with at most `bound_rc` preemptions at reference counts, element
/// clones and drops, or at most `bound_any` preemptions anywhere.
fn schedules<F: Threaded>(
    slot: &mut Slot,
    hist: &[F::O],
    owners: &[u8],
    progs: &[Vec<F::O>],
    bound_rc: u32,
    bound_any: u32,
) {
    // (schedule, preemptions, all of them at reference counts?)
    let mut stack: Vec<(Vec<(u32, u8)>, u32, bool)> = vec![(vec![], 0, true)];
    let mut n = 0;
    while let Some((sched, used, rc)) = stack.pop() {
        if slot.ctx.stopped() {
            return;
        }
        let r = slot.case(
            |s| text::<F>(hist, owners, progs, &sched, s),
            |steps| run::<F>(hist, owners, progs, &sched, steps),
        );
        let Some(log) = r else { return };
        n += 1;
        let from = sched.last().map_or(0, |s| s.0 + 1);
        for (s, p) in log.iter().enumerate().skip(from as usize) {
            let u = used + !p.forced as u32;
            let r = rc && (p.forced || p.class > 0);
            if u > bound_any && !(r && u <= bound_rc) {
                continue;
            }
            for t in 0..progs.len() as u8 {
                if p.enabled & (1 << t) != 0 && t != p.next {
                    let mut x = sched.clone();
                    x.push((s as u32, t));
                    stack.push((x, u, r));
                }
            }
        }
    }
    slot.count("schedules", n);
    slot.count("programs", 1);
    slot.ctx.add_states(1);
}

fn kind<F: Threaded>(o: &F::O) -> String {
    let mut s = String::new();
    F::write(&[*o], &mut s);
    s.split(' ').next().unwrap().to_string()
}

/// What the second thread does while the first does something that depends on
/// its position: besides dropping everything, which it does at the end anyway.
const PARTNERS: [&str; 8] = ["look", "ins", "rem", "itermut", "intopart", "clonefrom", "popf", "popl"];
const POSITIONAL: [&str; 8] = ["ins", "rem", "rementry", "splitoff", "getmut", "entry", "take", "replace"];

/// At most `per` operations of every kind, spread evenly.
fn thin<F: Threaded>(ops: &[F::O], per: usize) -> Vec<F::O> {
    let mut by: Vec<(String, Vec<F::O>)> = vec![];
    for o in ops {
        let k = kind::<F>(o);
        match by.iter_mut().find(|b| b.0 == k) {
            Some(b) => b.1.push(*o),
            None => by.push((k, vec![*o])),
        }
    }
    let mut v = vec![];
    for (_, b) in by {
        if b.len() <= per {
            v.extend(b);
        } else {
            for i in 0..per {
                v.push(b[(2 * i + 1) * b.len() / (2 * per)]);
            }
        }
    }
    v
}

pub struct Item<O> {
    hist: Vec<O>,
    owners: Owners,
    progs: Vec<Vec<O>>,
}

/// Who gets the handles of a sharing pattern.
fn dealings(handles: usize, threads: usize) -> Vec<Owners> {
    match (handles, threads) {
        (2, 2) => vec![vec![0, 1]],
        (3, 2) => vec![vec![0, 1, 0], vec![0, 1, 8], vec![9, 0, 1], vec![1, 0, 0]],
        (3, 3) => vec![vec![0, 1, 2]],
        _ => vec![],
    }
}

struct Plan {
    threads: usize,
    bound_rc: u32,
    bound_any: u32,
    /// operations per kind for each thread; 0 for a few that drop, copy or move everything
    per: [usize; THREADS],
    /// where an operation acts matters: take all inserts and removals
    all_updates: bool,
    /// the first thread also clones before its operation
    two: bool,
}

fn contents_of<F: Threaded>(hist: &[F::O], owners: &[u8], t: u8) -> Vec<(usize, Vec<i64>)> {
    reg().reset();
    let mut f = F::fresh();
    for o in hist {
        if f.apply_op(o).is_err() {
            return vec![];
        }
    }
    let hs: Vec<usize> = (0..owners.len()).filter(|h| owners[*h] == t).collect();
    f.lend(&hs, 0).contents()
}

fn items<F: Threaded>(states: &[Vec<F::O>], plan: &Plan, mk_clone: &dyn Fn(usize) -> F::O) -> Vec<Item<F::O>> {
    let mut v = vec![];
    for hist in states {
        let handles = {
            reg().reset();
            let mut f = F::fresh();
            if hist.iter().any(|o| f.apply_op(o).is_err()) {
                continue;
            }
            f.contents().len()
        };
        for owners in dealings(handles, plan.threads) {
            let mut progs: Vec<Vec<Vec<F::O>>> = vec![];
            for t in 0..plan.threads {
                let c = contents_of::<F>(hist, &owners, t as u8);
                let all = F::all_ops(&c, 64, c.len() + 1);
                let mut ops = thin::<F>(&all, plan.per[t].max(1));
                if plan.per[t] == 0 {
                    ops.retain(|o| PARTNERS.contains(&kind::<F>(o).as_str()));
                } else if plan.all_updates && t == 0 {
                    let pos = |o: &F::O| POSITIONAL.contains(&kind::<F>(o).as_str());
                    ops.retain(|o| !pos(o));
                    ops.extend(all.iter().filter(|o| pos(o)));
                }
                let mut p: Vec<Vec<F::O>> = vec![vec![]];
                p.extend(ops.iter().map(|o| vec![*o]));
                if plan.two && t == 0 {
                    let h = c[0].0;
                    for o in &ops {
                        p.push(vec![mk_clone(h), *o]);
                    }
                }
                progs.push(p);
            }
            let mut combos: Vec<Vec<Vec<F::O>>> = vec![vec![]];
            for p in &progs {
                combos = combos
                    .into_iter()
                    .flat_map(|c| {
                        p.iter().map(move |x| {
                            let mut c = c.clone();
                            c.push(x.clone());
                            c
                        })
                    })
                    .collect();
            }
            for progs in combos {
                v.push(Item { hist: hist.clone(), owners: owners.clone(), progs });
            }
        }
    }
    v
}

fn explore_fam<F: Threaded>(ctx: &Ctx, states: &[Vec<F::O>], plan: &Plan, mk_clone: &(dyn Fn(usize) -> F::O + Sync)) {
    let t0 = ctx.elapsed();
    let it = on_big_stack(|| Wrap(items::<F>(states, plan, mk_clone)));
    ctx.par_for(&it.0, |slot, i| schedules::<F>(slot, &i.hist, &i.owners, &i.progs, plan.bound_rc, plan.bound_any));
    ctx.note(format!(
        "{} {}: {} programs of {} threads over {} start states, {:.1}s",
        F::WORD,
        F::NAME,
        it.0.len(),
        plan.threads,
        states.len(),
        ctx.elapsed() - t0
    ));
}
struct Wrap<T>(T);
unsafe impl<T> Send for Wrap<T> {}

/// Start states: a tree, and the ways the handles share it.
fn share_all(trees: &[State], pats: &[&str], edits: usize) -> Vec<Vec<Op>> {
    let mut v = vec![];
    for st in trees {
        let n = st.keys.len();
        if n == 0 {
            continue;
        }
        for pat in pats {
            let es = if *pat == "clone" { 1 } else { edits.min(n) };
            for e in 0..es {
                let mut h = st.hist.clone();
                h.extend(share(pat, &st.keys, (2 * e + 1) * n / (2 * es)));
                v.push(h);
            }
        }
    }
    v
}
fn seeds(sizes: &[(&str, usize)]) -> Vec<State> {
    sizes.iter().map(|(p, n)| seed(p, *n)).collect()
}

const SHARE: [&str; 3] = ["clone", "edited-clone", "two-clones"];

fn maps<M: MapSub>(ctx: &Ctx) {
    let clone = |h: usize| op(OpK::Clone, h, 0, 0);
    let th = ctx.thorough();
    let (s1, s2, s3): (&[(&str, usize)], &[(&str, usize)], &[(&str, usize)]) = match M::NAME {
        "avl" => (&[("asc", 1), ("asc", 4), ("ragged", 6)], &[("asc", 3)], &[("asc", 2)]),
        "bt1" => (&[("asc", 1), ("asc", 5), ("mid", 8)], &[("asc", 4)], &[("asc", 2)]),
        "fixed" => (&[("asc", 1), ("asc", 12), ("thin", 24)], &[("asc", 2), ("asc", 12)], &[("asc", 2)]),
        "bt5" => (&[("asc", 1), ("asc", 12)], &[("asc", 2)], &[("asc", 1)]),
        _ => (&[("asc", 2), ("asc", 7)], &[("asc", 2)], &[("asc", 1)]),
    };
    let trees: Vec<State> = match M::NAME {
        "avl" => shapes::<M>(ctx, ctx.pick(5, 7), 100_000),
        "bt1" => shapes::<M>(ctx, ctx.pick(6, 9), 100_000),
        "bt2" => shapes::<M>(ctx, ctx.pick(8, 12), 100_000),
        _ => {
            let mut v = vec![];
            for p in &PATTERNS[..ctx.pick(if M::NAME == "fixed" { 7 } else { 2 }, 7)] {
                for n in [12, 13, 18, 24, 30].iter().take(ctx.pick(2, 5)) {
                    v.push(seed(p, *n));
                }
            }
            v
        }
    };
    // an operation at every position, while others drop, copy or take apart
    let p = Plan { threads: 2, bound_rc: 1, bound_any: if th { 1 } else { 0 }, per: [if th { 3 } else { 1 }, 0, 0], all_updates: true, two: th };
    explore_fam::<Fam<M>>(ctx, &share_all(&trees, &SHARE, 2), &p, &clone);
    // every kind of operation against every other
    let p = Plan { threads: 2, bound_rc: 1, bound_any: 1, per: if th { [3, 3, 0] } else { [1, 1, 0] }, all_updates: false, two: th };
    explore_fam::<Fam<M>>(ctx, &share_all(&seeds(s1), &SHARE, if th { 2 } else { 1 }), &p, &clone);
    let p = Plan { threads: 2, bound_rc: if th { 3 } else { 2 }, bound_any: if th { 2 } else { 1 }, per: [1, 1, 0], all_updates: false, two: th };
    explore_fam::<Fam<M>>(ctx, &share_all(&seeds(s2), &["clone", "edited-clone"], 1), &p, &clone);
    let p = Plan { threads: 3, bound_rc: if th { 2 } else { 1 }, bound_any: if th { 1 } else { 0 }, per: if th { [1, 1, 1] } else { [1, 1, 0] }, all_updates: false, two: false };
    explore_fam::<Fam<M>>(ctx, &share_all(&seeds(s3), &["two-clones"], 1), &p, &clone);
}

fn sets<S: SetSub>(ctx: &Ctx) {
    let clone = |h: usize| sop(SK::Clone, h, 0, 0);
    let th = ctx.thorough();
    let conv = |v: Vec<Vec<Op>>| -> Vec<Vec<SOp>> {
        v.iter()
            .map(|h| {
                h.iter()
                    .map(|o| {
                        let k = match o.k {
                            OpK::Ins => SK::Ins,
                            OpK::Rem => SK::Rem,
                            OpK::Clone => SK::Clone,
                            _ => SK::Replace,
                        };
                        sop(k, o.h as usize, o.a, 0)
                    })
                    .collect()
            })
            .collect()
    };
    let sizes: Vec<(&str, usize)> = match (S::NAME, th) {
        ("bts5", _) => vec![("asc", 11), ("asc", 12), ("thin", 18)],
        ("bts2", _) => vec![("asc", 5), ("asc", 6), ("thin", 10)],
        (_, true) => vec![("asc", 3), ("asc", 4), ("desc", 5), ("asc", 6), ("ragged", 7), ("mid", 8)],
        (_, _) => vec![("asc", 3), ("desc", 5), ("asc", 6)],
    };
    let p = Plan { threads: 2, bound_rc: 1, bound_any: if th { 1 } else { 0 }, per: [if th { 3 } else { 1 }, 0, 0], all_updates: true, two: th };
    explore_fam::<SFam<S>>(ctx, &conv(share_all(&seeds(&sizes), &SHARE, 2)), &p, &clone);
    let p = Plan { threads: 2, bound_rc: 1, bound_any: 1, per: if th { [3, 3, 0] } else { [1, 1, 0] }, all_updates: false, two: th };
    explore_fam::<SFam<S>>(ctx, &conv(share_all(&seeds(&sizes[..2]), &SHARE, 1)), &p, &clone);
    let p = Plan { threads: 2, bound_rc: if th { 3 } else { 2 }, bound_any: if th { 2 } else { 1 }, per: [1, 1, 0], all_updates: false, two: th };
    explore_fam::<SFam<S>>(ctx, &conv(share_all(&seeds(&[("asc", 2)]), &["clone"], 1)), &p, &clone);
    let p = Plan { threads: 3, bound_rc: if th { 2 } else { 1 }, bound_any: if th { 1 } else { 0 }, per: if th { [1, 1, 1] } else { [1, 0, 0] }, all_updates: false, two: false };
    explore_fam::<SFam<S>>(ctx, &conv(share_all(&seeds(&[("asc", 2)]), &["two-clones"], 1)), &p, &clone);
}

// ---------------------------------------------------------------------------
// Send and Sync

mod auto {
    use std::marker::PhantomData;
    pub struct W<T>(PhantomData<T>);
    pub fn of<T>(_: &T) -> W<T> {
        W(PhantomData)
    }
    pub fn ty<T>() -> W<T> {
        W(PhantomData)
    }
    pub trait IsSend {
        fn send(&self) -> bool;
    }
    impl<T: Send> IsSend for W<T> {
        fn send(&self) -> bool {
            true
        }
    }
    pub trait NotSend {
        fn send(&self) -> bool;
    }
    impl<T> NotSend for &W<T> {
        fn send(&self) -> bool {
            false
        }
    }
    pub trait IsSync {
        fn sync(&self) -> bool;
    }
    impl<T: Sync> IsSync for W<T> {
        fn sync(&self) -> bool {
            true
        }
    }
    pub trait NotSync {
        fn sync(&self) -> bool;
    }
    impl<T> NotSync for &W<T> {
        fn sync(&self) -> bool {
            false
        }
    }
}

/// (what, is Send, is Sync, must be)
#[allow(unused_imports)]
fn auto_traits() -> Vec<(String, bool, bool, bool)> {
    use auto::*;
    use lazy_clone_collections::btree::btree_set::BTreeSet;
    use lazy_clone_collections::btree::{fixed::BTreeMap as FixedMap, BTreeMap};
    use lazy_clone_collections::{AvlMap, AvlSet, Stack};
    use std::rc::Rc;
    let mut v = vec![];
    macro_rules! t {
        ($must:expr, $($t:ty),* $(,)?) => {$(
            v.push((stringify!($t).to_string(), (&ty::<$t>()).send(), (&ty::<$t>()).sync(), $must));
        )*};
    }
    type C = Cell<u8>; // Send, not Sync
    type G = std::sync::MutexGuard<'static, u8>; // Sync, not Send
    t!(true, AvlMap<Key, Val>, AvlSet<Key>, BTreeMap<Key, Val, 1>, BTreeMap<Key, Val>, BTreeSet<Key, 2>, FixedMap<Key, Val>);
    t!(true, AvlMap<String, Vec<u8>>, AvlSet<String>, BTreeMap<String, Vec<u8>>, BTreeSet<String>, FixedMap<String, Vec<u8>>);
    t!(false, AvlMap<Key, Rc<u8>>, AvlMap<Rc<u8>, Val>, AvlSet<Rc<u8>>, BTreeMap<Key, Rc<u8>, 1>, BTreeMap<Rc<u8>, Val>, BTreeSet<Rc<u8>>);
    t!(false, FixedMap<Key, Rc<u8>>, FixedMap<Rc<u8>, Val>);
    t!(false, AvlMap<Key, C>, AvlMap<C, Val>, AvlSet<C>, BTreeMap<Key, C, 1>, BTreeMap<C, Val>, BTreeSet<C>);
    t!(false, FixedMap<Key, C>, FixedMap<C, Val>);
    t!(false, AvlMap<Key, G>, AvlMap<G, Val>, AvlSet<G>, BTreeMap<Key, G, 1>, BTreeMap<G, Val>, BTreeSet<G>);
    t!(false, FixedMap<Key, G>, FixedMap<G, Val>);
    // a stack shares with plain reference counts
    t!(false, Stack<Key>);
    macro_rules! it {
        ($($what:literal: $e:expr),* $(,)?) => {$(
            { let x = $e; v.push(($what.to_string(), (&of(&x)).send(), (&of(&x)).sync(), false)); }
        )*};
    }
    // iterators over elements that must not be shared between threads
    let (mut a, mut b, mut f) = (
        AvlMap::<u8, Rc<u8>>::new(),
        BTreeMap::<u8, Rc<u8>, 1>::new(),
        FixedMap::<u8, Rc<u8>>::new(),
    );
    let (s, u) = (AvlSet::<Rc<u8>>::new(), BTreeSet::<Rc<u8>, 1>::new());
    it! {
        "AvlMap::iter over Rc": a.iter(), "AvlMap::iter_mut over Rc": a.iter_mut(), "AvlMap::into_iter over Rc": a.clone().into_iter(),
        "BTreeMap::iter over Rc": b.iter(), "BTreeMap::iter_mut over Rc": b.iter_mut(), "BTreeMap::into_iter over Rc": b.clone().into_iter(),
        "BTreeMap::range over Rc": b.range(0..9), "BTreeMap::range_mut over Rc": b.range_mut(0..9), "AvlMap::range over Rc": a.range(0..9), "AvlMap::range_mut over Rc": a.range_mut(0..9),
        "fixed iter over Rc": f.iter(), "fixed iter_mut over Rc": f.iter_mut(), "fixed into_iter over Rc": f.clone().into_iter(),
        "AvlSet::iter over Rc": s.iter(), "BTreeSet::iter over Rc": u.iter(), "AvlSet::into_iter over Rc": s.clone().into_iter(), "BTreeSet::into_iter over Rc": u.clone().into_iter(),
    }
    v
}

fn check_auto(what: &str, send: bool, sync: bool, must: bool) -> Result<(), String> {
    if must {
        ensure!(send, "{what} is not Send, though its elements are Send and Sync");
        ensure!(sync, "{what} is not Sync, though its elements are Send and Sync");
    } else {
        ensure!(!send, "{what} is Send, so elements shared by clones reach two threads though they must not");
        // a Sync handle can be cloned through a shared reference
        ensure!(!sync, "{what} is Sync, so elements shared by clones reach two threads though they must not");
    }
    Ok(())
}

fn hooks() {
    #[cfg(feature = "sched")]
    lcc_std::set_hooks(point, block);
    #[cfg(not(feature = "sched"))]
    let _ = block as fn(&'static str);
}

pub fn explore(ctx: &Ctx) {
    hooks();
    ctx.note(
        if cfg!(feature = "sched") {
            "scheduling points at every reference-count operation, element clone, drop, comparison and read"
        } else {
            "the library does not build against lcc_std: scheduling points at user callbacks only"
        }
        .to_string(),
    );
    let at = auto_traits();
    ctx.par_for(&at, |slot, (w, send, sync, must)| {
        slot.case(|s| s.push_str(&format!("auto {w}")), |_| check_auto(w, *send, *sync, *must));
    });
    ctx.note(format!("{} types checked for Send and Sync", at.len()));
    maps::<Avl>(ctx);
    maps::<Fixed>(ctx);
    maps::<Bt<1>>(ctx);
    maps::<Bt<5>>(ctx);
    sets::<AvlS>(ctx);
    sets::<BtS<1>>(ctx);
    if ctx.thorough() {
        maps::<Bt<2>>(ctx);
        maps::<Bt<3>>(ctx);
        sets::<BtS<2>>(ctx);
        sets::<BtS<5>>(ctx);
    }
}

pub fn replay(case: &str) -> Result<(), String> {
    hooks();
    if let Some(w) = case.strip_prefix("auto ") {
        for (n, send, sync, must) in auto_traits() {
            if n == w {
                return check_auto(&n, send, sync, must);
            }
        }
        return Err("no such type".into());
    }
    let p: Vec<&str> = case.strip_prefix("par ").ok_or("bad case")?.split('|').map(|s| s.trim()).collect();
    if p.len() != 5 {
        return Err("bad case".into());
    }
    let (word, name) = p[0].split_once(' ').ok_or("bad case")?;
    fn go<F: Threaded>(p: &[&str]) -> Result<(), String> {
        let hist = F::parse(p[1])?;
        let owners: Vec<u8> = p[2].bytes().map(|b| b - b'0').collect();
        let progs = p[3].split('&').map(|s| F::parse(s)).collect::<Result<Vec<_>, _>>()?;
        let mut sched = vec![];
        for s in p[4].split(',').filter(|s| !s.is_empty()) {
            let (a, b) = s.split_once('>').ok_or("bad schedule")?;
            sched.push((a.parse().map_err(|_| "bad schedule")?, b.parse().map_err(|_| "bad schedule")?));
        }
        run::<F>(&hist, &owners, &progs, &sched, &mut 0).map(|_| ())
    }
    fn gm<M: MapSub>(p: &[&str]) -> Result<(), String> {
        go::<Fam<M>>(p)
    }
    fn gs<S: SetSub>(p: &[&str]) -> Result<(), String> {
        go::<SFam<S>>(p)
    }
    if word == "map" {
        for_map!(name, gm, &p)
    } else {
        for_set!(name, gs, &p)
    }
}
