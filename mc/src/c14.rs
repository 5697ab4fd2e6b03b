//! C14: destroying long stacks and large collections needs no deep recursion.
//!
//! Every script runs on a thread whose stack is far too small to recurse once
//! per element: a recursion overflows it and kills the worker process.

use crate::engine::*;
use crate::ensure;
use lazy_clone_collections as lcc;
use lcc::Stack;
use std::cell::{Cell, RefCell};
use std::fmt::Write;
use std::rc::Rc;

const SMALL: usize = 128 << 10;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

type Held = Rc<RefCell<Option<Stack<E>>>>;

/// An element that may hold a stack and let go of it when it is dropped
/// (mode 1) or cloned (mode 2).
struct E {
    v: u32,
    mode: u8,
    held: Option<Held>,
}
impl E {
    fn new(v: u32) -> E {
        LIVE.with(|l| l.set(l.get() + 1));
        E { v, mode: 0, held: None }
    }
    fn release(&self) {
        if let Some(c) = &self.held {
            let s = c.try_borrow_mut().ok().and_then(|mut c| c.take());
            drop(s);
        }
    }
}
impl Drop for E {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
        if self.mode == 1 {
            self.release();
        }
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        if self.mode == 2 {
            self.release();
        }
        LIVE.with(|l| l.set(l.get() + 1));
        E { v: self.v, mode: self.mode, held: self.held.clone() }
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.v == o.v
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> std::cmp::Ordering {
        self.v.cmp(&o.v)
    }
}
impl std::fmt::Debug for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}

/// How the second handle shares with the first, which has n elements.
const SHARE: [&str; 9] = [
    "alone", "clone", "pop1", "pophalf", "popall1", "push", "poppush", "itermut", "longtop",
];

/// bottom first, like the stacks
fn setup(share: &str, n: usize) -> Vec<Option<(Stack<E>, Vec<u32>)>> {
    let l: Vec<u32> = (0..n as u32).collect();
    let a: Stack<E> = l.iter().map(|v| E::new(*v)).collect();
    if share == "alone" {
        return vec![Some((a, l)), None, None];
    }
    let mut b = a.clone();
    let mut m = l.clone();
    let mut pops = 0;
    match share {
        "pop1" => pops = 1,
        "pophalf" | "poppush" => pops = n / 2,
        "popall1" => pops = n - 1,
        "itermut" => {
            b.iter_mut().take(n / 2).for_each(|x| x.v += 1);
            m.iter_mut().rev().take(n / 2).for_each(|x| *x += 1);
        }
        _ => (),
    }
    for _ in 0..pops {
        b.pop();
        m.pop();
    }
    let pushes = match share {
        "push" => 1,
        "poppush" | "longtop" => n / 2,
        _ => 0,
    };
    for i in 0..pushes {
        b.push(E::new(i as u32));
        m.push(i as u32);
    }
    vec![Some((a, l)), Some((b, m)), None]
}

/// Operations on handle h (argument: a position selector where one is needed).
const OPS: &[(&str, &[u8])] = &[
    ("drop", &[0]),
    ("clear", &[0]),
    ("popall", &[0]),
    ("pophalf", &[0]),
    ("split", &[0, 1, 2, 3, 4]),
    ("remove", &[0, 1, 2]),
    ("assign", &[0]),
    ("new", &[0]),
    ("clonefrom", &[0]),
    ("iter", &[0]),
    ("itermut", &[0, 1]),
    ("into", &[0, 1, 2]),
    ("contains", &[0]),
    ("compare", &[0]),
    ("extend", &[0]),
    ("collect", &[0]),
    ("fromvec", &[0, 1]),
    ("peek", &[0, 1]),
    ("debug", &[0]),
    ("topmut", &[0]),
    ("swap", &[0]),
];

fn step(hs: &mut [Option<(Stack<E>, Vec<u32>)>], name: &str, h: usize, arg: u8) -> Result<(), String> {
    let o = 1 - h;
    if hs[h].is_none() {
        return Ok(());
    }
    if matches!(name, "assign" | "clonefrom" | "compare") && hs[o].is_none() {
        return Ok(());
    }
    match name {
        "drop" => hs[h] = None,
        "assign" => {
            let c = hs[o].as_ref().map(|(s, l)| (s.clone(), l.clone())).unwrap();
            let (s, l) = hs[h].as_mut().unwrap();
            *s = c.0;
            *l = c.1;
        }
        "clonefrom" => {
            let (s2, l2) = hs[o].take().unwrap();
            let (s, l) = hs[h].as_mut().unwrap();
            s.clone_from(&s2);
            *l = l2.clone();
            hs[o] = Some((s2, l2));
        }
        "swap" => hs.swap(0, 1),
        "split" => {
            let (s, l) = hs[h].as_mut().unwrap();
            let n = l.len();
            let at = [0, 1.min(n), n / 2, n.saturating_sub(1), n][arg as usize];
            let t = (s.split_off(at), l.split_off(at));
            hs[2] = Some(t);
        }
        "into" => {
            let (s, mut l) = hs[h].take().unwrap();
            let n = l.len();
            let take = [n + 1, n / 2, 1][arg as usize];
            for e in s.into_iter().take(take) {
                ensure!(Some(e.v) == l.pop(), "into_iter");
            }
            ensure!(arg > 0 || l.is_empty(), "into_iter ends early");
        }
        "compare" => {
            let (s, l) = hs[h].as_ref().unwrap();
            let (s2, l2) = hs[o].as_ref().unwrap();
            ensure!((s == s2) == (l == l2), "==");
            ensure!(s.cmp(s2) == l.iter().rev().cmp(l2.iter().rev()), "cmp");
            ensure!(s.partial_cmp(s2) == l.iter().rev().partial_cmp(l2.iter().rev()), "partial_cmp");
        }
        _ => {
            let (s, l) = hs[h].as_mut().unwrap();
            match name {
                "clear" => {
                    s.clear();
                    l.clear();
                }
                "new" => {
                    *s = Stack::new();
                    l.clear();
                }
                "popall" | "pophalf" => {
                    let k = if name == "popall" { l.len() + 1 } else { l.len() / 2 };
                    for _ in 0..k {
                        ensure!(s.pop().map(|e| e.v) == l.pop(), "pop");
                    }
                }
                "remove" => {
                    if !l.is_empty() {
                        let at = [0, l.len() / 2, l.len() - 1][arg as usize];
                        ensure!(s.remove(at).v == l.remove(at), "remove");
                    }
                }
                "iter" => ensure!(s.iter().map(|e| e.v).eq(l.iter().rev().copied()), "iter"),
                "itermut" => {
                    let k = if arg == 0 { l.len() } else { l.len() / 3 };
                    s.iter_mut().take(k).for_each(|e| e.v ^= 1);
                    l.iter_mut().rev().take(k).for_each(|e| *e ^= 1);
                }
                "contains" => {
                    let mut q = E::new(u32::MAX);
                    q.mode = 0;
                    ensure!(!s.contains(&q), "contains");
                }
                "extend" => {
                    s.extend((0..500).map(E::new));
                    l.extend(0..500);
                }
                "collect" => {
                    // the copies come top first
                    let t: Stack<E> = s.iter().cloned().collect();
                    let l2: Vec<u32> = l.iter().rev().copied().collect();
                    *s = t;
                    *l = l2;
                }
                "fromvec" => {
                    let v: Vec<E> = if arg == 0 { s.iter().cloned().collect() } else { std::mem::take(s).into_iter().collect() };
                    *s = Stack::from(v);
                    l.reverse();
                }
                "peek" => {
                    let n = l.len();
                    let top = l.last().copied();
                    ensure!(s.iter().last().map(|e| e.v) == l.first().copied(), "iter().last()");
                    ensure!(s.iter().count() == n, "iter().count()");
                    ensure!(s.iter().nth(n / 2).map(|e| e.v) == l.iter().rev().nth(n / 2).copied(), "iter().nth()");
                    ensure!(s.iter().min().map(|e| e.v) == l.iter().min().copied(), "iter().min()");
                    if arg == 1 {
                        ensure!(s.iter_mut().last().map(|e| e.v) == l.first().copied(), "iter_mut().last()");
                    }
                    ensure!(s.iter().next().map(|e| e.v) == top, "top");
                }
                "debug" => {
                    let mut sink = Sink(0);
                    let _ = write!(sink, "{s:?}");
                    ensure!(sink.0 >= l.len(), "debug");
                }
                "topmut" => {
                    if let Some(e) = s.top_mut() {
                        e.v ^= 2;
                        *l.last_mut().unwrap() ^= 2;
                    }
                }
                other => return Err(format!("unknown step {other}")),
            }
        }
    }
    Ok(())
}

struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

type St = (String, usize, u8);

fn observe(hs: &[Option<(Stack<E>, Vec<u32>)>]) -> Result<(), String> {
    for (i, x) in hs.iter().enumerate() {
        if let Some((s, l)) = x {
            ensure!(s.len() == l.len(), "handle {i}: len {} expected {}", s.len(), l.len());
            ensure!(s.iter().map(|e| e.v).eq(l.iter().rev().copied()), "handle {i}: contents");
        }
    }
    Ok(())
}

/// on a small thread stack
fn on_small<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| match std::thread::Builder::new().stack_size(SMALL).spawn_scoped(s, f).unwrap().join() {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    })
}

fn script(share: &str, n: usize, steps: &[St], order: u8) -> Result<(), String> {
    on_small(|| {
        LIVE.with(|l| l.set(0));
        let mut hs = setup(share, n);
        for (name, h, a) in steps {
            step(&mut hs, name, *h, *a).map_err(|e| format!("{name} on handle {h}: {e}"))?;
        }
        observe(&hs)?;
        let is: [usize; 3] = [[0, 1, 2], [2, 1, 0], [1, 0, 2]][order as usize % 3];
        for i in is {
            hs[i] = None;
            observe(&hs)?;
        }
        let l = LIVE.with(|l| l.get());
        ensure!(l == 0, "{l} elements were never dropped");
        Ok(())
    })
}

/// Handle 1 shares the tail below `j` with handle 0 and is held by the element
/// at position `p` from the top of handle 0 (mode: let go on drop or clone).
/// Then `what` happens to handle 0.
fn held(n: usize, p: usize, j: usize, mode: u8, what: &str, extra: usize) -> Result<(), String> {
    on_small(|| {
        LIVE.with(|l| l.set(0));
        let cell: Held = Rc::new(RefCell::new(None));
        let mut keep: Vec<Stack<E>> = vec![];
        {
            let mut a: Stack<E> = Stack::new();
            for v in 0..n {
                let mut e = E::new(v as u32);
                if n - 1 - v == p {
                    e.mode = mode;
                    e.held = Some(cell.clone());
                }
                a.push(e);
                if n - 1 - v == j {
                    // everything below the top j elements
                    *cell.borrow_mut() = Some(a.clone());
                }
            }
            if extra == 1 {
                // a third handle keeps part of the tail
                let mut c = a.clone();
                for _ in 0..(j + p) / 2 + 1 {
                    c.pop();
                }
                if mode == 2 {
                    *cell.borrow_mut() = Some(a.clone());
                }
                keep.push(c);
            }
            match what {
                "drop" => drop(a),
                "clear" => a.clear(),
                "popall" => while a.pop().is_some() {},
                "pophalf" => {
                    for _ in 0..n / 2 {
                        a.pop();
                    }
                }
                "into" => {
                    let mut it = a.into_iter();
                    for _ in 0..p + 1 {
                        it.next();
                    }
                }
                "itermut" => a.iter_mut().for_each(|e| e.v ^= 1),
                "assign" => a = Stack::new(),
                "remove" => drop(a.remove(0)),
                "removemid" => drop(a.remove(n - 1 - p)),
                "split" => drop(a.split_off(n / 2)),
                "splitlow" => {
                    let t = a.split_off(1);
                    drop(a);
                    drop(t);
                }
                "topmut" => {
                    for _ in 0..p {
                        a.pop();
                    }
                    a.top_mut();
                }
                other => return Err(format!("unknown {other}")),
            }
        }
        drop(keep);
        // a held stack may be part of a cycle through its own element
        let s = cell.borrow_mut().take();
        drop(s);
        let s = cell.borrow_mut().take();
        drop(s);
        let l = LIVE.with(|l| l.get());
        ensure!(l == 0, "{l} elements were never dropped");
        Ok(())
    })
}

const WHAT: [&str; 12] = [
    "drop", "clear", "popall", "pophalf", "into", "itermut", "assign", "remove", "removemid", "split", "splitlow",
    "topmut",
];

// ---------------------------------------------------------------------------
// maps and sets

#[derive(Clone, Copy, PartialEq, Debug)]
enum Order {
    Asc,
    Desc,
    Mixed,
}

fn key(i: usize, n: usize, o: Order) -> i64 {
    match o {
        Order::Asc => i as i64,
        Order::Desc => (n - i) as i64,
        Order::Mixed => ((i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20) as i64,
    }
}

macro_rules! map_script {
    ($f:ident, $t:ty, $rich:expr) => {
        fn $f(n: usize, o: Order, what: &str) -> Result<(), String> {
            on_small(|| {
                let mut m: $t = <$t>::new();
                for i in 0..n {
                    m.insert(key(i, n, o), i as i64);
                }
                ensure!(m.len() == n, "len {}", m.len());
                match what {
                    "drop" => drop(m),
                    "clear" => m.clear(),
                    "iter" => ensure!(m.iter().count() == n && m.iter().rev().count() == n, "iter"),
                    "itermut" => {
                        let c = m.clone();
                        for (_, v) in m.iter_mut() {
                            *v += 1;
                        }
                        ensure!(c.len() == n, "clone");
                    }
                    "into" => {
                        let c = m.clone();
                        ensure!(m.into_iter().count() == n, "into_iter");
                        ensure!(c.into_iter().rev().count() == n, "into_iter reversed");
                    }
                    "intopart" => {
                        let mut it = m.into_iter();
                        for _ in 0..n / 3 {
                            it.next();
                            it.next_back();
                        }
                        drop(it);
                    }
                    "remove" => {
                        let c = m.clone();
                        for i in 0..n {
                            ensure!(m.remove(&key(i, n, o)).is_some(), "remove");
                        }
                        ensure!(m.is_empty() && c.len() == n, "remove all");
                    }
                    "extend" => {
                        let c: $t = m.iter().map(|(k, v)| (*k, *v)).collect();
                        m.extend(c.into_iter());
                        ensure!(m.len() == n, "extend");
                    }
                    other => return $rich(m, n, other),
                }
                Ok(())
            })
        }
    };
}

macro_rules! rich_map {
    ($t:ty) => {
        |mut m: $t, n: usize, what: &str| -> Result<(), String> {
            match what {
                "retain" => {
                    m.retain(|k, _| k % 2 == 0);
                    drop(m);
                }
                "split" => {
                    let k = *m.iter().nth(n / 2).unwrap().0;
                    let mut hi = m.split_off(&k);
                    ensure!(m.len() + hi.len() == n, "split_off");
                    m.append(&mut hi);
                    ensure!(m.len() == n, "append");
                }
                "append" => {
                    let mut c = m.clone();
                    m.append(&mut c);
                    ensure!(m.len() == n && c.is_empty(), "append");
                }
                "range" => {
                    let k = *m.iter().nth(n / 2).unwrap().0;
                    ensure!(m.range(k..).count() + m.range(..k).count() == n, "range");
                    m.range_mut(..).for_each(|e| *e.1 += 1);
                }
                "pop" => {
                    while m.pop_first().is_some() {
                        m.pop_last();
                    }
                }
                "compare" => {
                    let c = m.clone();
                    ensure!(m == c && m.cmp(&c).is_eq() && m.partial_cmp(&c).unwrap().is_eq(), "compare");
                }
                "debug" => {
                    let mut s = Sink(0);
                    let _ = write!(s, "{m:?}");
                    ensure!(s.0 > n, "debug");
                }
                "values" => {
                    let c = m.clone();
                    m.values_mut().for_each(|v| *v += 1);
                    ensure!(m.keys().count() == n && m.values().count() == n, "keys and values");
                    ensure!(m.into_keys().count() == n && c.into_values().count() == n, "into_keys");
                }
                other => return Err(format!("unknown {other}")),
            }
            Ok(())
        }
    };
}
const BASIC: [&str; 8] = ["drop", "clear", "iter", "itermut", "into", "intopart", "remove", "extend"];
const RICH: [&str; 8] = ["retain", "split", "append", "range", "pop", "compare", "debug", "values"];
type AvlM = lcc::AvlMap<i64, i64>;
type BtM1 = lcc::btree::BTreeMap<i64, i64, 1>;
type BtM5 = lcc::btree::BTreeMap<i64, i64, 5>;
type FxM = lcc::btree::fixed::BTreeMap<i64, i64>;
map_script!(map_avl, AvlM, rich_map!(AvlM));
map_script!(map_bt1, BtM1, rich_map!(BtM1));
map_script!(map_bt5, BtM5, rich_map!(BtM5));
map_script!(map_fixed, FxM, |_: FxM, _: usize, w: &str| Err(format!("unknown {w}")));

macro_rules! set_script {
    ($f:ident, $t:ty) => {
        fn $f(n: usize, o: Order, what: &str) -> Result<(), String> {
            on_small(|| {
                let mut s: $t = <$t>::new();
                for i in 0..n {
                    s.insert(key(i, n, o));
                }
                let mut r: $t = s.clone();
                for i in 0..n / 4 {
                    r.remove(&key(3 * i, n, o));
                    r.insert(-1 - i as i64);
                }
                match what {
                    "drop" => drop(s),
                    "union" => {
                        let c = s.union(&r).count();
                        ensure!(<$t>::new_union(s, r).len() == c, "union");
                    }
                    "intersection" => {
                        let c = s.intersection(&r).count();
                        ensure!(<$t>::new_intersection(s, r).len() == c, "intersection");
                    }
                    "difference" => {
                        let c = s.difference(&r).count();
                        ensure!(<$t>::new_diff(s, r).len() == c, "difference");
                    }
                    "symdiff" => {
                        let c = s.symmetric_difference(&r).count();
                        ensure!(<$t>::new_sym_diff(s, r).len() == c, "symmetric difference");
                    }
                    "subset" => {
                        let mut t = s.clone();
                        t.pop_first();
                        ensure!(t.is_subset(&s) && s.is_superset(&t) && !s.is_subset(&r), "subset");
                        s.retain(|k| k % 2 == 0);
                        t.retain(|k| k % 2 != 0);
                        ensure!(s.is_disjoint(&t), "disjoint");
                    }
                    "into" => {
                        ensure!(s.iter().count() == n && s.into_iter().count() == n, "into_iter");
                        drop(r);
                    }
                    "disjointops" => {
                        // long runs with nothing to yield
                        let mut hi: $t = <$t>::new();
                        for i in 0..n {
                            hi.insert(i64::MAX / 2 + i as i64);
                        }
                        ensure!(s.intersection(&hi).count() == 0 && hi.intersection(&s).count() == 0, "intersection");
                        ensure!(s.difference(&s.clone()).count() == 0, "difference");
                        ensure!(s.symmetric_difference(&s.clone()).count() == 0, "symmetric difference");
                    }
                    other => return Err(format!("unknown {other}")),
                }
                Ok(())
            })
        }
    };
}
const SETW: [&str; 8] =
    ["drop", "union", "intersection", "difference", "symdiff", "subset", "into", "disjointops"];
set_script!(set_avl, lcc::AvlSet<i64>);
set_script!(set_bt1, lcc::btree::btree_set::BTreeSet<i64, 1>);
set_script!(set_bt5, lcc::btree::btree_set::BTreeSet<i64, 5>);

fn coll(name: &str, n: usize, o: Order, what: &str) -> Result<(), String> {
    match name {
        "avl" => map_avl(n, o, what),
        "bt1" => map_bt1(n, o, what),
        "bt5" => map_bt5(n, o, what),
        "fixed" => map_fixed(n, o, what),
        "avlset" => set_avl(n, o, what),
        "bts1" => set_bt1(n, o, what),
        "bts5" => set_bt5(n, o, what),
        _ => Err("bad case".into()),
    }
}

fn run(case: &str) -> Result<(), String> {
    let p: Vec<&str> = case.split(' ').collect();
    let num = |s: &str| s.parse::<usize>().map_err(|_| "bad case".to_string());
    match p[0] {
        "script" if p.len() >= 4 => {
            let mut st = vec![];
            for t in &p[4..] {
                let q: Vec<&str> = t.split(':').collect();
                ensure!(q.len() == 3, "bad case");
                st.push((q[0].to_string(), num(q[1])?, num(q[2])? as u8));
            }
            script(p[1], num(p[2])?, &st, num(p[3])? as u8)
        }
        "held" if p.len() == 7 => held(num(p[1])?, num(p[2])?, num(p[3])?, num(p[4])? as u8, p[5], num(p[6])?),
        "coll" if p.len() == 5 => {
            let o = match p[3] {
                "asc" => Order::Asc,
                "desc" => Order::Desc,
                _ => Order::Mixed,
            };
            coll(p[1], num(p[2])?, o, p[4])
        }
        _ => Err("bad case".into()),
    }
}

fn scripts(ctx: &Ctx, n: usize, depth: usize) {
    let mut alpha: Vec<String> = vec![];
    for (name, args) in OPS {
        for h in 0..2 {
            for a in *args {
                alpha.push(format!("{name}:{h}:{a}"));
            }
        }
    }
    let mut items = vec![];
    for share in SHARE {
        for order in 0..3 {
            items.push(format!("script {share} {n} {order}"));
        }
        let mut level = vec![String::new()];
        for _ in 0..depth {
            let mut next = vec![];
            for l in &level {
                for a in &alpha {
                    if share == "alone" && a.contains(":1:") {
                        continue;
                    }
                    next.push(format!("{l} {a}"));
                }
            }
            for (i, l) in next.iter().enumerate() {
                items.push(format!("script {share} {n} {}{l}", i % 3));
            }
            level = next;
        }
    }
    let total = items.len();
    ctx.par_for(&items, |slot, it| {
        slot.case(
            |s| s.push_str(it),
            |k| {
                *k += 1;
                run(it)
            },
        );
    });
    ctx.note(format!(
        "scripts: {total} = sharing patterns {SHARE:?} x all sequences of up to {depth} of {} operations, stacks of {n} elements, {} KiB of call stack",
        alpha.len(),
        SMALL >> 10
    ));
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    scripts(ctx, if t { 20_000 } else { 12_000 }, 2);
    scripts(ctx, if t { 1_000_000 } else { 200_000 }, 1);
    if t {
        scripts(ctx, 6_000, 3);
    }
    let mut items = vec![];
    let n = 20_000usize;
    let ps = [0, 1, 2, n / 2, n - 2, n - 1];
    for p in ps {
        for j in [0, 1, 2, 3, n / 2, n - 2, n - 1] {
            for mode in [1, 2] {
                for what in WHAT {
                    for extra in 0..2 {
                        items.push(format!("held {n} {p} {j} {mode} {what} {extra}"));
                    }
                }
            }
        }
    }
    let held_n = items.len();
    let big = if t { 400_000 } else { 60_000 };
    for o in ["asc", "desc", "mixed"] {
        for m in ["avl", "bt1", "bt5", "fixed"] {
            for w in BASIC {
                items.push(format!("coll {m} {big} {o} {w}"));
            }
            if m != "fixed" {
                for w in RICH {
                    items.push(format!("coll {m} {big} {o} {w}"));
                }
            }
        }
        for s in ["avlset", "bts1", "bts5"] {
            for w in SETW {
                items.push(format!("coll {s} {big} {o} {w}"));
            }
        }
    }
    ctx.add_states(items.len() as u64);
    ctx.par_for(&items, |slot, it| {
        slot.case(
            |s| s.push_str(it),
            |k| {
                *k += 1;
                run(it)
            },
        );
    });
    ctx.note(format!(
        "held: {held_n} = an element at every position of {ps:?} of a stack of {n} lets go of a stack sharing the tail below every cut, when dropped or cloned, x {WHAT:?}"
    ));
    ctx.note(format!(
        "collections: maps and sets of {big} elements, three insertion orders, x {BASIC:?} {RICH:?} {SETW:?}, {} KiB of call stack",
        SMALL >> 10
    ));
}

pub fn replay(case: &str) -> Result<(), String> {
    run(case)
}
