//! A family of stacks driven in lock step with reference lists (C13, C02, C08).

use crate::elem::*;
use crate::engine::*;
use crate::ensure;
use crate::fam::*;
use crate::machine::Obs;
use lazy_clone_collections::Stack;

type S = Stack<Key>;
/// bottom first: value and tag
type L = Vec<(i64, u32)>;

macro_rules! topk {
    ($($v:ident = $s:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum TK { $($v),* }
        impl TK {
            pub fn name(self) -> &'static str { match self { $(TK::$v => $s),* } }
            pub fn parse(s: &str) -> Option<TK> { match s { $($s => Some(TK::$v),)* _ => None } }
        }
    };
}
topk! {
    Push = "push", Pop = "pop", TopMut = "topmut", IterMut = "itermut", Remove = "remove",
    SplitOff = "splitoff", Extend = "extend", Clear = "clear", Clone = "clone", CloneFrom = "clonefrom",
    Assign = "assign", DropH = "drop", Rebuild = "rebuild", IntoPart = "intopart", FromVec = "fromvec",
    New = "new", BadRemove = "badremove", BadSplit = "badsplit", ExtendOther = "extendother", Swap = "swap",
    Walk = "walk",
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct TOp {
    pub k: TK,
    pub h: u8,
    pub a: i64,
}
pub fn top(k: TK, h: usize, a: i64) -> TOp {
    TOp { k, h: h as u8, a }
}

pub struct TFam {
    pub hs: Vec<Option<(S, L)>>,
    pub tag: u32,
}

fn el(k: &Key) -> (i64, u32) {
    k.check();
    (k.q.0, k.tag)
}

pub fn observe(s: &S, l: &L, obs: Obs) -> Result<(), String> {
    ensure!(s.len() == l.len(), "len() is {}, expected {}", s.len(), l.len());
    ensure!(s.is_empty() == l.is_empty(), "is_empty() is {}", s.is_empty());
    let t = s.top().map(el);
    ensure!(t == l.last().copied(), "top() is {t:?}, expected {:?}", l.last());
    let mut i = l.len();
    for k in s.iter() {
        ensure!(i > 0, "iter() yields more than {} items", l.len());
        i -= 1;
        ensure!(el(k) == l[i], "iter() yields {:?} at index {i}, expected {:?}", el(k), l[i]);
    }
    ensure!(i == 0, "iter() misses the bottom {i} items");
    if obs == Obs::Full {
        for (q, _) in l {
            ensure!(s.contains(&Key::new(*q, 0)), "contains({q}) is false");
        }
        ensure!(!s.contains(&Key::new(-1, 0)), "contains() finds an absent element");
    }
    take_fault()
}

impl TFam {
    fn s(&self, h: usize) -> &S {
        &self.hs[h].as_ref().unwrap().0
    }
    fn l(&self, h: usize) -> &L {
        &self.hs[h].as_ref().unwrap().1
    }
    pub fn live(&self) -> Vec<usize> {
        (0..self.hs.len()).filter(|i| self.hs[*i].is_some()).collect()
    }
    fn fresh_el(&mut self) -> (i64, u32) {
        self.tag += 1;
        (self.tag as i64, self.tag)
    }

    fn apply_(&mut self, o: &TOp) -> Result<(), String> {
        let h = o.h as usize;
        match o.k {
            TK::New => {
                self.hs.push(Some((if o.a == 0 { S::new() } else { S::default() }, vec![])));
                return Ok(());
            }
            TK::Clone => {
                let c = (self.s(h).clone(), self.l(h).clone());
                self.hs.push(Some(c));
                return Ok(());
            }
            TK::CloneFrom => {
                let (s2, l2) = self.hs[o.a as usize].take().unwrap();
                let (s, l) = self.hs[h].as_mut().unwrap();
                s.clone_from(&s2);
                *l = l2.clone();
                self.hs[o.a as usize] = Some((s2, l2));
                return Ok(());
            }
            TK::Assign => {
                let c = (self.s(o.a as usize).clone(), self.l(o.a as usize).clone());
                self.hs[h] = Some(c);
                return Ok(());
            }
            TK::Swap => {
                self.hs.swap(h, o.a as usize);
                return Ok(());
            }
            TK::DropH => {
                self.hs[h] = None;
                return Ok(());
            }
            TK::Push => {
                let e = self.fresh_el();
                let (s, l) = self.hs[h].as_mut().unwrap();
                s.push(Key::new(e.0, e.1));
                l.push(e);
                return Ok(());
            }
            TK::Extend => {
                let (e, f) = (self.fresh_el(), self.fresh_el());
                let (s, l) = self.hs[h].as_mut().unwrap();
                s.extend(vec![Key::new(e.0, e.1), Key::new(f.0, f.1)]);
                l.push(e);
                l.push(f);
                return Ok(());
            }
            TK::ExtendOther => {
                // push the elements of another handle, top first
                let (s2, l2) = self.hs[o.a as usize].take().unwrap();
                let (s, l) = self.hs[h].as_mut().unwrap();
                s.extend(s2.iter().cloned());
                l.extend(l2.iter().rev());
                self.hs[o.a as usize] = Some((s2, l2));
                return Ok(());
            }
            TK::FromVec => {
                let mut v = vec![];
                let mut l = vec![];
                for _ in 0..o.a {
                    let e = self.fresh_el();
                    v.push(Key::new(e.0, e.1));
                    l.push(e);
                }
                self.hs[h] = Some((S::from(v), l));
                return Ok(());
            }
            TK::SplitOff => {
                let (s, l) = self.hs[h].as_mut().unwrap();
                let t = s.split_off(o.a as usize);
                let tl = l.split_off(o.a as usize);
                self.hs.push(Some((t, tl)));
                return Ok(());
            }
            TK::Rebuild => {
                let (s, l) = self.hs[h].take().unwrap();
                let mut v: Vec<Key> = vec![];
                for k in s {
                    ensure!(v.len() < l.len(), "into_iter yields too much");
                    v.push(k);
                }
                v.reverse();
                let got: L = v.iter().map(el).collect();
                ensure!(got == l, "into_iter yields (reversed) {got:?}, expected {l:?}");
                self.hs[h] = Some((v.into_iter().collect(), l));
                return Ok(());
            }
            TK::Walk => return self.walk(h, o.a),
            TK::IntoPart => {
                let (s, l) = self.hs[h].take().unwrap();
                let mut it = s.into_iter();
                for i in 0..o.a as usize {
                    let got = it.next().map(|k| el(&k));
                    let want = if i < l.len() { Some(l[l.len() - 1 - i]) } else { None };
                    ensure!(got == want, "into_iter item {i} is {got:?}, expected {want:?}");
                }
                drop(it);
                self.hs[h] = Some((S::new(), vec![]));
                return Ok(());
            }
            _ => (),
        }
        let e = self.fresh_el();
        let (s, l) = self.hs[h].as_mut().unwrap();
        match o.k {
            TK::Pop => {
                let got = s.pop().map(|k| el(&k));
                let want = l.pop();
                ensure!(got == want, "pop returned {got:?}, expected {want:?}");
            }
            TK::TopMut => {
                match (s.top_mut(), l.last_mut()) {
                    (Some(k), Some(w)) => {
                        ensure!(el(k) == *w, "top_mut is {:?}, expected {w:?}", el(k));
                        *k = Key::new(e.0, e.1);
                        *w = e;
                    }
                    (None, None) => (),
                    (a, b) => return Err(format!("top_mut present: {}, expected {}", a.is_some(), b.is_some())),
                };
            }
            TK::IterMut => {
                // replace the first `a` items from the top
                let n = l.len();
                let mut it = s.iter_mut();
                for i in 0..o.a as usize {
                    match it.next() {
                        Some(k) => {
                            ensure!(i < n, "iter_mut yields too much");
                            ensure!(el(k) == l[n - 1 - i], "iter_mut item {i} is {:?}", el(k));
                            let x = (e.0 * 1000 + i as i64, e.1 * 1000 + i as u32);
                            *k = Key::new(x.0, x.1);
                            l[n - 1 - i] = x;
                        }
                        None => ensure!(i >= n, "iter_mut ends after {i} of {n} items"),
                    }
                }
            }
            TK::Remove => {
                let got = el(&s.remove(o.a as usize));
                let want = l.remove(o.a as usize);
                ensure!(got == want, "remove({}) returned {got:?}, expected {want:?}", o.a);
            }
            TK::BadRemove | TK::BadSplit => {
                // documented to panic; must leave the stack alone
                let at = l.len() + o.a as usize + (o.k == TK::BadSplit) as usize;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if o.k == TK::BadRemove {
                        drop(s.remove(at))
                    } else {
                        drop(s.split_off(at))
                    }
                }));
                let _ = last_panic();
                ensure!(r.is_err(), "index {at} of {} accepted", l.len());
            }
            TK::Clear => {
                s.clear();
                l.clear();
            }
            _ => return Err("unhandled".into()),
        }
        Ok(())
    }
}

/// the ways to consume an iterator that `Walk` tries; 6 and up: nth(how - 6)
const WALKS: i64 = 10;
pub fn walk(kind: i64, how: i64, skip: i64) -> i64 {
    kind * 4096 + how * 256 + skip
}

impl TFam {
    /// Advance an iterator (0 iter, 1 iter_mut, 2 into_iter) `skip` steps, then
    /// consume the rest at once; write to what iter_mut yields.
    fn walk(&mut self, h: usize, a: i64) -> Result<(), String> {
        let (kind, how, skip) = (a / 4096, a / 256 % 16, (a % 256) as usize);
        let base = self.fresh_el();
        let fresh = |i: usize| (base.0 * 1000 + i as i64, base.1 * 1000 + i as u32);
        let (mut s, mut l) = self.hs[h].take().unwrap();
        let n = l.len();
        // index from the top of every item reported, in order
        let mut seen: Vec<((i64, u32), usize)> = vec![];
        let mut want: Vec<usize> = (0..n.min(skip)).collect();
        let at = n.min(skip);
        let vals: Vec<(i64, u32)> = l.iter().rev().copied().collect();
        let best = |max: bool| {
            (at..n).reduce(|a, b| if (vals[b].0 >= vals[a].0) == max && vals[a].0 != vals[b].0 { b } else { a })
        };
        want.extend(match how {
            0 => vec![],
            1 => (at..n).last().into_iter().collect(),
            2 => (at..n).collect(),
            3 => best(true).into_iter().collect(),
            4 => best(false).into_iter().collect(),
            5 => vec![],
            _ => (at + (how - 6) as usize..n).take(2).collect::<Vec<_>>(),
        });
        macro_rules! go {
            ($it:expr, $t:ty, $e:expr) => {{
                let mut it = $it;
                let mut hit = |x: $t| {
                    let i = want.get(seen.len()).copied().unwrap_or(0);
                    seen.push(($e(x, i), i));
                };
                for _ in 0..skip {
                    let (lo, hi) = it.size_hint();
                    ensure!(lo <= n && hi.map_or(true, |h| h >= n - n.min(skip)), "size_hint ({lo}, {hi:?})");
                    it.next().map(&mut hit);
                }
                let (lo, hi) = it.size_hint();
                ensure!(lo <= n - at && hi.map_or(true, |h| h >= n - at), "size_hint ({lo}, {hi:?}) with {} left", n - at);
                match how {
                    0 => {
                        let c = it.count();
                        ensure!(c == n - at, "count() is {c} with {} left", n - at);
                    }
                    1 => it.last().map(&mut hit).unwrap_or(()),
                    2 => it.for_each(&mut hit),
                    3 => it.max().map(&mut hit).unwrap_or(()),
                    4 => it.min().map(&mut hit).unwrap_or(()),
                    5 => {
                        let sorted = vals[at..].windows(2).all(|w| w[0].0 <= w[1].0);
                        let g = it.is_sorted();
                        ensure!(g == sorted, "is_sorted() is {g}");
                    }
                    _ => {
                        it.nth((how - 6) as usize).map(&mut hit);
                        it.next().map(&mut hit);
                    }
                }
            }};
        }
        match kind {
            0 => go!(s.iter(), &Key, |k: &Key, _| el(k)),
            1 => go!(s.iter_mut(), &mut Key, |k: &mut Key, i: usize| {
                let e = el(k);
                let x = fresh(i);
                *k = Key::new(x.0, x.1);
                e
            }),
            _ => {
                go!(std::mem::take(&mut s).into_iter(), Key, |k: Key, _| el(&k))
            }
        }
        ensure!(seen.len() == want.len(), "walk {kind}/{how} after {skip}: {} items, expected {}", seen.len(), want.len());
        for (e, i) in &seen {
            ensure!(*e == vals[*i], "walk {kind}/{how} after {skip}: item {e:?}, expected {:?}", vals[*i]);
            if kind == 1 {
                l[n - 1 - i] = fresh(*i);
            }
        }
        if kind == 2 {
            l.clear();
        }
        self.hs[h] = Some((s, l));
        Ok(())
    }
}

impl Family for TFam {
    type O = TOp;
    const NAME: &'static str = "stack";
    const WORD: &'static str = "stack";
    fn fresh() -> Self {
        TFam { hs: vec![Some((S::new(), vec![]))], tag: 0 }
    }
    fn apply_op(&mut self, o: &TOp) -> Result<(), String> {
        self.apply_(o).map_err(|e| format!("{} on handle {}: {e}", o.k.name(), o.h))?;
        take_fault()
    }
    fn observe_all(&self, obs: Obs) -> Result<(), String> {
        for (h, x) in self.hs.iter().enumerate() {
            if let Some((s, l)) = x {
                observe(s, l, obs).map_err(|e| format!("handle {h}: {e}"))?;
            }
        }
        Ok(())
    }
    /// which nodes are the same memory
    fn print(&self) -> Vec<u16> {
        let mut out = vec![];
        let mut addrs: Vec<usize> = vec![];
        for (s, _) in self.hs.iter().flatten() {
            out.push(60001);
            for k in s.iter() {
                let a = k as *const Key as usize;
                let id = addrs.iter().position(|x| *x == a).unwrap_or_else(|| {
                    addrs.push(a);
                    addrs.len() - 1
                });
                out.push(id as u16);
            }
        }
        out
    }
    /// keys are node addresses, so that the union counts distinct nodes
    fn contents(&self) -> Vec<(usize, Vec<i64>)> {
        self.live()
            .into_iter()
            .map(|h| (h, self.s(h).iter().map(|k| k as *const Key as usize as i64).collect()))
            .collect()
    }
    fn write(ops: &[TOp], s: &mut String) {
        use std::fmt::Write;
        for (i, o) in ops.iter().enumerate() {
            let _ = write!(s, "{}{} {} {}", if i > 0 { ";" } else { "" }, o.k.name(), o.h, o.a);
        }
    }
    fn parse(s: &str) -> Result<Vec<TOp>, String> {
        let mut v = vec![];
        for t in s.split(';').map(|t| t.trim()).filter(|t| !t.is_empty()) {
            let p: Vec<&str> = t.split_whitespace().collect();
            if p.len() != 3 {
                return Err(format!("bad op {t}"));
            }
            v.push(TOp {
                k: TK::parse(p[0]).ok_or(format!("bad op {t}"))?,
                h: p[1].parse().map_err(|_| "bad handle")?,
                a: p[2].parse().map_err(|_| "bad arg")?,
            });
        }
        Ok(v)
    }
    fn drop_handle(&mut self, h: usize) {
        self.hs[h] = None;
    }
}

/// every operation of the stack interface
pub fn stack_ops(c: &[(usize, Vec<i64>)], hmax: usize, lmax: usize) -> Vec<TOp> {
    let live = c.len();
    let mut v = vec![];
    for (h, keys) in c {
        let h = *h;
        let n = keys.len() as i64;
        if (n as usize) < lmax {
            v.push(top(TK::Push, h, 0));
        }
        if n as usize + 1 < lmax {
            v.push(top(TK::Extend, h, 0));
        }
        v.push(top(TK::Pop, h, 0));
        v.push(top(TK::TopMut, h, 0));
        for i in 1..=n + 1 {
            v.push(top(TK::IterMut, h, i));
        }
        for i in 0..n {
            v.push(top(TK::Remove, h, i));
        }
        v.push(top(TK::BadRemove, h, 0));
        v.push(top(TK::BadRemove, h, 3));
        v.push(top(TK::BadSplit, h, 0));
        v.push(top(TK::Clear, h, 0));
        v.push(top(TK::Rebuild, h, 0));
        for i in 0..=n + 1 {
            v.push(top(TK::IntoPart, h, i));
        }
        for i in 0..=n.min(3) {
            for how in 0..WALKS {
                for kind in 0..3 {
                    v.push(top(TK::Walk, h, walk(kind, how, i)));
                }
            }
        }
        v.push(top(TK::FromVec, h, lmax as i64 / 2));
        if live < hmax {
            v.push(top(TK::Clone, h, 0));
            for i in 0..=n {
                v.push(top(TK::SplitOff, h, i));
            }
        }
        if live > 1 {
            v.push(top(TK::DropH, h, 0));
        }
        for (g, k2) in c {
            if *g != h {
                v.push(top(TK::Assign, h, *g as i64));
                v.push(top(TK::CloneFrom, h, *g as i64));
                if keys.len() + k2.len() <= lmax {
                    v.push(top(TK::ExtendOther, h, *g as i64));
                }
            }
        }
    }
    v
}

pub fn stack_family(ctx: &Ctx, len: usize, handles: usize, cap: usize, leak: bool) {
    fbfs::<TFam>(
        ctx,
        &format!("families of at most {handles} stacks of at most {len} elements,"),
        cap,
        Obs::Full,
        leak,
        &move |c| !c.is_empty() && c.len() <= handles && c.iter().all(|x| x.1.len() <= len),
        &move |c| stack_ops(c, handles, len),
    );
}

/// all sequences of `depth` operations on up to three handles, not merged
fn sequences(ctx: &Ctx, depth: usize) {
    let alpha = [
        top(TK::Push, 0, 0),
        top(TK::Push, 1, 0),
        top(TK::Pop, 0, 0),
        top(TK::Pop, 1, 0),
        top(TK::TopMut, 0, 0),
        top(TK::TopMut, 1, 0),
        top(TK::IterMut, 1, 2),
        top(TK::Assign, 0, 1),
        top(TK::Assign, 1, 0),
        top(TK::Remove, 0, 0),
        top(TK::Remove, 1, 1),
        top(TK::SplitOff, 0, 1),
    ];
    let n = alpha.len();
    let items: Vec<usize> = (0..n.pow(depth as u32)).step_by(64).collect();
    let total = n.pow(depth as u32);
    ctx.par_for(&items, |slot, &lo| {
        for x in lo..(lo + 64).min(total) {
            if slot.ctx.stopped() {
                return;
            }
            let mut ops = vec![top(TK::Extend, 0, 0), top(TK::Clone, 0, 0)];
            // lengths decide which indices exist
            let (mut l0, mut l1) = (2i64, 2i64);
            let mut y = x;
            for _ in 0..depth {
                let mut o = alpha[y % n];
                y /= n;
                let l = if o.h == 0 { &mut l0 } else { &mut l1 };
                match o.k {
                    TK::Push => *l += 1,
                    TK::Pop => *l = (*l - 1).max(0),
                    TK::Remove => {
                        if o.a >= *l {
                            o = top(TK::BadRemove, o.h as usize, 0);
                        } else {
                            *l -= 1;
                        }
                    }
                    TK::SplitOff => {
                        o.a = o.a.min(*l);
                        *l = o.a;
                    }
                    TK::Assign => {
                        if o.h == 0 {
                            l0 = l1
                        } else {
                            l1 = l0
                        }
                    }
                    _ => (),
                }
                ops.push(o);
            }
            one(slot, &ops, ops.len() - 2);
        }
    });
    ctx.note(format!("sequences: all {total} sequences of {depth} operations on two stacks that start as clones of each other (split-off parts stay alive)"));
}

fn one(slot: &mut Slot, ops: &[TOp], at: usize) {
    slot.case(
        |s| {
            s.push_str("stack stack ");
            TFam::write(ops, s);
        },
        |steps| run_fam::<TFam, _>(&ops[..at], &ops[at..], Obs::Full, true, steps, |_| ()),
    );
}

/// longer stacks: every position of every positional operation
pub fn longer(ctx: &Ctx, sizes: &[i64], step: usize) {
    for &n in sizes {
        let mut items = vec![];
        for shared in 0..=6 {
            let mut at: Vec<i64> = (0..=n).step_by(step).collect();
            at.extend((n - 2..=n).filter(|i| *i % step as i64 != 0));
            for i in at {
                for how in 0..WALKS {
                    for kind in 0..3 {
                        items.push((shared, top(TK::Walk, 0, walk(kind, how, i))));
                    }
                }
                for k in [TK::Remove, TK::SplitOff, TK::IterMut, TK::IntoPart] {
                    if !(k == TK::Remove && i == n) {
                        items.push((shared, top(k, 0, i)));
                    }
                }
            }
        }
        ctx.par_for(&items, |slot, &(shared, o)| {
            let mut h = vec![top(TK::FromVec, 0, n)];
            match shared {
                1 => h.push(top(TK::Clone, 0, 0)),
                2 => h.extend([top(TK::Clone, 0, 0), top(TK::IterMut, 1, n / 2)]),
                3 => h.extend([top(TK::Clone, 0, 0), top(TK::IterMut, 0, n / 2)]),
                4 => {
                    h.push(top(TK::Clone, 0, 0));
                    (0..n / 2).for_each(|_| h.push(top(TK::Pop, 1, 0)));
                    h.push(top(TK::Push, 1, 0));
                }
                5 => {
                    // tails shared from several depths on
                    for c in 1..=4 {
                        h.push(top(TK::Clone, 0, 0));
                        (0..c as i64 * n / 6).for_each(|_| h.push(top(TK::Pop, c, 0)));
                        h.push(top(TK::Push, c, 0));
                    }
                    h.push(top(TK::IterMut, 0, n / 4));
                }
                6 => (0..5).for_each(|_| h.push(top(TK::Clone, 0, 0))),
                _ => (),
            }
            let at = h.len();
            h.push(o);
            one(slot, &h, at);
        });
    }
    ctx.note(format!("longer stacks: sizes {sizes:?} x 7 sharing patterns x remove, split_off, iter_mut, into_iter, and every way to consume an iterator, at every {step}th position and the last three"));
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    let cap = if t { 150_000 } else { 8_000 };
    stack_family(ctx, if t { 6 } else { 5 }, 2, cap, true);
    stack_family(ctx, if t { 4 } else { 3 }, 3, cap, true);
    stack_family(ctx, if t { 3 } else { 2 }, 4, cap, true);
    if t {
        stack_family(ctx, 2, 5, cap, true);
    }
    sequences(ctx, if t { 6 } else { 5 });
    longer(ctx, if t { &[9, 16, 31, 70] } else { &[9, 16, 33] }, 1);
    longer(ctx, &[300], if t { 5 } else { 21 });
    longer(ctx, &[1000], if t { 70 } else { 250 });
    crate::plain::explore_stacks(ctx);
}

pub fn replay(case: &str) -> Result<(), String> {
    if case.starts_with("plain") {
        return crate::plain::replay(case);
    }
    crate::fam::replay(case, true)
}
