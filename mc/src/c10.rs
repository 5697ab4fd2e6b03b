//! C10: cloning is lazy.  Counts the element clones of every operation from
//! every shape and sharing pattern.

use crate::elem::*;
use crate::engine::*;
use crate::fam::*;
use crate::machine::*;
use crate::setm::*;
use crate::shapes::*;
use crate::stack::{stack_ops, top, TFam, TOp, TK};
use crate::narrow::Narrow;
use crate::subj::*;
use crate::{ensure, for_map, for_set};
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    /// clones nothing, whatever is shared
    Free,
    /// clones nothing when the handle shares nothing
    Unshared,
    /// as Unshared; when shared, clones at most the path
    Single,
    /// no claim
    Other,
}

pub trait Lazy: Family {
    fn class(o: &Self::O) -> Class;
    fn handle(o: &Self::O) -> usize;
    /// the other handle an update takes entries from
    fn partner(o: &Self::O) -> Option<usize> {
        let _ = o;
        None
    }
    /// addresses of the elements of handle h
    fn addrs(&self, h: usize) -> Vec<usize>;
    /// is the element updated by `o` itself stored in shared memory?
    fn target_addr(&self, o: &Self::O) -> Option<usize>;
    /// how many elements may be cloned by one shared update
    fn path_bound(&self, h: usize) -> u64;
    /// clones of its own new key an operation may make besides
    fn slack(&self, o: &Self::O) -> u64 {
        let _ = o;
        0
    }
    /// everything that only looks
    fn look_all(&self);
    /// updates that must be free on a handle that shares nothing
    fn free_updates(&self, h: usize) -> Vec<Self::O>;
    fn clone_op(h: usize) -> Self::O;
    /// update the same entry once more
    fn again(o: &Self::O) -> Option<Self::O>;
    fn ops(c: &[(usize, Vec<i64>)], d: usize, hmax: usize) -> Vec<Self::O>;
}

fn log_bound(n: usize, minocc: usize, maxocc: usize, avl: bool) -> u64 {
    let n = n as f64 + 2.0;
    if avl {
        // at most 1.45 log2(n+2) levels; a removal may also rotate two nodes
        // off the path on every level
        (3.0 * (1.45 * n.log2() + 1.0)).ceil() as u64 + 2
    } else {
        let levels = 1.0 + (n / 2.0).ln() / ((minocc + 1) as f64).ln();
        // the path, and a sibling on both sides of every node of it
        (3.0 * levels.ceil() * maxocc as f64) as u64
    }
}

impl<M: MapSub> Lazy for Fam<M> {
    fn class(o: &Op) -> Class {
        use OpK::*;
        match o.k {
            Clone | CloneFrom | Assign | Look | New | DropH | Clear | Swap => Class::Free,
            Ins | Rem | RemK | RemEntry | GetMut | GetMutK | PopF | PopL | Entry | FirstEntry | LastEntry => Class::Single,
            IterMut | IterMutEnds | MutInto | ValuesMut | RangeMut | ForEachMut | IntoPart | IntoKeys | IntoValues | IntoVec | Rebuild => {
                Class::Unshared
            }
            Extend | Retain | SplitOff | Append => Class::Unshared,
            _ => Class::Other,
        }
    }
    fn handle(o: &Op) -> usize {
        o.h as usize
    }
    fn partner(o: &Op) -> Option<usize> {
        (o.k == OpK::Append).then_some(o.a as usize)
    }
    fn addrs(&self, h: usize) -> Vec<usize> {
        match &self.hs[h] {
            None => vec![],
            Some((m, _)) => m.iter_().map(|(_, v)| v as *const Val as usize).collect(),
        }
    }
    fn target_addr(&self, o: &Op) -> Option<usize> {
        match o.k {
            OpK::GetMut | OpK::GetMutK => self.m(o.h as usize).get_q(&KQ(o.a)).map(|v| v as *const Val as usize),
            _ => None,
        }
    }
    fn path_bound(&self, h: usize) -> u64 {
        2 * log_bound(self.model(h).len(), M::MINOCC, M::MAXOCC, M::KIND == Kind::Avl)
    }
    fn slack(&self, o: &Op) -> u64 {
        // an Entry owns a copy of its key
        (matches!(o.k, OpK::FirstEntry | OpK::LastEntry) || o.k == OpK::Entry && self.model(o.h as usize).get(o.a).is_none()) as u64
    }
    fn look_all(&self) {
        for (m, md) in self.hs.iter().flatten() {
            let _ = observe(m, md, Obs::Full);
            for (k, v) in m.iter_().rev() {
                ent(k, v);
            }
            if M::RICH {
                m.keys_().for_each(|k| k.check());
                m.values_().for_each(|v| v.check());
                m.ref_into_iter().for_each(|(k, v)| {
                    ent(k, v);
                });
                if let Some(e) = md.0.get(md.len() / 2) {
                    m.range_((bd(1, e.0), bd(0, 0))).for_each(|(k, _)| k.check());
                    m.range_((bd(0, 0), bd(2, e.0))).rev().for_each(|(k, _)| k.check());
                }
                let _ = m.debug_();
                let _ = m.cmp_(m);
                let _ = m.eq_(m);
            }
        }
    }
    fn free_updates(&self, h: usize) -> Vec<Op> {
        let keys = self.model(h).keys();
        let mut v = vec![];
        for k in &keys {
            v.push(op(OpK::GetMut, h, *k, 0));
            v.push(op(OpK::Ins, h, *k, 0));
        }
        v.push(op(OpK::IterMut, h, 0, 0));
        v.push(op(OpK::Ins, h, gap_key(&keys, keys.len() / 2), 0));
        for k in keys.iter().skip(keys.len() / 3).take(12) {
            v.push(op(OpK::Rem, h, *k, 0));
        }
        v
    }
    fn clone_op(h: usize) -> Op {
        op(OpK::Clone, h, 0, 0)
    }
    fn again(o: &Op) -> Option<Op> {
        match o.k {
            OpK::Ins | OpK::GetMut | OpK::GetMutK => Some(op(OpK::GetMut, o.h as usize, o.a, 0)),
            OpK::Entry => Some(op(OpK::Entry, o.h as usize, o.a, 4)),
            _ => None,
        }
    }
    fn ops(c: &[(usize, Vec<i64>)], d: usize, hmax: usize) -> Vec<Op> {
        fam_ops::<M>(c, d, hmax)
    }
}

impl<S: SetSub> Lazy for SFam<S> {
    fn class(o: &SOp) -> Class {
        use SK::*;
        match o.k {
            Clone | CloneFrom | Assign | Look | New | Default | DropH | Clear | Swap => Class::Free,
            Ins | Replace | Rem | RemK | Take | TakeK | PopF | PopL => Class::Single,
            IntoPart | Rebuild | Extend | Retain | SplitOff | Append => Class::Unshared,
            _ => Class::Other,
        }
    }
    fn handle(o: &SOp) -> usize {
        o.h as usize
    }
    fn partner(o: &SOp) -> Option<usize> {
        (o.k == SK::Append).then_some(o.a as usize)
    }
    fn addrs(&self, h: usize) -> Vec<usize> {
        match &self.hs[h] {
            None => vec![],
            Some((s, _)) => s.iter_().map(|k| k as *const Key as usize).collect(),
        }
    }
    fn target_addr(&self, _: &SOp) -> Option<usize> {
        None
    }
    fn path_bound(&self, h: usize) -> u64 {
        let (mn, mx) = match S::NAME {
            "avlset" => (1, 1),
            "bts1" => (1, 3),
            "bts2" => (2, 5),
            _ => (5, 11),
        };
        log_bound(self.model(h).len(), mn, mx, S::AVL)
    }
    fn look_all(&self) {
        for (s, md) in self.hs.iter().flatten() {
            let _ = sobserve(s, md, Obs::Full);
            let _ = s.debug_();
            let _ = s.hash_();
            let _ = s.cmp_(s);
            for (s2, _) in self.hs.iter().flatten() {
                let _ = s.eq_(s2);
                let _ = (s.is_subset_(s2), s.is_superset_(s2), s.is_disjoint_(s2));
                for op in SET_OPS {
                    S::op_iter(op, s, s2).for_each(|k| k.check());
                }
            }
        }
    }
    fn free_updates(&self, h: usize) -> Vec<SOp> {
        let keys = self.model(h).keys();
        let mut v = vec![];
        for k in &keys {
            v.push(sop(SK::Replace, h, *k, 0));
        }
        v.push(sop(SK::Ins, h, gap_key(&keys, keys.len() / 2), 0));
        for k in keys.iter().skip(keys.len() / 3).take(12) {
            v.push(sop(SK::Rem, h, *k, 0));
        }
        v
    }
    fn clone_op(h: usize) -> SOp {
        sop(SK::Clone, h, 0, 0)
    }
    fn again(o: &SOp) -> Option<SOp> {
        match o.k {
            SK::Ins | SK::Replace => Some(sop(SK::Ins, o.h as usize, o.a, 0)),
            _ => None,
        }
    }
    fn ops(c: &[(usize, Vec<i64>)], d: usize, hmax: usize) -> Vec<SOp> {
        sfam_ops::<S>(c, d, hmax)
    }
}

impl Lazy for TFam {
    fn class(o: &TOp) -> Class {
        match o.k {
            TK::Clone | TK::CloneFrom | TK::Assign | TK::New | TK::DropH | TK::Clear | TK::Swap | TK::Push | TK::Extend | TK::FromVec => Class::Free,
            TK::Pop | TK::TopMut => Class::Single,
            TK::BadRemove | TK::BadSplit | TK::ExtendOther => Class::Other,
            _ => Class::Unshared,
        }
    }
    fn handle(o: &TOp) -> usize {
        o.h as usize
    }
    fn addrs(&self, h: usize) -> Vec<usize> {
        match &self.hs[h] {
            None => vec![],
            Some((s, _)) => s.iter().map(|k| k as *const Key as usize).collect(),
        }
    }
    fn target_addr(&self, o: &TOp) -> Option<usize> {
        match o.k {
            TK::Pop | TK::TopMut => self.hs[o.h as usize].as_ref().unwrap().0.top().map(|k| k as *const Key as usize),
            _ => None,
        }
    }
    fn path_bound(&self, _: usize) -> u64 {
        1
    }
    fn look_all(&self) {
        for (s, l) in self.hs.iter().flatten() {
            let _ = crate::stack::observe(s, l, Obs::Full);
            let _ = format!("{s:?}");
        }
    }
    fn free_updates(&self, h: usize) -> Vec<TOp> {
        let n = self.hs[h].as_ref().unwrap().1.len() as i64;
        let mut v = vec![top(TK::TopMut, h, 0), top(TK::IterMut, h, n + 1)];
        if n > 1 {
            v.push(top(TK::Remove, h, n / 2));
        }
        v.push(top(TK::Pop, h, 0));
        v.push(top(TK::Rebuild, h, 0));
        v
    }
    fn clone_op(h: usize) -> TOp {
        top(TK::Clone, h, 0)
    }
    fn again(o: &TOp) -> Option<TOp> {
        (o.k == TK::TopMut).then_some(*o)
    }
    fn ops(c: &[(usize, Vec<i64>)], d: usize, hmax: usize) -> Vec<TOp> {
        stack_ops(c, hmax, d)
    }
}

fn clones() -> u64 {
    reg().clones_k + reg().clones_v
}

fn sharing<F: Lazy>(f: &F, h: usize) -> (Vec<usize>, HashSet<usize>) {
    let mine = f.addrs(h);
    let mut others = HashSet::new();
    for (g, _) in f.contents() {
        if g != h {
            others.extend(f.addrs(g));
        }
    }
    (mine, others)
}

/// the most elements cloned by a shared single update, as a share of the bound
fn probe<F: Lazy>(hist: &[F::O], o: &F::O, steps: &mut u64) -> Result<u64, String> {
    reg().reset();
    let mut f = F::fresh();
    for p in hist {
        f.apply_op(p)?;
    }
    let c0 = clones();
    f.look_all();
    take_fault()?;
    ensure!(clones() == c0, "lookups and shared iteration clone {} elements", clones() - c0);
    let h = F::handle(o);
    let class = F::class(o);
    let (mine, others) = sharing(&f, h);
    let mut shared = mine.iter().any(|a| others.contains(a));
    if let Some(g) = F::partner(o) {
        let (its, others) = sharing(&f, g);
        shared |= its.iter().any(|a| others.contains(a));
    }
    let target_shared = f.target_addr(o).map(|a| others.contains(&a));
    let bound = f.path_bound(h);
    let slack = f.slack(o);
    let c0 = clones();
    f.apply_op(o)?;
    *steps += 1;
    let n = (clones() - c0).saturating_sub(slack);
    match class {
        Class::Free => ensure!(n == 0, "clones {n} elements"),
        Class::Unshared if !shared => ensure!(n == 0, "clones {n} elements of a collection that shares nothing"),
        Class::Single => {
            ensure!(shared || n == 0, "clones {n} elements of a collection that shares nothing");
            ensure!(target_shared != Some(false) || n == 0, "clones {n} elements although the entry is not shared");
            ensure!(n <= bound, "clones {n} elements of {}, more than {bound}", mine.len());
        }
        _ => (),
    }
    if let (Class::Single, Some(a)) = (class, F::again(o)) {
        let c0 = clones();
        f.apply_op(&a)?;
        ensure!(clones() == c0, "a second update of the same entry clones {} elements", clones() - c0);
    }
    // a clone is free, and so is everything once all clones are gone
    if f.contents().iter().any(|c| c.0 == h) {
        let c0 = clones();
        f.apply_op(&F::clone_op(h))?;
        ensure!(clones() == c0, "clone clones {} elements", clones() - c0);
        for (g, _) in f.contents() {
            if g != h {
                f.drop_handle(g);
            }
        }
        for u in f.free_updates(h) {
            let c0 = clones();
            f.apply_op(&u)?;
            ensure!(clones() == c0, "after all clones are dropped, an update clones {} elements", clones() - c0);
        }
    }
    take_fault()?;
    Ok(if class == Class::Single { n } else { 0 })
}

fn item<F: Lazy>(slot: &mut Slot, hist: &[F::O], o: &F::O) {
    let n = slot.case(
        |s| {
            s.push_str(&format!("lazy {} {} ", F::WORD, F::NAME));
            F::write(hist, s);
            if !hist.is_empty() {
                s.push(';');
            }
            F::write(&[*o], s);
        },
        |st| probe::<F>(hist, o, st),
    );
    if let Some(n) = n {
        slot.outcome(n);
        slot.count("operations measured", 1);
    }
}

fn family<F: Lazy>(ctx: &Ctx, states: &[FState<F::O>], d: usize, h: usize, label: &str)
where
    FState<F::O>: Sync,
{
    ctx.par_for(states, |slot, st| {
        for o in F::ops(&st.contents, d, h) {
            if slot.ctx.stopped() {
                return;
            }
            item::<F>(slot, &st.hist, &o);
        }
    });
    ctx.note(format!("{label} {}: clones counted for every operation from each of {} families", F::NAME, states.len()));
}

fn maps<M: MapSub>(ctx: &Ctx, d: usize, h: usize, cap: usize) {
    let st = fbfs::<Fam<M>>(
        ctx,
        &format!("families of at most {h} handles over at most {d} keys,"),
        cap,
        Obs::Light,
        false,
        &limits(d, h),
        &move |c| fam_ops::<M>(c, d, h),
    );
    family::<Fam<M>>(ctx, &st, d + 1, h + 1, "laziness");
}
fn sets<S: SetSub>(ctx: &Ctx, d: usize, h: usize, cap: usize) {
    let st = fbfs::<SFam<S>>(
        ctx,
        &format!("families of at most {h} handles over at most {d} elements,"),
        cap,
        Obs::Light,
        false,
        &limits(d, h),
        &move |c| sfam_ops::<S>(c, d, h),
    );
    family::<SFam<S>>(ctx, &st, d + 1, h + 1, "laziness");
}
fn stacks(ctx: &Ctx, len: usize, h: usize, cap: usize) {
    let st = fbfs::<TFam>(
        ctx,
        &format!("families of at most {h} stacks of at most {len} elements,"),
        cap,
        Obs::Light,
        false,
        &move |c| !c.is_empty() && c.len() <= h && c.iter().all(|x| x.1.len() <= len),
        &move |c| stack_ops(c, h, len),
    );
    family::<TFam>(ctx, &st, len + 1, h + 1, "laziness");
}

fn shaped<M: MapSub>(ctx: &Ctx, max_n: usize) {
    let st = shapes::<M>(ctx, max_n, 1 << 18);
    let items = shared_states(&st);
    family::<Fam<M>>(ctx, &items, max_n + 1, 4, &format!("shapes of at most {max_n} entries x sharing,"));
}

fn larger<M: MapSub>(ctx: &Ctx, sizes: &[usize], points: usize) {
    let mut items = vec![];
    for p in PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            let step = (st.keys.len() / points).max(1);
            for pat in SHARING {
                for e in [0, st.keys.len() / 2, st.keys.len() - 1] {
                    if matches!(pat, "none" | "clone") && e > 0 {
                        continue;
                    }
                    let mut h = st.hist.clone();
                    h.extend(share(pat, &st.keys, e));
                    for o in big_ops::<M>(&st.keys, 0, step, false) {
                        if F::<M>::class(&o) != Class::Other {
                            items.push((h.clone(), o));
                        }
                    }
                }
            }
        }
    }
    type F<M> = Fam<M>;
    ctx.par_for(&items, |slot, (h, o)| item::<Fam<M>>(slot, h, o));
    ctx.note(format!("larger trees {}: patterns {PATTERNS:?} at {sizes:?} x sharing, updates at {points} positions", M::NAME));
}

fn slarger<S: SetSub>(ctx: &Ctx, sizes: &[usize], points: usize) {
    let mut items: Vec<(Vec<SOp>, SOp)> = vec![];
    for p in PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            let step = (st.keys.len() / points).max(1);
            for sh in [false, true] {
                let mut h = to_sops(&st.hist);
                if sh {
                    h.push(sop(SK::Clone, 0, 0, 0));
                }
                for i in (0..st.keys.len()).step_by(step) {
                    for k in [SK::Ins, SK::Replace, SK::Rem, SK::Take] {
                        items.push((h.clone(), sop(k, 0, st.keys[i], 0)));
                    }
                    items.push((h.clone(), sop(SK::Ins, 0, gap_key(&st.keys, i), 0)));
                }
                items.push((h.clone(), sop(SK::PopF, 0, 0, 0)));
                items.push((h.clone(), sop(SK::PopL, 0, 0, 0)));
            }
        }
    }
    ctx.par_for(&items, |slot, (h, o)| item::<SFam<S>>(slot, h, o));
    ctx.note(format!("larger sets {}: patterns {PATTERNS:?} at {sizes:?}, updates at {points} positions", S::NAME));
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    let x = |q: usize, th: usize| if t { th } else { q };
    let cap = x(4_000, 100_000);
    maps::<Avl>(ctx, x(5, 6), 2, cap);
    maps::<Avl>(ctx, x(3, 4), 3, cap);
    maps::<Bt<1>>(ctx, x(7, 8), 2, cap);
    maps::<Bt<1>>(ctx, x(4, 5), 3, cap);
    maps::<Fixed>(ctx, x(12, 13), 2, cap);
    sets::<AvlS>(ctx, x(4, 5), 2, cap);
    sets::<BtS<1>>(ctx, x(5, 7), 2, cap);
    stacks(ctx, x(4, 6), 2, cap);
    stacks(ctx, 3, x(3, 4), cap);
    shaped::<Avl>(ctx, x(7, 10));
    shaped::<Bt<1>>(ctx, x(9, 12));
    shaped::<Bt<2>>(ctx, x(10, 15));
    shaped::<Bt<3>>(ctx, x(10, 18));
    shaped::<Bt<5>>(ctx, x(13, 20));
    shaped::<Fixed>(ctx, x(18, 28));
    shaped::<Narrow>(ctx, x(13, 24));
    let s: &[usize] = if t { &[50, 200, 1000] } else { &[50, 300] };
    let p = x(8, 40);
    larger::<Avl>(ctx, s, p);
    larger::<Bt<1>>(ctx, s, p);
    larger::<Bt<2>>(ctx, s, p);
    larger::<Bt<3>>(ctx, s, p);
    larger::<Bt<5>>(ctx, s, p);
    larger::<Bt<16>>(ctx, s, p);
    larger::<Fixed>(ctx, s, p);
    larger::<Narrow>(ctx, s, p);
    slarger::<AvlS>(ctx, s, p);
    slarger::<BtS<1>>(ctx, s, p);
    slarger::<BtS<5>>(ctx, s, p);
    slarger::<BtS<16>>(ctx, s, p);
}

pub fn replay(case: &str) -> Result<(), String> {
    let _ = take_fault();
    let Some(rest) = case.strip_prefix("lazy ") else {
        return crate::fam::replay_c02(case);
    };
    let p: Vec<&str> = rest.splitn(3, ' ').collect();
    ensure!(p.len() == 3, "bad case");
    fn go<F: Lazy>(ops: &str) -> Result<(), String> {
        let ops = F::parse(ops)?;
        let (o, hist) = ops.split_last().ok_or("bad case")?;
        probe::<F>(hist, o, &mut 0).map(|_| ())
    }
    fn gm<M: MapSub>(ops: &str) -> Result<(), String> {
        go::<Fam<M>>(ops)
    }
    fn gs<S: SetSub>(ops: &str) -> Result<(), String> {
        go::<SFam<S>>(ops)
    }
    match p[0] {
        "map" => for_map!(p[1], gm, p[2]),
        "set" => for_set!(p[1], gs, p[2]),
        "stack" => go::<TFam>(p[2]),
        _ => Err("bad case".into()),
    }
}
