//! C09: a panic in user code (Clone, Ord, Default, closures), injected at every
//! point of every operation.

use crate::elem::*;
use crate::engine::*;
use crate::fam::*;
use crate::machine::*;
use crate::setm::*;
use crate::shapes::*;
use crate::stack::{stack_ops, TFam, TOp, TK};
use crate::narrow::Narrow;
use crate::subj::*;
use crate::{ensure, for_map, for_set};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What C09 needs to know about a family beyond `Family`.
pub trait Panicky: Family {
    /// handles an operation may legitimately change
    fn touched(o: &Self::O) -> Vec<usize>;
    /// must the operated handle stay usable when a closure or comparison panics?
    fn recovers(o: &Self::O) -> bool;
    fn main_handle(o: &Self::O) -> usize;
    fn observe_except(&self, skip: &[usize], obs: Obs) -> Result<(), String>;
    /// the handle must be usable, with len() equal to what iteration yields
    fn usable(&mut self, h: usize) -> Result<(), String>;
    /// do things with the handle, ignoring results; memory faults are recorded
    fn abuse(&mut self, h: usize);
    fn all_ops(c: &[(usize, Vec<i64>)], d: usize, hmax: usize) -> Vec<Self::O>;
}

impl<M: MapSub> Panicky for Fam<M> {
    fn touched(o: &Op) -> Vec<usize> {
        let (h, a, b) = (o.h as usize, o.a as usize, o.b as usize);
        match o.k {
            OpK::Look | OpK::Clone | OpK::New => vec![],
            OpK::Append | OpK::Swap => vec![h, a],
            OpK::Join => vec![h, b],
            OpK::BulkOp => match o.c & 3 {
                0 => vec![],
                1 => vec![h],
                2 => vec![a],
                _ => vec![h, a],
            },
            _ => vec![h],
        }
    }
    fn recovers(o: &Op) -> bool {
        use OpK::*;
        matches!(
            o.k,
            Look | Ins | Rem | RemK | RemEntry | GetMut | GetMutK | Entry | FirstEntry | LastEntry | Retain | RangeMut | ForEachMut | PopF | PopL | Extend
        )
    }
    fn main_handle(o: &Op) -> usize {
        o.h as usize
    }
    fn observe_except(&self, skip: &[usize], obs: Obs) -> Result<(), String> {
        for h in 0..self.hs.len() {
            if !skip.contains(&h) {
                self.observe_one(h, obs)?;
            }
        }
        take_fault()
    }
    fn usable(&mut self, h: usize) -> Result<(), String> {
        let Some((m, _)) = self.hs[h].as_mut() else { return Ok(()) };
        let n = m.len_();
        let mut md = Model::default();
        for (k, v) in m.iter_().take(n + 8) {
            let e = ent(k, v);
            ensure!(md.0.last().map_or(true, |l| l.0 < e.0), "iteration is not ascending");
            md.0.push(e);
        }
        ensure!(md.len() == n, "len() is {n}, but iteration yields {} entries", md.len());
        take_fault()?;
        observe(m, &md, Obs::Full)?;
        // go on using it
        let c = m.clone();
        let cmd = md.clone();
        for k in [md.keys().first().map_or(3, |k| k - 5), md.keys().last().map_or(9, |k| k + 5)] {
            ensure!(m.insert_(Key::new(k, 77), Val::new(78)).is_none(), "insert({k}) finds an absent key");
            md.insert((k, 77, 78));
        }
        observe(m, &md, Obs::Full)?;
        for e in cmd.0.iter().step_by(2) {
            ensure!(m.remove_q(&KQ(e.0)).map(|v| v.v) == Some(e.2), "remove({}) fails", e.0);
            md.remove(e.0);
        }
        observe(m, &md, Obs::Full)?;
        observe(&c, &cmd, Obs::Full)
    }
    fn abuse(&mut self, h: usize) {
        let Some((m, md)) = self.hs[h].as_mut() else { return };
        let lim = 4 * md.len() + 50;
        let keys = md.keys();
        guarded(|| {
            for (k, v) in m.iter_().take(lim) {
                ent(k, v);
            }
        });
        guarded(|| {
            for (k, v) in m.iter_().rev().take(lim) {
                ent(k, v);
            }
        });
        for k in &keys {
            guarded(|| {
                m.get_q(&KQ(*k)).map(|v| v.check());
            });
        }
        let c = m.clone();
        guarded(|| {
            m.insert_(Key::new(keys.first().map_or(5, |k| k + 1), 1), Val::new(1));
        });
        for k in keys.iter().step_by(2) {
            guarded(|| {
                m.remove_q(&KQ(*k)).map(|v| v.check());
            });
        }
        guarded(|| {
            for (k, v) in m.iter_mut_().take(lim) {
                ent(k, v);
                *v = Val::new(3);
            }
        });
        guarded(|| {
            let mut it = c.into_iter_();
            for _ in 0..lim / 2 {
                match it.next() {
                    Some((k, v)) => {
                        ent(&k, &v);
                    }
                    None => break,
                }
                if let Some((k, v)) = it.next_back() {
                    ent(&k, &v);
                }
            }
        });
    }
    fn all_ops(c: &[(usize, Vec<i64>)], d: usize, hmax: usize) -> Vec<Op> {
        let mut v: Vec<Op> = fam_ops::<M>(c, d, hmax)
            .into_iter()
            .filter(|o| !matches!(o.k, OpK::Clone | OpK::DropH | OpK::Assign | OpK::New | OpK::Clear
                // these operate on every handle, not only on their own
                | OpK::IntoShare | OpK::IterMutShare))
            .collect();
        for (h, keys) in c {
            for k in keys {
                v.push(op(OpK::Look, *h, *k, 0));
            }
            v.push(op(OpK::Look, *h, gap_key(keys, keys.len() / 2), 0));
            if M::RICH {
                v.push(op(OpK::Entry, *h, gap_key(keys, keys.len() / 2), 1));
                v.push(op(OpK::Entry, *h, gap_key(keys, keys.len()), 2));
                v.push(op(OpK::Entry, *h, gap_key(keys, 0), 3));
                v.push(op(OpK::FirstEntry, *h, 0, 5));
                if let (Some(a), Some(b)) = (keys.first(), keys.last()) {
                    v.push(Op { c: 4, ..op(OpK::RangeMut, *h, *a, *b) });
                    v.push(op(OpK::RemK, *h, *a, 0));
                    v.push(op(OpK::GetMutK, *h, *b, 0));
                }
            }
        }
        v
    }
}

impl<S: SetSub> Panicky for SFam<S> {
    fn touched(o: &SOp) -> Vec<usize> {
        let (h, a) = (o.h as usize, o.a as usize);
        match o.k {
            SK::Look | SK::Clone | SK::New | SK::Default | SK::OpRef => vec![],
            SK::Append | SK::Swap => vec![h, a],
            SK::OpNew => match o.c & 3 {
                0 => vec![],
                1 => vec![h],
                2 => vec![a],
                _ => vec![h, a],
            },
            _ => vec![h],
        }
    }
    fn recovers(o: &SOp) -> bool {
        use SK::*;
        matches!(o.k, Look | Ins | Replace | Take | TakeK | Rem | RemK | Retain | PopF | PopL | Extend)
    }
    fn main_handle(o: &SOp) -> usize {
        o.h as usize
    }
    fn observe_except(&self, skip: &[usize], obs: Obs) -> Result<(), String> {
        for h in 0..self.hs.len() {
            if skip.contains(&h) {
                continue;
            }
            if let Some((s, md)) = &self.hs[h] {
                sobserve(s, md, obs).map_err(|e| format!("handle {h}: {e}"))?;
            }
        }
        take_fault()
    }
    fn usable(&mut self, h: usize) -> Result<(), String> {
        let Some((s, _)) = self.hs[h].as_mut() else { return Ok(()) };
        let n = s.len_();
        let mut md = SModel::default();
        for k in s.iter_().take(n + 8) {
            let e = crate::setm::el(k);
            ensure!(md.0.last().map_or(true, |l| l.0 < e.0), "iteration is not ascending");
            md.0.push(e);
        }
        ensure!(md.len() == n, "len() is {n}, but iteration yields {} elements", md.len());
        take_fault()?;
        sobserve(s, &md, Obs::Full)?;
        let c = s.clone();
        let cmd = md.clone();
        for k in [md.keys().first().map_or(3, |k| k - 5), md.keys().last().map_or(9, |k| k + 5)] {
            ensure!(s.insert_(Key::new(k, 77)), "insert({k}) finds an absent element");
            md.insert((k, 77));
        }
        sobserve(s, &md, Obs::Full)?;
        for e in cmd.0.iter().step_by(2) {
            ensure!(s.remove_q(&KQ(e.0)), "remove({}) fails", e.0);
            md.remove(e.0);
        }
        sobserve(s, &md, Obs::Full)?;
        sobserve(&c, &cmd, Obs::Full)
    }
    fn abuse(&mut self, h: usize) {
        let Some((s, md)) = self.hs[h].as_mut() else { return };
        let lim = 4 * md.len() + 50;
        let keys = md.keys();
        guarded(|| s.iter_().take(lim).for_each(|k| k.check()));
        for k in &keys {
            guarded(|| {
                s.get_q(&KQ(*k)).map(|k| k.check());
            });
        }
        let c = s.clone();
        guarded(|| {
            s.insert_(Key::new(keys.first().map_or(5, |k| k + 1), 1));
        });
        for k in keys.iter().step_by(2) {
            guarded(|| {
                s.take_q(&KQ(*k)).map(|k| k.check());
            });
        }
        guarded(|| c.into_iter_().take(lim).for_each(|k| k.check()));
    }
    fn all_ops(c: &[(usize, Vec<i64>)], d: usize, hmax: usize) -> Vec<SOp> {
        let mut v: Vec<SOp> = sfam_ops::<S>(c, d, hmax)
            .into_iter()
            .filter(|o| !matches!(o.k, SK::Clone | SK::DropH | SK::Assign | SK::New | SK::Clear))
            .collect();
        for (h, keys) in c {
            let g = c.iter().map(|x| x.0).find(|g| g != h).unwrap_or(*h);
            for k in keys {
                v.push(sop(SK::Look, *h, *k, g as i64));
            }
            v.push(sop(SK::Look, *h, gap_key(keys, keys.len() / 2), g as i64));
        }
        v
    }
}

impl Panicky for TFam {
    fn touched(o: &TOp) -> Vec<usize> {
        match o.k {
            TK::Clone | TK::New => vec![],
            TK::Swap => vec![o.h as usize, o.a as usize],
            _ => vec![o.h as usize],
        }
    }
    fn recovers(_: &TOp) -> bool {
        false
    }
    fn main_handle(o: &TOp) -> usize {
        o.h as usize
    }
    fn observe_except(&self, skip: &[usize], obs: Obs) -> Result<(), String> {
        for (h, x) in self.hs.iter().enumerate() {
            if let (false, Some((s, l))) = (skip.contains(&h), x) {
                crate::stack::observe(s, l, obs).map_err(|e| format!("handle {h}: {e}"))?;
            }
        }
        take_fault()
    }
    fn usable(&mut self, _: usize) -> Result<(), String> {
        Ok(())
    }
    fn abuse(&mut self, h: usize) {
        let Some((s, l)) = self.hs[h].as_mut() else { return };
        let lim = 2 * l.len() + 20;
        guarded(|| s.iter().take(lim).for_each(|k| k.check()));
        guarded(|| {
            s.top().map(|k| k.check());
        });
        let c = s.clone();
        guarded(|| s.push(Key::new(1, 1)));
        guarded(|| s.iter_mut().take(lim).for_each(|k| *k = Key::new(2, 2)));
        for _ in 0..l.len() {
            guarded(|| {
                s.pop().map(|k| k.check());
            });
        }
        guarded(|| c.into_iter().take(lim).for_each(|k| k.check()));
    }
    fn all_ops(c: &[(usize, Vec<i64>)], d: usize, hmax: usize) -> Vec<TOp> {
        stack_ops(c, hmax, d)
            .into_iter()
            .filter(|o| !matches!(o.k, TK::Clone | TK::DropH | TK::Assign | TK::New | TK::BadRemove | TK::BadSplit))
            .collect()
    }
}

pub fn guarded(f: impl FnOnce()) {
    if catch_unwind(AssertUnwindSafe(f)).is_err() {
        let _ = last_panic();
    }
}

/// Count the callbacks made by `o` after `hist`.
fn events<F: Panicky>(hist: &[F::O], o: &F::O) -> Result<u64, String> {
    reg().reset();
    let mut f = F::fresh();
    for p in hist {
        f.apply_op(p)?;
    }
    let before = reg().events;
    f.apply_op(o)?;
    Ok(reg().events - before)
}

/// Panic in the `at`-th callback of `o`.
fn run<F: Panicky>(hist: &[F::O], o: &F::O, at: u64, steps: &mut u64) -> Result<u64, String> {
    reg().reset();
    let mut f = F::fresh();
    for p in hist {
        f.apply_op(p)?;
    }
    reg().panic_at = reg().events + at;
    let r = catch_unwind(AssertUnwindSafe(|| f.apply_op(o)));
    reg().panic_at = 0;
    *steps += 1;
    match r {
        Ok(Ok(())) => return Ok(0), // fewer callbacks this time (never on the same history)
        Ok(Err(e)) => return Err(format!("swallowed the panic and misbehaved: {e}")),
        Err(p) if p.is::<Injected>() => (),
        Err(_) => return Err(format!("turned the injected panic into another: {}", last_panic())),
    }
    let kind = reg().panic_kind;
    take_fault().map_err(|e| format!("while unwinding from a panic in {kind} (callback {at}): {e}"))?;
    let mut t = F::touched(o);
    f.observe_except(&t, Obs::Full).map_err(|e| format!("after a panic in {kind} (callback {at}), {e}"))?;
    let h = F::main_handle(o);
    if kind != "clone" && F::recovers(o) {
        f.usable(h).map_err(|e| format!("after a panic in {kind} (callback {at}), the handle itself: {e}"))?;
        if !t.contains(&h) {
            t.push(h);
        }
    }
    for x in &t {
        f.abuse(*x);
        take_fault().map_err(|e| format!("using handle {x} after a panic in {kind} (callback {at}): {e}"))?;
    }
    f.observe_except(&t, Obs::Full)
        .map_err(|e| format!("after a panic in {kind} (callback {at}) and further use of the handle, {e}"))?;
    // dropped last, alternating order
    let mut hs: Vec<usize> = f.contents().into_iter().map(|c| c.0).collect();
    if at % 2 == 0 {
        hs.reverse();
    }
    let kept: Vec<usize> = t.clone();
    for h in hs {
        if kept.contains(&h) {
            f.drop_handle(h);
            take_fault().map_err(|e| format!("dropping handle {h} after a panic in {kind} (callback {at}): {e}"))?;
        }
    }
    f.observe_except(&t, Obs::Full)
        .map_err(|e| format!("after a panic in {kind} (callback {at}) and the drop of the handle, {e}"))?;
    drop(f);
    take_fault().map_err(|e| format!("dropping everything after a panic in {kind} (callback {at}): {e}"))?;
    Ok(match kind {
        "clone" => 1,
        "cmp" => 2,
        _ => 3,
    })
}

fn point<F: Panicky>(slot: &mut Slot, hist: &[F::O], o: &F::O, stride: u64) {
    let text = |at: u64, s: &mut String| {
        s.push_str(&format!("panic {at} {} {} ", F::WORD, F::NAME));
        F::write(hist, s);
        if !hist.is_empty() {
            s.push(';');
        }
        F::write(&[*o], s);
    };
    let n = slot.case(|s| text(0, s), |_| events::<F>(hist, o)).unwrap_or(0);
    let mut at = 1;
    while at <= n {
        if slot.ctx.stopped() {
            return;
        }
        let k = slot.case(|s| text(at, s), |st| run::<F>(hist, o, at, st));
        slot.outcome(k.unwrap_or(0) << 32 | at);
        match k {
            Some(1) => slot.count("panics in Clone", 1),
            Some(2) => slot.count("panics in Ord", 1),
            Some(3) => slot.count("panics in closures and Default", 1),
            _ => (),
        }
        at += if at < 24 || n - at < 24 { 1 } else { stride };
    }
}

fn family<F: Panicky>(ctx: &Ctx, label: &str, states: Vec<FState<F::O>>, d: usize, h: usize)
where
    FState<F::O>: Sync,
{
    ctx.par_for(&states, |slot, st| {
        for o in F::all_ops(&st.contents, d, h) {
            if slot.ctx.stopped() {
                return;
            }
            point::<F>(slot, &st.hist, &o, 1);
        }
    });
    ctx.note(format!(
        "{label} {}: a panic at every callback of every operation from each of {} families",
        F::NAME,
        states.len()
    ));
}

fn maps<M: MapSub>(ctx: &Ctx, d: usize, h: usize, cap: usize) {
    let st = fbfs::<Fam<M>>(
        ctx,
        &format!("families of at most {h} handles over at most {d} keys,"),
        cap,
        Obs::Light,
        false,
        &limits(d, h),
        &move |c| fam_ops::<M>(c, d, h),
    );
    family::<Fam<M>>(ctx, "panics", st, d + 1, h + 1);
}
fn sets<S: SetSub>(ctx: &Ctx, d: usize, h: usize, cap: usize) {
    let st = fbfs::<SFam<S>>(
        ctx,
        &format!("families of at most {h} handles over at most {d} elements,"),
        cap,
        Obs::Light,
        false,
        &limits(d, h),
        &move |c| sfam_ops::<S>(c, d, h),
    );
    family::<SFam<S>>(ctx, "panics", st, d + 1, h + 1);
}
fn stacks(ctx: &Ctx, len: usize, h: usize, cap: usize) {
    let st = fbfs::<TFam>(
        ctx,
        &format!("families of at most {h} stacks of at most {len} elements,"),
        cap,
        Obs::Light,
        false,
        &move |c| !c.is_empty() && c.len() <= h && c.iter().all(|x| x.1.len() <= len),
        &move |c| stack_ops(c, h, len),
    );
    family::<TFam>(ctx, "panics", st, len + 1, h + 1);
}

/// Every shape with every sharing pattern.
fn shaped<M: MapSub>(ctx: &Ctx, max_n: usize) {
    let st = shapes::<M>(ctx, max_n, 1 << 18);
    let items = shared_states(&st);
    family::<Fam<M>>(ctx, &format!("shapes of at most {max_n} entries x sharing,"), items, max_n + 1, 4);
}

fn larger<M: MapSub>(ctx: &Ctx, sizes: &[usize], step: usize, stride: u64) {
    let mut items = vec![];
    for p in PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            for (i, pat) in SHARING.iter().enumerate() {
                let mut h = st.hist.clone();
                h.extend(share(pat, &st.keys, (i * 7) % st.keys.len()));
                let mut ops = big_ops::<M>(&st.keys, 0, step, false);
                if M::RICH && i > 0 {
                    ops.push(op(OpK::Append, 0, 1, 0));
                    if M::KIND == Kind::Avl {
                        (0..4).for_each(|b| ops.push(op(OpK::BulkOp, 0, 1, b)));
                    }
                }
                for o in ops {
                    if !matches!(o.k, OpK::Clear) {
                        items.push((h.clone(), o));
                    }
                }
            }
        }
    }
    ctx.par_for(&items, |slot, (h, o)| point::<Fam<M>>(slot, h, o, stride));
    ctx.note(format!(
        "larger trees {}: patterns {PATTERNS:?} at {sizes:?} x sharing, operations at every {step}th position, panics at the first and last 24 callbacks and every {stride}th between",
        M::NAME
    ));
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    let x = |q: usize, th: usize| if t { th } else { q };
    let cap = x(2_000, 60_000);
    maps::<Avl>(ctx, x(4, 5), 2, cap);
    maps::<Avl>(ctx, x(3, 4), 3, cap);
    maps::<Bt<1>>(ctx, x(6, 7), 2, cap);
    maps::<Bt<1>>(ctx, x(3, 4), 3, cap);
    maps::<Fixed>(ctx, x(5, 12), 2, cap);
    sets::<AvlS>(ctx, x(4, 5), 2, cap);
    sets::<BtS<1>>(ctx, x(4, 6), 2, cap);
    stacks(ctx, x(4, 5), 2, cap);
    stacks(ctx, 3, 3, cap);
    shaped::<Avl>(ctx, x(6, 9));
    shaped::<Bt<1>>(ctx, x(7, 10));
    shaped::<Bt<2>>(ctx, x(8, 13));
    shaped::<Bt<3>>(ctx, x(8, 16));
    shaped::<Bt<5>>(ctx, x(12, 18));
    shaped::<Fixed>(ctx, x(13, 26));
    shaped::<Narrow>(ctx, x(12, 18));
    larger::<Avl>(ctx, if t { &[33, 90] } else { &[33] }, x(6, 2), x(16, 3) as u64);
    larger::<Bt<1>>(ctx, if t { &[33, 90] } else { &[33] }, x(6, 2), x(16, 3) as u64);
    larger::<Bt<2>>(ctx, if t { &[60, 150] } else { &[60] }, x(9, 3), x(16, 3) as u64);
    larger::<Bt<5>>(ctx, if t { &[84, 200] } else { &[84] }, x(12, 5), x(16, 3) as u64);
    larger::<Bt<16>>(ctx, if t { &[84, 200] } else { &[84] }, x(12, 5), x(16, 3) as u64);
    larger::<Fixed>(ctx, if t { &[84, 200] } else { &[84] }, x(12, 5), x(16, 3) as u64);
    larger::<Narrow>(ctx, &[84], x(24, 5), x(24, 3) as u64);
}

pub fn replay(case: &str) -> Result<(), String> {
    let _ = take_fault();
    let Some(rest) = case.strip_prefix("panic ") else {
        return crate::fam::replay_c02(case);
    };
    let p: Vec<&str> = rest.splitn(4, ' ').collect();
    ensure!(p.len() == 4, "bad case");
    let at: u64 = p[0].parse().map_err(|_| "bad case")?;
    fn go<F: Panicky>(ops: &str, at: u64) -> Result<(), String> {
        let ops = F::parse(ops)?;
        let (o, hist) = ops.split_last().ok_or("bad case")?;
        if at == 0 {
            events::<F>(hist, o).map(|_| ())
        } else {
            run::<F>(hist, o, at, &mut 0).map(|_| ())
        }
    }
    fn gm<M: MapSub>(ops: &str, at: u64) -> Result<(), String> {
        go::<Fam<M>>(ops, at)
    }
    fn gs<S: SetSub>(ops: &str, at: u64) -> Result<(), String> {
        go::<SFam<S>>(ops, at)
    }
    match p[1] {
        "map" => for_map!(p[2], gm, p[3], at),
        "set" => for_set!(p[2], gs, p[3], at),
        "stack" => go::<TFam>(p[3], at),
        _ => Err("bad case".into()),
    }
}
