//! Families of handles that share structure: C02 (independence of clones) and
//! C08 (everything is dropped exactly once).

use crate::c01;
use crate::elem::*;
use crate::engine::*;
use crate::machine::*;
use crate::setm::*;
use crate::shapes::*;
use crate::stack::*;
use crate::narrow::Narrow;
use crate::subj::*;
use crate::{ensure, for_map, for_set};
use std::collections::HashSet;

/// Anything whose state is a family of handles driven with operations.
pub trait Family: Sized {
    type O: Copy + Send + Sync;
    const NAME: &'static str;
    const WORD: &'static str;
    fn fresh() -> Self;
    fn apply_op(&mut self, o: &Self::O) -> Result<(), String>;
    fn observe_all(&self, obs: Obs) -> Result<(), String>;
    fn print(&self) -> Vec<u16>;
    fn contents(&self) -> Vec<(usize, Vec<i64>)>;
    fn write(ops: &[Self::O], s: &mut String);
    fn parse(s: &str) -> Result<Vec<Self::O>, String>;
    fn drop_handle(&mut self, h: usize);
}

impl<M: MapSub> Family for Fam<M> {
    type O = Op;
    const NAME: &'static str = M::NAME;
    const WORD: &'static str = "map";
    fn fresh() -> Self {
        Fam::new()
    }
    fn apply_op(&mut self, o: &Op) -> Result<(), String> {
        self.apply(o)
    }
    fn observe_all(&self, obs: Obs) -> Result<(), String> {
        self.observe(obs)
    }
    fn print(&self) -> Vec<u16> {
        self.fingerprint()
    }
    fn contents(&self) -> Vec<(usize, Vec<i64>)> {
        self.live().into_iter().map(|h| (h, self.model(h).keys())).collect()
    }
    fn write(ops: &[Op], s: &mut String) {
        write_ops(ops, s)
    }
    fn parse(s: &str) -> Result<Vec<Op>, String> {
        parse_ops(s)
    }
    fn drop_handle(&mut self, h: usize) {
        self.hs[h] = None;
    }
}

impl<S: SetSub> Family for SFam<S> {
    type O = SOp;
    const NAME: &'static str = S::NAME;
    const WORD: &'static str = "set";
    fn fresh() -> Self {
        SFam::new()
    }
    fn apply_op(&mut self, o: &SOp) -> Result<(), String> {
        self.apply(o)
    }
    fn observe_all(&self, obs: Obs) -> Result<(), String> {
        self.observe(obs)
    }
    fn print(&self) -> Vec<u16> {
        self.fingerprint()
    }
    fn contents(&self) -> Vec<(usize, Vec<i64>)> {
        self.live().into_iter().map(|h| (h, self.model(h).keys())).collect()
    }
    fn write(ops: &[SOp], s: &mut String) {
        write_sops(ops, s)
    }
    fn parse(s: &str) -> Result<Vec<SOp>, String> {
        parse_sops(s)
    }
    fn drop_handle(&mut self, h: usize) {
        self.hs[h] = None;
    }
}

/// Drive `hist` then `last`; with `leak`, drop everything afterwards and demand
/// that no element and no memory block remains.
pub fn run_fam<F: Family, R>(
    hist: &[F::O],
    last: &[F::O],
    obs: Obs,
    leak: bool,
    steps: &mut u64,
    look: impl FnOnce(&F) -> R,
) -> Result<R, String> {
    reg().reset();
    if leak {
        quarantine();
    }
    let before = alloc_balance();
    let r;
    {
        let mut f = F::fresh();
        for o in hist {
            f.apply_op(o)?;
        }
        for o in last {
            *steps += 1;
            f.apply_op(o)?;
            f.observe_all(obs)?;
        }
        let kept = {
            let x = look(&f);
            take_fault()?;
            x
        };
        if leak {
            // alternate the order in which the handles die
            let mut hs: Vec<usize> = f.contents().into_iter().map(|c| c.0).collect();
            if (hist.len() + last.len()) % 2 == 1 {
                hs.reverse();
            }
            for h in hs {
                f.drop_handle(h);
                f.observe_all(Obs::Light)?;
            }
            drop(f);
            take_fault()?;
            ensure!(reg().live == 0, "{} elements were never dropped", reg().live);
        }
        r = kept;
    }
    if leak {
        let kept_blocks = std::mem::size_of_val(&r); // `r` may own memory itself
        let _ = kept_blocks;
        let d = alloc_balance() - before - LOOK_BLOCKS.with(|c| c.take());
        quarantine_end()?;
        ensure!(d == 0, "{d} memory blocks remain allocated after the last handle is gone");
    }
    Ok(r)
}

thread_local! {
    /// blocks owned by the value returned from `look`
    pub static LOOK_BLOCKS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

pub struct FState<O> {
    pub hist: Vec<O>,
    pub contents: Vec<(usize, Vec<i64>)>,
}

fn case_text<F: Family>(a: &[F::O], b: &[F::O], s: &mut String) {
    s.push_str(F::WORD);
    s.push(' ');
    s.push_str(F::NAME);
    s.push(' ');
    F::write(a, s);
    if !a.is_empty() && !b.is_empty() {
        s.push(';');
    }
    F::write(b, s);
}

/// Breadth-first search over the canonical states of a family.
pub fn fbfs<F: Family>(
    ctx: &Ctx,
    label: &str,
    max_states: usize,
    obs: Obs,
    leak: bool,
    within: &(dyn Fn(&[(usize, Vec<i64>)]) -> bool + Sync),
    ops: &(dyn Fn(&[(usize, Vec<i64>)]) -> Vec<F::O> + Sync),
) -> Vec<FState<F::O>> {
    let mut seen: HashSet<u128> = HashSet::new();
    reg().reset();
    let f = F::fresh();
    seen.insert(hash_fp(&f.print()));
    let mut all = vec![FState { hist: vec![], contents: f.contents() }];
    drop(f);
    let mut lo = 0;
    let mut depth = 0;
    let mut complete = true;
    while lo < all.len() && !ctx.stopped() {
        let idx: Vec<usize> = (lo..all.len()).collect();
        lo = all.len();
        let next = ctx.par_map(&idx, |slot, &i| {
            let st = &all[i];
            let mut out: Vec<(u128, F::O, Vec<(usize, Vec<i64>)>)> = vec![];
            for o in ops(&st.contents) {
                if slot.ctx.stopped() {
                    break;
                }
                let r = slot.case(
                    |s| case_text::<F>(&st.hist, &[o], s),
                    |steps| {
                        run_fam::<F, _>(&st.hist, &[o], obs, leak, steps, |f| {
                            let fp = hash_fp(&f.print());
                            let b = alloc_balance();
                            let c = f.contents();
                            LOOK_BLOCKS.with(|x| x.set(alloc_balance() - b));
                            (fp, c)
                        })
                    },
                );
                if let Some((fp, c)) = r {
                    slot.outcome(fp as u64);
                    if within(&c) {
                        out.push((fp, o, c));
                    }
                }
            }
            out
        });
        let base = idx[0];
        for (i, r) in next.into_iter().enumerate() {
            for (fp, o, c) in r.into_iter().flatten() {
                if seen.len() >= max_states {
                    complete = false;
                    break;
                }
                if seen.insert(fp) {
                    let mut hist = all[base + i].hist.clone();
                    hist.push(o);
                    all.push(FState { hist, contents: c });
                }
            }
        }
        depth += 1;
    }
    ctx.add_states(all.len() as u64);
    ctx.note(format!(
        "{label} {}: {} canonical families (contents, shape and sharing), {}, depth {depth}",
        F::NAME,
        all.len(),
        if complete && !ctx.stopped() { "search complete (fixpoint)" } else { "state cap reached" }
    ));
    all
}

pub fn union_keys(c: &[(usize, Vec<i64>)]) -> Vec<i64> {
    let mut u: Vec<i64> = c.iter().flat_map(|x| x.1.iter().copied()).collect();
    u.sort_unstable();
    u.dedup();
    u
}

fn masks(n: usize) -> Vec<i64> {
    if n <= 3 {
        (0..1i64 << n).collect()
    } else {
        let all = (1i64 << n.min(60)) - 1;
        vec![0, all, 0x5555_5555_5555 & all, 1, 1 << (n - 1), all & !1, all & !(1 << (n / 2))]
    }
}

/// Every operation of the map interface on a small family.
pub fn fam_ops<M: MapSub>(c: &[(usize, Vec<i64>)], d: usize, hmax: usize) -> Vec<Op> {
    let u = union_keys(c);
    let live = c.len();
    let mut v = vec![];
    for (h, keys) in c {
        let h = *h;
        let n = keys.len();
        if u.len() < d {
            for g in 0..=u.len() {
                v.push(op(OpK::Ins, h, gap_key(&u, g), 0));
            }
        }
        for k in &u {
            v.push(op(OpK::Ins, h, *k, 0));
        }
        for k in keys {
            v.push(op(OpK::Rem, h, *k, 0));
            v.push(op(OpK::GetMut, h, *k, 0));
        }
        v.push(op(OpK::Rem, h, gap_key(&u, u.len() / 2), 0));
        v.push(op(OpK::IterMut, h, 0, 0));
        v.push(op(OpK::IterMutEnds, h, 1, 1));
        v.push(op(OpK::IterMutEnds, h, 0, 2));
        v.push(op(OpK::Clear, h, 0, 0));
        v.push(op(OpK::Rebuild, h, 0, 0));
        if let (Some(a), Some(b)) = (u.first(), u.last()) {
            v.push(op(OpK::Extend, h, *a, *b));
        }
        for (a, b) in [(0, 0), (1, 0), (0, 1), (1, 1), (n as i64, 0)] {
            v.push(op(OpK::IntoPart, h, a, b));
        }
        if live < hmax {
            v.push(op(OpK::Clone, h, 0, 0));
        }
        if live > 1 {
            v.push(op(OpK::DropH, h, 0, 0));
            for (a, b, c) in [(1, 0, 0), (0, 1, 4), (1, 1, 8), (1, 1, 1), (0, 1, 3)] {
                v.push(Op { c, ..op(OpK::IntoShare, h, a, b) });
            }
            for (a, b, c) in [(1, 0, 0), (0, 1, 4), (1, 1, 1), (0, 1, 3)] {
                v.push(Op { c, ..op(OpK::IterMutShare, h, a, b) });
            }
            if live < hmax {
                v.push(Op { c: 2, ..op(OpK::IterMutShare, h, 1, 0) });
                v.push(Op { c: 2, ..op(OpK::IntoShare, h, 1, 0) });
            }
        }
        for (g, _) in c {
            if *g != h {
                v.push(op(OpK::Assign, h, *g as i64, 0));
                v.push(op(OpK::CloneFrom, h, *g as i64, 0));
            }
        }
        if !M::RICH {
            continue;
        }
        v.push(op(OpK::PopF, h, 0, 0));
        v.push(op(OpK::PopL, h, 0, 0));
        v.push(op(OpK::ValuesMut, h, 0, 0));
        v.push(op(OpK::MutInto, h, 0, 0));
        v.push(op(OpK::IntoKeys, h, 0, 0));
        v.push(op(OpK::IntoValues, h, 0, 0));
        for m in masks(n) {
            v.push(op(OpK::Retain, h, m, 0));
        }
        if live < hmax {
            for k in keys {
                v.push(op(OpK::SplitOff, h, *k, 0));
            }
            v.push(op(OpK::SplitOff, h, gap_key(&u, u.len()), 0));
        }
        for k in &u {
            for e in [0, 2, 5] {
                v.push(op(OpK::Entry, h, *k, e));
            }
            v.push(Op { c: 3, ..op(OpK::RangeMut, h, *k, 0) });
            v.push(Op { c: 2, ..op(OpK::RangeMut, h, 0, *k) });
        }
        if u.len() < d {
            v.push(op(OpK::Entry, h, gap_key(&u, u.len() / 2), 3));
        }
        v.push(op(OpK::FirstEntry, h, 0, 4));
        v.push(op(OpK::LastEntry, h, 0, 5));
        v.push(op(OpK::AppendSelfClone, h, h as i64, 0));
        for (g, _) in c {
            let g = *g;
            if g != h {
                v.push(op(OpK::Append, h, g as i64, 0));
                v.push(op(OpK::AppendSelfClone, h, g as i64, 0));
                if M::KIND == Kind::Avl {
                    v.push(op(OpK::ExtendRefs, h, g as i64, 0));
                }
            }
            if M::KIND == Kind::Avl {
                for b in 0..4 {
                    if live < hmax {
                        v.push(op(OpK::BulkOp, h, g as i64, b));
                    }
                    if g != h {
                        v.push(Op { c: 3, ..op(OpK::BulkOp, h, g as i64, b) });
                        v.push(Op { c: 1, ..op(OpK::BulkOp, h, g as i64, b) });
                        v.push(Op { c: 2, ..op(OpK::BulkOp, h, g as i64, b) });
                    }
                }
            }
        }
        match M::KIND {
            Kind::Avl => {
                v.push(op(OpK::ForEachMut, h, 0, 0));
                for k in keys {
                    v.push(op(OpK::RemEntry, h, *k, 0));
                }
            }
            Kind::BTree => v.push(op(OpK::IntoVec, h, 0, 0)),
            _ => (),
        }
    }
    v
}

/// Every operation of the set interface on a small family.
pub fn sfam_ops<S: SetSub>(c: &[(usize, Vec<i64>)], d: usize, hmax: usize) -> Vec<SOp> {
    let u = union_keys(c);
    let live = c.len();
    let mut v = vec![];
    for (h, keys) in c {
        let h = *h;
        let n = keys.len();
        if u.len() < d {
            for g in 0..=u.len() {
                v.push(sop(SK::Ins, h, gap_key(&u, g), 0));
            }
        }
        for k in &u {
            v.push(sop(SK::Replace, h, *k, 0));
        }
        for k in keys {
            v.push(sop(SK::Ins, h, *k, 0));
            v.push(sop(SK::Rem, h, *k, 0));
            v.push(sop(SK::Take, h, *k, 0));
        }
        v.push(sop(SK::Rem, h, gap_key(&u, u.len() / 2), 0));
        v.push(sop(SK::Clear, h, 0, 0));
        v.push(sop(SK::Rebuild, h, 0, 0));
        v.push(sop(SK::PopF, h, 0, 0));
        v.push(sop(SK::PopL, h, 0, 0));
        if let (Some(a), Some(b)) = (u.first(), u.last()) {
            v.push(sop(SK::Extend, h, *a, *b));
        }
        for (a, b) in [(0, 0), (1, 0), (0, 1), (1, 1), (n as i64, 0)] {
            v.push(sop(SK::IntoPart, h, a, if S::AVL { 0 } else { b }));
        }
        for m in masks(n) {
            v.push(sop(SK::Retain, h, m, 0));
        }
        if live < hmax {
            v.push(sop(SK::Clone, h, 0, 0));
            for k in keys {
                v.push(sop(SK::SplitOff, h, *k, 0));
            }
            v.push(sop(SK::SplitOff, h, gap_key(&u, u.len()), 0));
        }
        if live > 1 {
            v.push(sop(SK::DropH, h, 0, 0));
        }
        v.push(sop(SK::AppendClone, h, h as i64, 0));
        for (g, _) in c {
            let g = *g;
            if g != h {
                v.push(sop(SK::Assign, h, g as i64, 0));
                v.push(sop(SK::CloneFrom, h, g as i64, 0));
                v.push(sop(SK::Append, h, g as i64, 0));
                v.push(sop(SK::AppendClone, h, g as i64, 0));
                v.push(sop(SK::ExtendRefs, h, g as i64, 0));
            }
            for b in 0..4 {
                if live < hmax {
                    v.push(sop(SK::OpNew, h, g as i64, b));
                    v.push(sop(SK::OpRef, h, g as i64, b));
                }
                if g != h {
                    v.push(SOp { c: 3, ..sop(SK::OpNew, h, g as i64, b) });
                    v.push(SOp { c: 1, ..sop(SK::OpNew, h, g as i64, b) });
                    v.push(SOp { c: 2, ..sop(SK::OpNew, h, g as i64, b) });
                }
            }
        }
    }
    v
}

pub fn limits(d: usize, h: usize) -> impl Fn(&[(usize, Vec<i64>)]) -> bool + Sync {
    move |c| !c.is_empty() && c.len() <= h && union_keys(c).len() <= d
}

fn map_family<M: MapSub>(ctx: &Ctx, d: usize, h: usize, cap: usize, obs: Obs, leak: bool) {
    fbfs::<Fam<M>>(
        ctx,
        &format!("families of at most {h} handles over at most {d} keys,"),
        cap,
        obs,
        leak,
        &limits(d, h),
        &move |c| fam_ops::<M>(c, d, h),
    );
}
fn set_family<S: SetSub>(ctx: &Ctx, d: usize, h: usize, cap: usize, obs: Obs, leak: bool) {
    fbfs::<SFam<S>>(
        ctx,
        &format!("families of at most {h} handles over at most {d} elements,"),
        cap,
        obs,
        leak,
        &limits(d, h),
        &move |c| sfam_ops::<S>(c, d, h),
    );
}

/// The operations tried on a larger tree.
pub fn big_ops<M: MapSub>(keys: &[i64], h: usize, step: usize, shared: bool) -> Vec<Op> {
    let mut v = vec![];
    let n = keys.len();
    for i in (0..n).step_by(step) {
        let k = keys[i];
        v.push(op(OpK::Rem, h, k, 0));
        v.push(op(OpK::GetMut, h, k, 0));
        v.push(op(OpK::Ins, h, k, 0));
        v.push(op(OpK::Ins, h, gap_key(keys, i), 0));
        if M::RICH {
            v.push(op(OpK::SplitOff, h, k, 0));
            v.push(op(OpK::Entry, h, k, 5));
            v.push(op(OpK::Entry, h, gap_key(keys, i), 1));
            v.push(Op { c: 3, ..op(OpK::RangeMut, h, k, 0) });
            v.push(Op { c: 2, ..op(OpK::RangeMut, h, 0, k) });
        }
        v.push(op(OpK::IntoPart, h, i as i64, 0));
        v.push(op(OpK::IntoPart, h, 0, i as i64));
        v.push(op(OpK::IntoPart, h, i as i64 / 2, (n - i) as i64 / 2));
        v.push(op(OpK::IterMutEnds, h, i as i64, 0));
        v.push(op(OpK::IterMutEnds, h, i as i64 / 2, (n - i) as i64 / 2));
        if shared {
            let (i, n) = (i as i64, n as i64);
            for (a, b, c) in
                [(i, 0, 0), (0, i, 4), (i, 0, 8), (i / 2, i / 2, 4), (i, 0, 1), (0, i, 6), (i, 0, 3), ((n - i) / 2, i / 2, 12)]
            {
                v.push(Op { c, ..op(OpK::IntoShare, h, a, b) });
                v.push(Op { c, ..op(OpK::IterMutShare, h, a, b) });
            }
        }
    }
    v.push(op(OpK::IterMut, h, 0, 0));
    v.push(op(OpK::Clear, h, 0, 0));
    v.push(op(OpK::Rebuild, h, 0, 0));
    if M::RICH {
        v.push(op(OpK::PopF, h, 0, 0));
        v.push(op(OpK::PopL, h, 0, 0));
        v.push(op(OpK::ValuesMut, h, 0, 0));
        v.push(op(OpK::IntoKeys, h, 0, 0));
        v.push(op(OpK::IntoValues, h, 0, 0));
        v.push(op(OpK::AppendSelfClone, h, h as i64, 0));
        for m in [0i64, -1 >> 1, 0x5555_5555_5555_5555, 0x3FFF_FFFF, 0x7FFF_FFFE_0000_0000, 0x0F0F_0F0F_0F0F_0F0F] {
            v.push(op(OpK::Retain, h, m & i64::MAX, 0));
        }
    }
    if M::KIND == Kind::Avl {
        v.push(op(OpK::ForEachMut, h, 0, 0));
    }
    v
}

/// Sharing patterns of handle 0 with others.  `i` is an edit position.
pub const SHARING: [&str; 7] = ["none", "clone", "edited-clone", "edited-self", "two-clones", "crowd", "many"];
pub fn share(pattern: &str, keys: &[i64], i: usize) -> Vec<Op> {
    let n = keys.len();
    let k = keys[i.min(n - 1)];
    match pattern {
        "none" => vec![],
        "clone" => vec![op(OpK::Clone, 0, 0, 0)],
        "edited-clone" => vec![op(OpK::Clone, 0, 0, 0), op(OpK::GetMut, 1, k, 0)],
        "edited-self" => vec![op(OpK::Clone, 0, 0, 0), op(OpK::GetMut, 0, k, 0)],
        // high counts: at the root; at everything beside one path
        "many" => vec![op(OpK::Clone, 0, 0, 0); 5],
        "crowd" => (1..=5).flat_map(|h| [op(OpK::Clone, 0, 0, 0), op(OpK::GetMut, h, k, 0)]).collect(),
        _ => vec![
            op(OpK::Clone, 0, 0, 0),
            op(OpK::GetMut, 1, k, 0),
            op(OpK::Clone, 1, 0, 0),
            op(OpK::Rem, 2, keys[(i + n / 2) % n], 0),
        ],
    }
}

/// Every state with every sharing pattern at every edit position.
pub fn shared_states(st: &[State]) -> Vec<FState<Op>> {
    let mut items = vec![];
    for s in st.iter().filter(|s| !s.keys.is_empty()) {
        let n = s.keys.len();
        for pat in SHARING {
            for e in 0..if matches!(pat, "none" | "clone" | "many") { 1 } else { n } {
                let mut h = s.hist.clone();
                h.extend(share(pat, &s.keys, e));
                let mut c = vec![(0, s.keys.clone())];
                if pat != "none" {
                    c.push((1, s.keys.clone()));
                }
                if pat == "two-clones" {
                    let mut k = s.keys.clone();
                    k.remove((e + n / 2) % n);
                    c.push((2, k));
                }
                items.push(FState { hist: h, contents: c });
            }
        }
    }
    items
}

fn big<M: MapSub>(ctx: &Ctx, sizes: &[usize], edits: usize, step: usize, patterns: &[&str], leak: bool) {
    for p in patterns {
        for &n in sizes {
            let st = seed(p, n);
            let n = st.keys.len();
            let mut items = vec![];
            for pat in SHARING {
                let es: Vec<usize> = match pat {
                    "none" | "clone" | "many" => vec![0],
                    _ => (0..edits).map(|e| e * (n - 1) / (edits - 1).max(1)).collect(),
                };
                for e in es {
                    let sh = share(pat, &st.keys, e);
                    for o in big_ops::<M>(&st.keys, 0, step, pat != "none") {
                        items.push((sh.clone(), o));
                    }
                    if pat == "edited-clone" || pat == "edited-self" {
                        // operations that combine the two handles
                        if M::RICH {
                            for (a, b) in [(0, 1), (1, 0)] {
                                items.push((sh.clone(), op(OpK::Append, a, b, 0)));
                                items.push((sh.clone(), op(OpK::AppendSelfClone, a, b, 0)));
                            }
                        }
                        items.push((sh.clone(), op(OpK::Assign, 0, 1, 0)));
                        items.push((sh.clone(), op(OpK::CloneFrom, 0, 1, 0)));
                        items.push((sh.clone(), op(OpK::DropH, 0, 0, 0)));
                        if M::KIND == Kind::Avl {
                            for b in 0..4 {
                                for c in 0..4 {
                                    items.push((sh.clone(), Op { c, ..op(OpK::BulkOp, 0, 1, b) }));
                                }
                            }
                        }
                    }
                }
            }
            ctx.par_for(&items, |slot, (sh, o)| {
                let mut h = st.hist.clone();
                h.extend_from_slice(sh);
                slot.case(
                    |s| case_text::<Fam<M>>(&h, &[*o], s),
                    |steps| run_fam::<Fam<M>, _>(&h, &[*o], Obs::Full, leak, steps, |_| ()),
                );
            });
        }
    }
    ctx.note(format!(
        "larger families {}: patterns {patterns:?}, sizes {sizes:?}, sharing {SHARING:?} with {edits} edit positions, then every operation at every {step}th position",
        M::NAME
    ));
}

/// Every shape, every sharing pattern with every edit position, every operation.
fn shape_share<M: MapSub>(ctx: &Ctx, max_n: usize, obs: Obs, leak: bool) {
    let st = shapes::<M>(ctx, max_n, 1 << 18);
    let st: Vec<&State> = st.iter().filter(|s| !s.keys.is_empty()).collect();
    ctx.par_for(&st, |slot, s| {
        let n = s.keys.len();
        for pat in SHARING {
            let es = match pat {
                "none" | "clone" | "many" => 1,
                _ => n,
            };
            for e in 0..es {
                let mut h = s.hist.clone();
                h.extend(share(pat, &s.keys, e));
                let mut c = vec![(0, s.keys.clone())];
                if pat != "none" {
                    c.push((1, s.keys.clone()));
                }
                if pat == "two-clones" {
                    let mut k = s.keys.clone();
                    k.remove((e + n / 2) % n);
                    c.push((2, k));
                }
                for o in fam_ops::<M>(&c, n + 1, c.len() + 1) {
                    if slot.ctx.stopped() {
                        return;
                    }
                    slot.case(
                        |s| case_text::<Fam<M>>(&h, &[o], s),
                        |steps| run_fam::<Fam<M>, _>(&h, &[o], obs, leak, steps, |_| ()),
                    );
                }
            }
        }
    });
    ctx.note(format!(
        "shapes x sharing {}: {} shapes of at most {max_n} entries x {SHARING:?} at every edit position x every operation",
        M::NAME,
        st.len()
    ));
}

/// families of big maps: every operation at the ends, the middle and around
/// the powers of two
fn scale<M: MapSub>(ctx: &Ctx, sizes: &[usize], leak: bool) {
    let mut items = vec![];
    for p in BIG_PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            let few = at_places(&st.keys);
            for pat in SHARING {
                let e = if matches!(pat, "none" | "clone" | "many") { 0 } else { st.keys.len() / 3 };
                let sh = share(pat, &st.keys, e);
                for (i, mut o) in big_ops::<M>(&few, 0, 1, pat != "none").into_iter().enumerate() {
                    if matches!(o.k, OpK::IntoPart | OpK::IterMutEnds | OpK::IntoShare | OpK::IterMutShare) {
                        // counts of items from the two ends
                        let f = (st.keys.len() / few.len()) as i64;
                        o.a *= f;
                        o.b *= f;
                    }
                    if few.len() < 10 || i % 5 == items.len() % 5 || matches!(o.k, OpK::Rem | OpK::GetMut | OpK::Ins | OpK::SplitOff) {
                        items.push((st.clone(), sh.clone(), o));
                    }
                }
            }
        }
    }
    ctx.par_for(&items, |slot, (st, sh, o)| {
        let mut h = st.hist.clone();
        h.extend_from_slice(sh);
        slot.case(
            |s| case_text::<Fam<M>>(&h, &[*o], s),
            |steps| run_fam::<Fam<M>, _>(&h, &[*o], Obs::Light, leak, steps, |_| ()),
        );
    });
    ctx.note(format!("big families {}: sizes {sizes:?}, patterns {BIG_PATTERNS:?} x {SHARING:?}: {} cases", M::NAME, items.len()));
}

fn explore(ctx: &Ctx, leak: bool) {
    let obs = if leak { Obs::Light } else { Obs::Full };
    let t = ctx.thorough();
    let cap = if t { 300_000 } else { 12_000 };
    let x = |q: usize, th: usize| if t { th } else { q };
    map_family::<Avl>(ctx, x(5, 6), 2, cap, obs, leak);
    map_family::<Avl>(ctx, x(3, 4), 3, cap, obs, leak);
    map_family::<Bt<1>>(ctx, x(7, 8), 2, cap, obs, leak);
    map_family::<Bt<1>>(ctx, x(4, 5), 3, cap, obs, leak);
    map_family::<Bt<2>>(ctx, x(7, 9), 2, cap, obs, leak);
    map_family::<Fixed>(ctx, x(12, 13), 2, cap, obs, leak);
    set_family::<AvlS>(ctx, x(4, 5), 2, cap, obs, leak);
    set_family::<BtS<1>>(ctx, x(5, 7), 2, cap, obs, leak);
    set_family::<BtS<2>>(ctx, x(6, 7), 2, cap, obs, leak);
    stack_family(ctx, x(4, 5), x(2, 3), cap, leak);
    stack_family(ctx, 3, x(3, 4), cap, leak);
    // more handles
    map_family::<Avl>(ctx, x(2, 3), 4, cap, obs, leak);
    map_family::<Bt<1>>(ctx, 3, 4, cap, obs, leak);
    map_family::<Fixed>(ctx, 2, 4, cap, obs, leak);
    set_family::<BtS<1>>(ctx, x(2, 3), 4, cap, obs, leak);
    stack_family(ctx, 2, x(4, 5), cap, leak);
    longer(ctx, &[12, 300], x(21, 5));
    shape_share::<Avl>(ctx, x(6, 9), obs, leak);
    shape_share::<Bt<1>>(ctx, x(8, 11), obs, leak);
    shape_share::<Bt<2>>(ctx, x(8, 14), obs, leak);
    shape_share::<Bt<3>>(ctx, x(8, 17), obs, leak);
    shape_share::<Bt<5>>(ctx, x(12, 18), obs, leak);
    shape_share::<Fixed>(ctx, x(18, 26), obs, leak);
    shape_share::<Narrow>(ctx, x(13, 22), obs, leak);
    let sz: &[usize] = if t { &[300, 1200, 3000] } else { &[300, 1200] };
    scale::<Avl>(ctx, sz, leak);
    scale::<Bt<1>>(ctx, sz, leak);
    scale::<Bt<2>>(ctx, sz, leak);
    scale::<Bt<5>>(ctx, sz, leak);
    scale::<Bt<16>>(ctx, sz, leak);
    scale::<Fixed>(ctx, sz, leak);
    let pats: &[&str] = &PATTERNS;
    big::<Avl>(ctx, if t { &[33, 90, 200] } else { &[33, 60] }, x(5, 13), x(2, 1), pats, leak);
    big::<Bt<1>>(ctx, if t { &[33, 90, 200] } else { &[33, 60] }, x(5, 13), x(2, 1), pats, leak);
    big::<Bt<2>>(ctx, if t { &[60, 130] } else { &[60] }, x(4, 9), x(3, 1), pats, leak);
    big::<Bt<3>>(ctx, if t { &[80, 200] } else { &[80] }, x(3, 9), x(4, 1), pats, leak);
    big::<Bt<5>>(ctx, if t { &[84, 300] } else { &[84, 160] }, x(4, 9), x(5, 2), pats, leak);
    big::<Fixed>(ctx, if t { &[84, 300] } else { &[84, 160] }, x(4, 9), x(5, 2), pats, leak);
    big::<Narrow>(ctx, &[84], x(4, 9), x(8, 2), pats, leak);
}

pub fn explore_c02(ctx: &Ctx) {
    explore(ctx, false)
}
pub fn explore_c08(ctx: &Ctx) {
    explore(ctx, true)
}

/// replay a history, observing everything after every operation
pub fn replay(case: &str, leak: bool) -> Result<(), String> {
    let _ = take_fault();
    let (word, rest) = case.split_once(' ').ok_or("bad case")?;
    let (name, ops) = rest.split_once(' ').ok_or("bad case")?;
    fn go<F: Family>(ops: &str, leak: bool) -> Result<(), String> {
        let ops = F::parse(ops)?;
        let mut n = 0;
        // the same conditions as in the exploration first, then with
        // observation after every step
        let at = ops.len().saturating_sub(1);
        run_fam::<F, _>(&ops[..at], &ops[at..], Obs::Full, leak, &mut n, |_| ())?;
        run_fam::<F, _>(&[], &ops, Obs::Full, leak, &mut n, |_| ())
    }
    fn gm<M: MapSub>(ops: &str, leak: bool) -> Result<(), String> {
        go::<Fam<M>>(ops, leak)
    }
    fn gs<S: SetSub>(ops: &str, leak: bool) -> Result<(), String> {
        go::<SFam<S>>(ops, leak)
    }
    match word {
        "map" => for_map!(name, gm, ops, leak),
        "set" => for_set!(name, gs, ops, leak),
        "stack" => go::<TFam>(ops, leak),
        _ => Err("bad case".into()),
    }
}
pub fn replay_c02(case: &str) -> Result<(), String> {
    replay(case, false)
}
pub fn replay_c08(case: &str) -> Result<(), String> {
    replay(case, true)
}

#[allow(dead_code)]
fn unused() {
    let _ = c01::replay;
}
