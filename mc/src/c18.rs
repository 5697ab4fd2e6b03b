//! C18: every history of single-set operations agrees with a sorted set.

use crate::elem::*;
use crate::engine::*;
use crate::machine::*;
use crate::setm::*;
use crate::shapes::*;
use crate::subj::*;
use crate::ensure;

fn masks(n: usize) -> Vec<i64> {
    if n <= 5 {
        (0..1i64 << n).collect()
    } else {
        let all = (1i64 << n.min(62)) - 1;
        let mut v = vec![0, all, 0x5555_5555_5555_5555 & all, 0x2AAA_AAAA_AAAA_AAAA & all];
        for i in 0..n.min(62) {
            v.push(1 << i);
            v.push(all & !(1 << i));
            v.push((1 << i) - 1);
            v.push(all & !((1 << i) - 1));
        }
        v.sort_unstable();
        v.dedup();
        v
    }
}

/// operations that keep a single handle
fn single<S: SetSub>(keys: &[i64], max_n: usize) -> Vec<SOp> {
    let n = keys.len();
    let mut v = vec![];
    for (i, k) in keys.iter().enumerate() {
        v.push(sop(SK::Ins, 0, *k, 0));
        v.push(sop(SK::Replace, 0, *k, 0));
        v.push(sop(if i % 2 == 0 { SK::Rem } else { SK::RemK }, 0, *k, 0));
        v.push(sop(if i % 2 == 0 { SK::TakeK } else { SK::Take }, 0, *k, 0));
    }
    for g in 0..=n {
        let k = gap_key(keys, g);
        if n < max_n {
            v.push(sop(SK::Ins, 0, k, 0));
            v.push(sop(SK::Replace, 0, k, 0));
        }
        v.push(sop(SK::Rem, 0, k, 0));
        v.push(sop(SK::Take, 0, k, 0));
    }
    v.push(sop(SK::Clear, 0, 0, 0));
    v.push(sop(SK::Rebuild, 0, 0, 0));
    v.push(sop(SK::PopF, 0, 0, 0));
    v.push(sop(SK::PopL, 0, 0, 0));
    if let (Some(a), Some(b)) = (keys.first(), keys.last()) {
        v.push(sop(SK::Extend, 0, *a, *b));
        if n + 2 <= max_n {
            v.push(sop(SK::Extend, 0, gap_key(keys, n), gap_key(keys, 0)));
        }
    }
    v
}

/// operations that end a case: bulk operations, splits, all sequences of the kind
fn ending<S: SetSub>(keys: &[i64]) -> Vec<SOp> {
    let n = keys.len();
    let mut v = vec![];
    for m in masks(n) {
        v.push(sop(SK::Retain, 0, m, 0));
    }
    for g in 0..=n {
        v.push(sop(SK::SplitOff, 0, gap_key(keys, g), 0));
    }
    for k in keys {
        v.push(sop(SK::SplitOff, 0, *k, 0));
    }
    v.push(sop(SK::AppendClone, 0, 0, 0));
    for i in 0..=n as i64 {
        v.push(sop(SK::IntoPart, 0, i, if S::AVL { 0 } else { (n as i64 - i) / 2 }));
    }
    v
}

fn shapes_all<S: SetSub>(ctx: &Ctx, n: usize, cap: usize) {
    let st = sbfs::<S>(ctx, "all single-set operations", n, cap, Obs::Full, &move |k: &[i64]| single::<S>(k, n));
    let total = st.len();
    ctx.par_for(&st, |slot, s| {
        for o in ending::<S>(&s.keys) {
            if slot.ctx.stopped() {
                return;
            }
            let mut h = s.hist.clone();
            h.push(o);
            run_set_case::<S>(slot, &h, h.len() - 1, Obs::Full);
            // the result must still work as a set: two more operations
            if s.keys.len() <= 6 && matches!(o.k, SK::Retain | SK::SplitOff) {
                let mut h2 = h.clone();
                h2.push(sop(SK::Ins, 0, gap_key(&s.keys, s.keys.len() / 2) + 1, 0));
                h2.push(sop(SK::PopF, 0, 0, 0));
                if o.k == SK::SplitOff {
                    h2.push(sop(SK::Append, 0, 1, 0));
                    h2.push(sop(SK::Ins, 1, 5, 0));
                }
                run_set_case::<S>(slot, &h2, h2.len() - 2, Obs::Full);
            }
        }
    });
    ctx.note(format!(
        "endings {}: {total} shapes x every retain mask, split_off at every element and gap, append of a clone, partial consumption",
        S::NAME
    ));
}

/// every pair of sets over d elements, appended
fn appends<S: SetSub>(ctx: &Ctx, d: usize) {
    let mut pl: Vec<(Vec<i64>, Vec<SOp>)> = vec![];
    let all = sshapes::<S>(ctx, d);
    for mask in 0u32..1 << d {
        let t: Vec<i64> = (0..d as i64).filter(|i| mask >> i & 1 == 1).map(|i| i * SP).collect();
        for st in all.iter().filter(|s| s.keys.len() == t.len()) {
            pl.push((t.clone(), sremap(&st.hist, &st.keys, &t, 0)));
        }
    }
    let idx: Vec<usize> = (0..pl.len()).collect();
    ctx.par_for(&idx, |slot, &i| {
        for r in &pl {
            if slot.ctx.stopped() {
                return;
            }
            let mut h = pl[i].1.clone();
            h.push(sop(SK::New, 0, 0, 0));
            h.extend(r.1.iter().map(|o| SOp { h: 1, ..*o }));
            h.push(sop(SK::Append, 0, 1, 0));
            run_set_case::<S>(slot, &h, h.len() - 1, Obs::Full);
        }
    });
    ctx.note(format!("append {}: all {}^2 pairs of sets (contents over {d} elements x shapes)", S::NAME, pl.len()));
}

/// every sequence of `depth` operations from a fixed alphabet
fn sequences<S: SetSub>(ctx: &Ctx, nkeys: i64, depth: usize) {
    let mut alpha = vec![];
    for k in 0..nkeys {
        alpha.push(sop(SK::Ins, 0, 10 * k, 0));
        alpha.push(sop(SK::Take, 0, 10 * k, 0));
    }
    alpha.push(sop(SK::Replace, 0, 10, 0));
    alpha.push(sop(SK::PopF, 0, 0, 0));
    alpha.push(sop(SK::PopL, 0, 0, 0));
    alpha.push(sop(SK::Retain, 0, 0b0101, 0));
    alpha.push(sop(SK::Extend, 0, 0, 20));
    let na = alpha.len();
    let total = na.pow(depth as u32);
    let items: Vec<usize> = (0..total).step_by(64).collect();
    ctx.par_for(&items, |slot, &lo| {
        for x in lo..(lo + 64).min(total) {
            if slot.ctx.stopped() {
                return;
            }
            let mut ops = Vec::with_capacity(depth);
            let mut y = x;
            for _ in 0..depth {
                ops.push(alpha[y % na]);
                y /= na;
            }
            run_set_case::<S>(slot, &ops, ops.len() - 2, Obs::Light);
        }
    });
    ctx.note(format!("sequences {}: all {total} sequences of {depth} operations from an alphabet of {na}", S::NAME));
}

/// construction and extension from every short sequence of elements
fn streams<S: SetSub>(ctx: &Ctx, len: i64, digits: i64) {
    let mut items = vec![];
    for n in 0..=len {
        for x in 0..digits.pow(n as u32) {
            let mut a = 0;
            let mut y = x;
            for i in 0..n {
                a |= (y % digits) << (3 * i);
                y /= digits;
            }
            for c in [0u8, 1, 3, 2] {
                if c == 2 && n != 3 {
                    continue;
                }
                items.push((a, n, c));
            }
        }
    }
    ctx.par_for(&items, |slot, &(a, n, c)| {
        let mut h = vec![];
        if c == 1 {
            for k in [5i64, 10, 25] {
                h.push(sop(SK::Ins, 0, k, 0));
            }
        }
        h.push(SOp { c, ..sop(SK::FromSeq, 0, a, n) });
        run_set_case::<S>(slot, &h, h.len() - 1, Obs::Full);
    });
    ctx.note(format!(
        "streams {}: collect, extend, extend by reference and array construction from all sequences of up to {len} elements over {digits} values",
        S::NAME
    ));
}

fn seeds<S: SetSub>(ctx: &Ctx, sizes: &[usize], drains: &[usize]) {
    for p in PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            let hist = to_sops(&st.hist);
            let mut ops = single::<S>(&st.keys, usize::MAX);
            ops.extend(ending::<S>(&st.keys));
            ctx.par_for(&ops, |slot, o| {
                let mut h = hist.clone();
                h.push(*o);
                run_set_case::<S>(slot, &h, h.len() - 1, Obs::Full);
            });
        }
        for &n in drains {
            let st = seed(p, n);
            let hist = to_sops(&st.hist);
            let starts: Vec<usize> = (0..st.keys.len()).collect();
            ctx.par_for(&starts, |slot, &i| {
                let mut h = hist.clone();
                let mut keys = st.keys.clone();
                let mut j = 0;
                while !keys.is_empty() {
                    let k = keys.remove(i.min(keys.len() - 1));
                    j += 1;
                    h.push(sop(if j % 2 == 0 { SK::Take } else { SK::Rem }, 0, k, 0));
                }
                run_set_case::<S>(slot, &h, hist.len(), Obs::Light);
            });
        }
    }
    ctx.note(format!(
        "seeds {}: patterns {PATTERNS:?}; every single operation, retain mask and split at sizes {sizes:?}, every positional drain at sizes {drains:?}",
        S::NAME
    ));
}

/// sets of many hundred elements: every operation at the ends, the middle and
/// around the powers of two
fn scale<S: SetSub>(ctx: &Ctx, sizes: &[usize]) {
    let mut items = vec![];
    for p in BIG_PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            let few = at_places(&st.keys);
            let mut ops = single::<S>(&few, usize::MAX);
            ops.extend(ending::<S>(&few));
            for o in ops {
                items.push((st.clone(), o));
            }
        }
    }
    ctx.par_for(&items, |slot, (st, o)| {
        let mut h = to_sops(&st.hist);
        h.push(*o);
        run_set_case::<S>(slot, &h, h.len() - 1, Obs::Full);
    });
    ctx.note(format!("big {}: sizes {sizes:?}, patterns {BIG_PATTERNS:?}, {} operations", S::NAME, items.len()));
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    let x = |q: usize, th: usize| if t { th } else { q };
    let cap = if t { 200_000 } else { 3_000 };
    shapes_all::<AvlS>(ctx, x(9, 13), cap);
    shapes_all::<BtS<1>>(ctx, x(10, 14), cap);
    shapes_all::<BtS<2>>(ctx, x(13, 19), cap);
    shapes_all::<BtS<5>>(ctx, x(18, 28), cap);
    crate::plain::explore_sets(ctx);
    appends::<AvlS>(ctx, x(5, 7));
    appends::<BtS<1>>(ctx, x(5, 7));
    appends::<BtS<2>>(ctx, x(6, 8));
    sequences::<AvlS>(ctx, 3, x(5, 7));
    sequences::<BtS<1>>(ctx, 3, x(5, 7));
    streams::<AvlS>(ctx, x(5, 7) as i64, 4);
    streams::<BtS<1>>(ctx, x(5, 7) as i64, 4);
    streams::<BtS<5>>(ctx, x(4, 6) as i64, 4);
    let sz: &[usize] = if t { &[300, 1200, 5000] } else { &[300, 1200] };
    scale::<AvlS>(ctx, sz);
    scale::<BtS<1>>(ctx, sz);
    scale::<BtS<2>>(ctx, sz);
    scale::<BtS<5>>(ctx, sz);
    scale::<BtS<16>>(ctx, sz);
    let sz: &[usize] = if t { &[40, 100, 250] } else { &[40, 90] };
    seeds::<AvlS>(ctx, sz, &[60]);
    seeds::<BtS<1>>(ctx, sz, &[60]);
    seeds::<BtS<2>>(ctx, if t { &[60, 150, 400] } else { &[90] }, &[80]);
    seeds::<BtS<5>>(ctx, if t { &[84, 250, 1000] } else { &[84, 160] }, &[120]);
    seeds::<BtS<16>>(ctx, if t { &[84, 250, 1000] } else { &[84, 160] }, &[120]);
}

pub fn replay(case: &str) -> Result<(), String> {
    let _ = take_fault();
    if case.starts_with("plain") {
        return crate::plain::replay(case);
    }
    ensure!(case.starts_with("set "), "bad case");
    replay_set(case)
}

