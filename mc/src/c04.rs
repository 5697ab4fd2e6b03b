//! C04: bulk operations, for every pair of operands.

use crate::c01::run_map_case;
use crate::engine::*;
use crate::machine::*;
use crate::shapes::*;
use crate::subj::*;

fn pick_hist(st: &State, h: usize) -> Vec<Op> {
    remap(st, &(0..st.keys.len() as i64).map(|i| i * SP).collect::<Vec<_>>(), h)
}

/// Append bulk operations on handles 0 and 1 to `base` and run each.
fn pair_ops<M: MapSub>(slot: &mut Slot, base: &[Op], light: bool) {
    let n = base.len();
    let obs = if light { Obs::Light } else { Obs::Full };
    let mut go = |extra: &[Op]| {
        let mut h = base.to_vec();
        h.extend_from_slice(extra);
        run_map_case::<M>(slot, &h, n, obs);
    };
    go(&[op(OpK::Append, 0, 1, 0)]);
    go(&[op(OpK::AppendSelfClone, 0, 1, 0)]);
    if M::KIND == Kind::Avl {
        for b in 0..4 {
            // both operands kept alive as clones: their contents must not change
            go(&[op(OpK::BulkOp, 0, 1, b)]);
            // both consumed
            go(&[Op { c: 3, ..op(OpK::BulkOp, 0, 1, b) }]);
            if !light {
                go(&[Op { c: 1, ..op(OpK::BulkOp, 0, 1, b) }]);
                go(&[Op { c: 2, ..op(OpK::BulkOp, 0, 1, b) }]);
            }
        }
        if !light {
            go(&[op(OpK::ExtendRefs, 0, 1, 0)]);
        }
    }
}

/// every pair of (subset of a d-element domain, shape of that size)
fn all_pairs<M: MapSub>(ctx: &Ctx, d: usize, light: bool) {
    let l = placed::<M>(ctx, d, 0);
    let r = placed::<M>(ctx, d, 1);
    ctx.par_for(&l, |slot, (_, lh)| {
        for (_, rh) in &r {
            if slot.ctx.stopped() {
                return;
            }
            let mut base = vec![op(OpK::New, 0, 0, 0)];
            base.extend_from_slice(lh);
            base.extend_from_slice(rh);
            pair_ops::<M>(slot, &base, light);
        }
    });
    ctx.note(format!(
        "pairs {}: all {}x{} pairs of operands over a {d}-key domain",
        M::NAME,
        l.len(),
        r.len()
    ));
}

/// pairs of larger trees of different sizes and patterns, in all relations
fn seed_pairs<M: MapSub>(ctx: &Ctx, sizes: &[(usize, usize)], patterns: &[&str]) {
    let mut items = vec![];
    for &(n, m) in sizes {
        for rel in RELATIONS {
            for p in patterns {
                for q in patterns {
                    items.push((n, m, rel, *p, *q));
                }
            }
        }
    }
    ctx.par_for(&items, |slot, &(n, m, rel, p, q)| {
        let (l, r) = related(rel, n, m);
        let (a, b) = (seed(p, n), seed(q, r.len()));
        let mut base = vec![op(OpK::New, 0, 0, 0)];
        base.extend(remap(&a, &l[..a.keys.len()], 0));
        base.extend(remap(&b, &r[..b.keys.len()], 1));
        pair_ops::<M>(slot, &base, true);
    });
    ctx.note(format!(
        "large pairs {}: sizes {sizes:?} x relations {RELATIONS:?} x patterns {patterns:?}",
        M::NAME
    ));
}

/// Up to `depth` edits of a map with these keys: insert in a gap, remove,
/// replace a value.
fn edits(keys: &[i64], h: usize, step: usize) -> Vec<Op> {
    let mut v = vec![];
    for i in (0..keys.len()).step_by(step) {
        v.push(op(OpK::Rem, h, keys[i], 0));
        v.push(op(OpK::GetMut, h, keys[i], 0));
        v.push(op(OpK::Ins, h, keys[i], 0));
        v.push(op(OpK::Ins, h, keys[i] - 1, 0));
    }
    v.push(op(OpK::Ins, h, keys.last().map_or(0, |k| k + SP), 0));
    v
}

/// Operands that share structure: a map and a clone of it, each edited.
fn shared_pairs<M: MapSub>(ctx: &Ctx, st: &[State], deep: bool, step: usize, what: &str) {
    let mut items: Vec<(usize, Vec<Op>)> = vec![];
    for (i, s) in st.iter().enumerate() {
        let keys: Vec<i64> = (0..s.keys.len() as i64).map(|i| i * SP).collect();
        items.push((i, vec![]));
        for e in edits(&keys, 1, step) {
            items.push((i, vec![e]));
            if deep {
                for h in [0, 1] {
                    for f in edits(&keys, h, step) {
                        items.push((i, vec![e, f]));
                    }
                }
            }
        }
    }
    ctx.par_for(&items, |slot, (i, e)| {
        let mut base = pick_hist(&st[*i], 0);
        base.push(op(OpK::Clone, 0, 0, 0));
        base.extend_from_slice(e);
        pair_ops::<M>(slot, &base, true);
        // and with the operands exchanged
        if M::KIND == Kind::Avl && !e.is_empty() {
            for b in [0, 2, 3] {
                let mut h = base.clone();
                h.push(op(OpK::BulkOp, 1, 0, b));
                run_map_case::<M>(slot, &h, base.len(), Obs::Light);
            }
        }
        if !e.is_empty() {
            let mut h = base.clone();
            h.push(op(OpK::Append, 1, 0, 0));
            run_map_case::<M>(slot, &h, base.len(), Obs::Light);
        }
    });
    ctx.note(format!(
        "operands sharing structure {}: {what}, the map and its clone after {} edits (insert, remove, replace at every {step}th position), {} pairs",
        M::NAME,
        if deep { "0-2" } else { "0-1" },
        items.len()
    ));
}

fn shared_shape_pairs<M: MapSub>(ctx: &Ctx, max_n: usize) {
    let st = shapes::<M>(ctx, max_n, 1 << 18);
    shared_pairs::<M>(ctx, &st, true, 1, &format!("all shapes of at most {max_n} entries"));
}

fn shared_seed_pairs<M: MapSub>(ctx: &Ctx, sizes: &[usize], pats: &[&str], step: usize) {
    let mut st = vec![];
    for p in pats {
        for n in sizes {
            st.push(seed(p, *n));
        }
    }
    shared_pairs::<M>(ctx, &st, false, 1, &format!("sizes {sizes:?}, patterns {pats:?}"));
    if step > 0 {
        shared_pairs::<M>(ctx, &st, true, step, &format!("sizes {sizes:?}, patterns {pats:?}"));
    }
}

/// split_off at every key and gap, retain with every subset, of every shape;
/// unshared and with a clone kept alive
fn singles<M: MapSub>(ctx: &Ctx, max_n: usize, all_masks_upto: usize) {
    let st = shapes::<M>(ctx, max_n, 1 << 18);
    ctx.par_for(&st, |slot, s| {
        let base = pick_hist(s, 0);
        let n = s.keys.len();
        let mut extra: Vec<Op> = vec![];
        for i in 0..=n as i64 {
            extra.push(op(OpK::SplitOff, 0, i * SP, 0));
            extra.push(op(OpK::SplitOff, 0, i * SP - 1, 0));
        }
        if n <= all_masks_upto {
            for m in 0..1i64 << n {
                extra.push(op(OpK::Retain, 0, m, 0));
            }
        } else {
            extra.extend(mask_family(n).into_iter().map(|m| op(OpK::Retain, 0, m, 0)));
        }
        for e in extra {
            for shared in [false, true] {
                let mut h = base.clone();
                if shared {
                    h.push(op(OpK::Clone, 0, 0, 0));
                }
                h.push(e);
                run_map_case::<M>(slot, &h, h.len() - 1, Obs::Full);
            }
        }
    });
    ctx.note(format!(
        "single {}: split_off at every key and gap and retain with every subset (sizes up to {all_masks_upto}; a mask family above) of all {} shapes with at most {max_n} entries, unshared and shared",
        M::NAME,
        st.len()
    ));
}

/// intervals, stripes and all-but-one / only-one masks
pub fn mask_family(n: usize) -> Vec<i64> {
    let full = if n >= 62 { (1i64 << 62) - 1 } else { (1i64 << n) - 1 };
    let k = n.min(62);
    let mut v = vec![0, full];
    for i in 0..k {
        v.push(1 << i);
        v.push(full & !(1 << i));
        for j in i + 1..=k {
            if k <= 24 || (j - i) % 7 == 0 {
                v.push((1i64 << i) * ((1i64 << (j - i).min(61)) - 1) & full);
            }
        }
    }
    for p in 2..8 {
        for o in 0..p {
            let mut m = 0;
            for i in (o..k).step_by(p) {
                m |= 1 << i;
            }
            v.push(m);
            v.push(full & !m);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn seed_singles<M: MapSub>(ctx: &Ctx, sizes: &[usize]) {
    for p in PATTERNS {
        for &n in sizes {
            let s = seed(p, n);
            let base = pick_hist(&s, 0);
            let n = s.keys.len();
            let mut extra = vec![];
            for i in 0..=n as i64 {
                extra.push(op(OpK::SplitOff, 0, i * SP, 0));
                extra.push(op(OpK::SplitOff, 0, i * SP - 1, 0));
            }
            extra.extend(mask_family(n).into_iter().map(|m| op(OpK::Retain, 0, m, 0)));
            ctx.par_for(&extra, |slot, e| {
                for shared in [false, true] {
                    let mut h = base.clone();
                    if shared {
                        h.push(op(OpK::Clone, 0, 0, 0));
                    }
                    h.push(*e);
                    run_map_case::<M>(slot, &h, h.len() - 1, Obs::Light);
                }
            });
        }
    }
    ctx.note(format!("large single {}: every split and a mask family at sizes {sizes:?}, all patterns", M::NAME));
}

fn scale_singles<M: MapSub>(ctx: &Ctx, sizes: &[usize]) {
    let mut items = vec![];
    for p in BIG_PATTERNS {
        for &n in sizes {
            let s = seed(p, n);
            let n = s.keys.len();
            for k in at_places(&s.keys) {
                items.push((s.clone(), op(OpK::SplitOff, 0, k, 0)));
                items.push((s.clone(), op(OpK::SplitOff, 0, k + 1, 0)));
            }
            for m in mask_family(n) {
                items.push((s.clone(), op(OpK::Retain, 0, m, 0)));
            }
            items.push((s.clone(), op(OpK::Rebuild, 0, 0, 0)));
        }
    }
    ctx.par_for(&items, |slot, (s, e)| {
        for shared in [false, true] {
            let mut h = s.hist.clone();
            if shared {
                h.push(op(OpK::Clone, 0, 0, 0));
            }
            h.push(*e);
            run_map_case::<M>(slot, &h, h.len() - 1, Obs::Light);
        }
    });
    ctx.note(format!("big single {}: sizes {sizes:?}, patterns {BIG_PATTERNS:?}: {} splits and retains", M::NAME, items.len()));
}

/// join of every pair of shapes (and larger seeds of very different heights)
fn joins(ctx: &Ctx, max_n: usize, seeds: &[usize]) {
    let st = shapes::<Avl>(ctx, max_n, 1 << 18);
    let mut ops: Vec<State> = st;
    for &n in seeds {
        for p in ["asc", "mid", "thin", "bitrev"] {
            ops.push(seed(p, n));
        }
    }
    ctx.par_for(&ops, |slot, a| {
        for b in &ops {
            if slot.ctx.stopped() {
                return;
            }
            let n = a.keys.len() as i64;
            let mut base = vec![op(OpK::New, 0, 0, 0)];
            base.extend(pick_hist(a, 0));
            let r: Vec<i64> = (0..b.keys.len() as i64).map(|i| (n + 1 + i) * SP).collect();
            base.extend(remap(b, &r, 1));
            for shared in 0..4 {
                let mut h = base.clone();
                for i in 0..2 {
                    if shared >> i & 1 == 1 {
                        h.push(op(OpK::Clone, i, 0, 0));
                    }
                }
                h.push(op(OpK::Join, 0, n * SP, 1));
                run_map_case::<Avl>(slot, &h, h.len() - 1, Obs::Light);
            }
        }
    });
    ctx.note(format!(
        "join: all {}x{} pairs of shapes (every shape with at most {max_n} entries, and larger trees of {seeds:?} entries), each operand shared or not",
        ops.len(),
        ops.len()
    ));
}

/// construction and extension from every sequence of keys
fn sequences<M: MapSub>(ctx: &Ctx, len: usize) {
    let mut items = vec![];
    for l in 0..=len {
        // restricted growth would halve this; the plain product keeps it simple
        let k = if l <= 4 { 5usize } else { 4 };
        for x in 0..k.pow(l as u32) {
            let mut a = 0i64;
            let mut y = x;
            for i in 0..l {
                a |= ((y % k) as i64) << (3 * i);
                y /= k;
            }
            items.push((a, l as i64));
        }
    }
    ctx.par_for(&items, |slot, &(a, l)| {
        run_map_case::<M>(slot, &[op(OpK::FromSeq, 0, a, l)], 0, Obs::Full);
        let e = Op { c: 1, ..op(OpK::FromSeq, 0, a, l) };
        run_map_case::<M>(slot, &[op(OpK::Ins, 0, 10, 0), op(OpK::Ins, 0, 30, 0), e], 2, Obs::Full);
        run_map_case::<M>(
            slot,
            &[op(OpK::Ins, 0, 10, 0), op(OpK::Ins, 0, 30, 0), op(OpK::Clone, 0, 0, 0), e],
            3,
            Obs::Light,
        );
        if l == 3 && M::RICH {
            run_map_case::<M>(slot, &[Op { c: 2, ..op(OpK::FromSeq, 0, a, l) }], 0, Obs::Full);
        }
    });
    ctx.note(format!(
        "construction {}: collect and extend from all {} key sequences of length up to {len}",
        M::NAME,
        items.len()
    ));
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    singles::<Avl>(ctx, ctx.pick(9, 11), ctx.pick(9, 11));
    singles::<Bt<1>>(ctx, ctx.pick(9, 11), ctx.pick(9, 11));
    singles::<Bt<2>>(ctx, ctx.pick(12, 18), ctx.pick(8, 12));
    singles::<Bt<3>>(ctx, ctx.pick(15, 22), ctx.pick(8, 12));
    singles::<Bt<5>>(ctx, ctx.pick(18, 26), ctx.pick(8, 12));
    sequences::<Avl>(ctx, ctx.pick(6, 8));
    sequences::<Bt<1>>(ctx, ctx.pick(6, 8));
    sequences::<Bt<5>>(ctx, ctx.pick(6, 8));
    sequences::<Fixed>(ctx, ctx.pick(6, 8));
    all_pairs::<Avl>(ctx, ctx.pick(5, 6), false);
    all_pairs::<Bt<1>>(ctx, ctx.pick(6, 7), true);
    all_pairs::<Bt<2>>(ctx, ctx.pick(6, 8), true);
    if t {
        all_pairs::<Avl>(ctx, 7, true);
    }
    shared_shape_pairs::<Avl>(ctx, ctx.pick(7, 10));
    shared_shape_pairs::<Bt<1>>(ctx, ctx.pick(8, 11));
    shared_shape_pairs::<Bt<2>>(ctx, ctx.pick(8, 14));
    shared_seed_pairs::<Avl>(ctx, if t { &[20, 64, 200] } else { &[20, 64] }, &PATTERNS, if t { 5 } else { 13 });
    shared_seed_pairs::<Bt<1>>(ctx, if t { &[33, 90] } else { &[33] }, &PATTERNS, if t { 5 } else { 13 });
    shared_seed_pairs::<Bt<2>>(ctx, if t { &[60, 130] } else { &[60] }, &PATTERNS, if t { 7 } else { 19 });
    shared_seed_pairs::<Bt<5>>(ctx, if t { &[84, 200] } else { &[84] }, &PATTERNS, if t { 11 } else { 23 });
    joins(ctx, ctx.pick(9, 11), if t { &[20, 50, 120, 300] } else { &[20, 60] });
    let big: &[(usize, usize)] = if t {
        &[(40, 40), (3, 60), (60, 3), (1, 200), (200, 1), (90, 30), (30, 90), (130, 120), (8, 300), (300, 8)]
    } else {
        &[(30, 30), (2, 60), (60, 2), (50, 9), (9, 50)]
    };
    let pats: &[&str] = if t { &PATTERNS } else { &["asc", "mid", "thin"] };
    seed_pairs::<Avl>(ctx, big, pats);
    seed_pairs::<Bt<1>>(ctx, big, pats);
    seed_pairs::<Bt<2>>(ctx, big, pats);
    seed_pairs::<Bt<5>>(ctx, big, pats);
    let ss: &[usize] = if t { &[40, 100, 300] } else { &[40] };
    seed_singles::<Avl>(ctx, ss);
    seed_singles::<Bt<1>>(ctx, ss);
    seed_singles::<Bt<2>>(ctx, if t { &[100, 300] } else { &[60] });
    seed_singles::<Bt<5>>(ctx, if t { &[100, 500] } else { &[90] });
    let big: &[(usize, usize)] = if t {
        &[(1000, 1000), (1, 3000), (3000, 1), (700, 40), (40, 700), (300, 200), (2100, 2050), (1, 600), (600, 1)]
    } else {
        &[(1000, 1000), (1, 2000), (2000, 1), (700, 40), (40, 700), (300, 200)]
    };
    seed_pairs::<Avl>(ctx, big, &["bitrev"]);
    seed_pairs::<Bt<1>>(ctx, big, &["bitrev"]);
    seed_pairs::<Bt<2>>(ctx, big, &["bitrev"]);
    seed_pairs::<Bt<5>>(ctx, big, &["bitrev"]);
    let big: &[usize] = if t { &[300, 1200, 4000] } else { &[300, 1200] };
    scale_singles::<Avl>(ctx, big);
    scale_singles::<Bt<1>>(ctx, big);
    scale_singles::<Bt<2>>(ctx, big);
    scale_singles::<Bt<5>>(ctx, big);
    scale_singles::<Bt<16>>(ctx, big);
}
