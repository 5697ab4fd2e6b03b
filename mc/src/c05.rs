//! C05: set algebra, for every pair of sets.

use crate::elem::*;
use crate::engine::*;
use crate::machine::Obs;
use crate::setm::*;
use crate::shapes::*;
use crate::subj::*;
use crate::{ensure, for_set};

fn check_pair<S: SetSub>(l: &S, lm: &SModel, r: &S, rm: &SModel, full: bool) -> Result<(), String> {
    for o in SET_OPS {
        let want: Vec<i64> = set_op(o, lm, rm).keys();
        let mut got = vec![];
        {
            let mut it = S::op_iter(o, l, r);
            loop {
                let (lo, hi) = it.size_hint();
                let left = want.len().saturating_sub(got.len());
                ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{o:?} iterator: size_hint ({lo}, {hi:?}) with {left} left");
                match it.next() {
                    Some(k) => got.push(el(k).0),
                    None => break,
                }
                ensure!(got.len() <= want.len(), "{o:?} iterator yields {got:?}, expected {want:?}");
            }
            ensure!(it.next().is_none(), "{o:?} iterator yields again after None");
        }
        ensure!(got == want, "{o:?} iterator yields {got:?}, expected {want:?}");
        if want.len() < 12 || full {
            // the rest consumed at once, after some steps
            for skip in [0, 1, want.len() / 2, want.len().max(1) - 1] {
                whole(|| {
                    let mut it = S::op_iter(o, l, r);
                    for _ in 0..skip {
                        it.next();
                    }
                    it
                }, &want[skip.min(want.len())..])
                .map_err(|e| format!("{o:?} iterator after {skip} steps: {e}"))?;
            }
        }
        if full {
            let res = S::op_ref(o, l, r);
            same(&res, &want).map_err(|e| format!("operator {o:?}: {e}"))?;
            drop(res);
        }
        let res = S::op_new(o, l.clone(), r.clone());
        same(&res, &want).map_err(|e| format!("constructor {o:?}: {e}"))?;
    }
    let sub = lm.0.iter().all(|e| rm.has(e.0));
    let sup = rm.0.iter().all(|e| lm.has(e.0));
    let dis = !lm.0.iter().any(|e| rm.has(e.0));
    let g = l.is_subset_(r);
    ensure!(g == sub, "is_subset is {g} for {:?} and {:?}", lm.keys(), rm.keys());
    let g = l.is_superset_(r);
    ensure!(g == sup, "is_superset is {g} for {:?} and {:?}", lm.keys(), rm.keys());
    let g = l.is_disjoint_(r);
    ensure!(g == dis, "is_disjoint is {g} for {:?} and {:?}", lm.keys(), rm.keys());
    Ok(())
}

/// every way to consume an iterator that has `want` left
fn whole<'a>(mk: impl Fn() -> Box<dyn Whole<Item = &'a Key> + 'a>, want: &[i64]) -> Result<(), String> {
    let name = |k: Option<&Key>| k.map(|k| el(k).0);
    let c = mk().w_count();
    ensure!(c == want.len(), "count() is {c}, expected {}", want.len());
    let c = name(mk().w_last());
    ensure!(c == want.last().copied(), "last() is {c:?}, expected {:?}", want.last());
    let c = name(mk().w_max());
    ensure!(c == want.last().copied(), "max() is {c:?}, expected {:?}", want.last());
    let c = name(mk().w_min());
    ensure!(c == want.first().copied(), "min() is {c:?}, expected {:?}", want.first());
    ensure!(mk().w_sorted(), "is_sorted() is false");
    let mut got = vec![];
    mk().w_fold(&mut |k| got.push(el(k).0));
    ensure!(got == want, "fold yields {got:?}, expected {want:?}");
    for k in [0, 1, want.len() / 2, want.len()] {
        let mut it = mk();
        let c = name(it.nth(k));
        ensure!(c == want.get(k).copied(), "nth({k}) is {c:?}, expected {:?}", want.get(k));
        let c = name(it.next());
        ensure!(c == want.get(k + 1).copied(), "next() after nth({k}) is {c:?}, expected {:?}", want.get(k + 1));
    }
    Ok(())
}

fn same<S: SetSub>(s: &S, want: &[i64]) -> Result<(), String> {
    let got: Vec<i64> = s.iter_().map(|k| el(k).0).collect();
    ensure!(got == want, "result is {got:?}, expected {want:?}");
    ensure!(s.len_() == want.len(), "result has len() {}, expected {}", s.len_(), want.len());
    s.check_().map_err(|e| format!("result fails the structural check: {e}"))
}

fn run<S: SetSub>(ops: &[SOp], full: bool, steps: &mut u64) -> Result<(), String> {
    let f = run_shistory::<S>(ops, usize::MAX, Obs::Light, steps)?;
    let live = f.live();
    for &i in &live {
        for &j in &live {
            *steps += 1;
            check_pair(f.s(i), f.model(i), f.s(j), f.model(j), full)
                .map_err(|e| format!("handles {i} and {j}: {e}"))?;
        }
    }
    // the operands are unchanged
    f.observe(Obs::Light)?;
    take_fault()
}

fn case<S: SetSub>(slot: &mut Slot, ops: &[SOp], full: bool) {
    slot.case(
        |s| {
            s.push_str("alg ");
            s.push_str(S::NAME);
            s.push(' ');
            write_sops(ops, s);
        },
        |steps| run::<S>(ops, full, steps),
    );
}

fn all_pairs<S: SetSub>(ctx: &Ctx, d: usize) {
    let all = sshapes::<S>(ctx, d);
    let mut v: Vec<(Vec<SOp>, Vec<SOp>)> = vec![];
    for mask in 0u32..1 << d {
        let t: Vec<i64> = (0..d as i64).filter(|i| mask >> i & 1 == 1).map(|i| i * SP).collect();
        for st in all.iter().filter(|s| s.keys.len() == t.len()) {
            v.push((sremap(&st.hist, &st.keys, &t, 0), sremap(&st.hist, &st.keys, &t, 1)));
        }
    }
    ctx.par_for(&v, |slot, (l, _)| {
        for (_, r) in &v {
            if slot.ctx.stopped() {
                return;
            }
            let mut ops = vec![sop(SK::New, 0, 0, 0)];
            ops.extend_from_slice(l);
            ops.extend_from_slice(r);
            case::<S>(slot, &ops, false);
        }
    });
    ctx.note(format!("pairs {}: all {}x{} pairs of (subset, shape) over a {d}-element domain", S::NAME, v.len(), v.len()));
}

/// A set, its clone, and up to `depth` edits of either: structure is shared.
fn shared_pairs<S: SetSub>(ctx: &Ctx, sizes: std::ops::RangeInclusive<usize>, depth: usize) {
    let all: Vec<SState> =
        sshapes::<S>(ctx, *sizes.end()).into_iter().filter(|s| sizes.contains(&s.keys.len())).collect();
    ctx.par_for(&all, |slot, st| {
        let mut alpha = vec![];
        for h in 0..2 {
            for g in 0..=st.keys.len() {
                alpha.push(sop(SK::Ins, h, gap_key(&st.keys, g), 0));
            }
            for k in &st.keys {
                alpha.push(sop(SK::Rem, h, *k, 0));
                alpha.push(sop(SK::Replace, h, *k, 0));
            }
            alpha.push(sop(SK::SplitOff, h, st.keys[st.keys.len() / 2], 0));
        }
        let n = alpha.len();
        for x in 0..n.pow(depth as u32) {
            if slot.ctx.stopped() {
                return;
            }
            let mut ops = st.hist.clone();
            ops.push(sop(SK::Clone, 0, 0, 0));
            let mut y = x;
            for _ in 0..depth {
                ops.push(alpha[y % n]);
                y /= n;
            }
            case::<S>(slot, &ops, false);
        }
    });
    ctx.note(format!(
        "sharing {}: all {depth}-edit sequences on a set and its clone, from every shape with {sizes:?} elements",
        S::NAME
    ));
}

fn seed_pairs<S: SetSub>(ctx: &Ctx, sizes: &[(usize, usize)], patterns: &[&str]) {
    let mut items = vec![];
    for &(n, m) in sizes {
        for rel in RELATIONS {
            for p in patterns {
                for q in patterns {
                    items.push((n, m, rel, *p, *q));
                }
            }
        }
    }
    ctx.par_for(&items, |slot, &(n, m, rel, p, q)| {
        let (l, r) = related(rel, n, m);
        let (a, b) = (seed(p, n), seed(q, r.len()));
        let mut ops = vec![sop(SK::New, 0, 0, 0)];
        ops.extend(to_sops(&remap(&a, &l[..a.keys.len()], 0)));
        ops.extend(to_sops(&remap(&b, &r[..b.keys.len()], 1)));
        case::<S>(slot, &ops, true);
    });
    ctx.note(format!("large pairs {}: {} size pairs x relations {RELATIONS:?} x patterns {patterns:?}", S::NAME, sizes.len()));
}

/// a larger set and a clone that differs by one or two edits
fn seed_shared<S: SetSub>(ctx: &Ctx, sizes: &[usize], two: bool) {
    for p in PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            let base = to_sops(&st.hist);
            let mut edits = vec![];
            for h in 0..2 {
                for g in 0..=st.keys.len() {
                    edits.push(sop(SK::Ins, h, gap_key(&st.keys, g), 0));
                }
                for k in &st.keys {
                    edits.push(sop(SK::Rem, h, *k, 0));
                }
            }
            ctx.par_for(&edits, |slot, e| {
                let mut ops = base.clone();
                ops.push(sop(SK::Clone, 0, 0, 0));
                ops.push(*e);
                case::<S>(slot, &ops, false);
                if two {
                    for f in &edits {
                        if f.h == 1 && !(f.k == e.k && f.a == e.a) {
                            let mut o2 = ops.clone();
                            o2.push(*f);
                            case::<S>(slot, &o2, false);
                        }
                    }
                }
            });
        }
    }
    ctx.note(format!("large sharing {}: every edit{} of a set and its clone at sizes {sizes:?}", S::NAME, if two { " pair" } else { "" }));
}

/// a big set and a clone that differs by one edit
fn scale_shared<S: SetSub>(ctx: &Ctx, sizes: &[usize]) {
    let mut items = vec![];
    for p in BIG_PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            for k in at_places(&st.keys) {
                for e in [sop(SK::Ins, 0, k + 1, 0), sop(SK::Rem, 0, k, 0), sop(SK::Ins, 1, k + 1, 0), sop(SK::Rem, 1, k, 0)] {
                    let mut h = to_sops(&st.hist);
                    h.push(sop(SK::Clone, 0, 0, 0));
                    h.push(e);
                    items.push(h);
                }
            }
        }
    }
    ctx.par_for(&items, |slot, h| case::<S>(slot, h, false));
    ctx.note(format!("big sharing {}: sizes {sizes:?}: {} edits of a set or its clone", S::NAME, items.len()));
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    all_pairs::<AvlS>(ctx, ctx.pick(6, 7));
    all_pairs::<BtS<1>>(ctx, ctx.pick(6, 8));
    all_pairs::<BtS<2>>(ctx, ctx.pick(7, 9));
    all_pairs::<BtS<5>>(ctx, ctx.pick(6, 8));
    shared_pairs::<AvlS>(ctx, 1..=ctx.pick(6, 9), 2);
    shared_pairs::<BtS<1>>(ctx, 1..=ctx.pick(6, 8), 2);
    shared_pairs::<BtS<2>>(ctx, 3..=ctx.pick(7, 9), 2);
    if t {
        shared_pairs::<AvlS>(ctx, 2..=6, 3);
        shared_pairs::<BtS<1>>(ctx, 2..=6, 3);
    }
    // every small size pair, to cross every size-ratio threshold, and larger ones
    let mut sizes = vec![];
    let (a, b) = if t { (20, 90) } else { (9, 40) };
    for n in 0..=a {
        for m in 0..=b {
            sizes.push((n, m));
            if m > a {
                sizes.push((m, n));
            }
        }
    }
    let pats: &[&str] = if t { &["asc", "mid", "thin"] } else { &["asc"] };
    seed_pairs::<AvlS>(ctx, &sizes, pats);
    seed_pairs::<BtS<1>>(ctx, &sizes, pats);
    seed_pairs::<BtS<5>>(ctx, &sizes, pats);
    let big: &[(usize, usize)] =
        if t { &[(60, 60), (150, 20), (20, 150), (300, 300), (500, 3), (3, 500)] } else { &[(60, 60), (120, 12), (12, 120)] };
    seed_pairs::<AvlS>(ctx, big, &PATTERNS);
    seed_pairs::<BtS<1>>(ctx, big, &PATTERNS);
    seed_pairs::<BtS<2>>(ctx, big, &PATTERNS);
    seed_pairs::<BtS<5>>(ctx, big, &PATTERNS);
    seed_shared::<AvlS>(ctx, if t { &[30, 100] } else { &[30] }, t);
    seed_shared::<BtS<1>>(ctx, if t { &[30, 100] } else { &[30] }, t);
    seed_shared::<BtS<5>>(ctx, if t { &[30, 100] } else { &[30] }, false);
    let big: &[(usize, usize)] = if t {
        &[(1000, 1000), (1, 3000), (3000, 1), (700, 40), (40, 700), (300, 200), (2100, 2050), (5, 600), (600, 5)]
    } else {
        &[(1000, 1000), (1, 2000), (2000, 1), (700, 40), (40, 700), (300, 200)]
    };
    seed_pairs::<AvlS>(ctx, big, &["bitrev"]);
    seed_pairs::<BtS<1>>(ctx, big, &["bitrev"]);
    seed_pairs::<BtS<2>>(ctx, big, &["bitrev"]);
    seed_pairs::<BtS<5>>(ctx, big, &["bitrev"]);
    let big: &[usize] = if t { &[300, 1200, 3000] } else { &[300, 1200] };
    scale_shared::<AvlS>(ctx, big);
    scale_shared::<BtS<1>>(ctx, big);
    scale_shared::<BtS<5>>(ctx, big);
    scale_shared::<BtS<16>>(ctx, big);
}

pub fn replay(case: &str) -> Result<(), String> {
    if case.starts_with("set ") {
        return replay_set(case);
    }
    let rest = case.strip_prefix("alg ").ok_or("bad case")?;
    let (name, ops) = rest.split_once(' ').ok_or("bad case")?;
    let ops = parse_sops(ops)?;
    fn go<S: SetSub>(ops: &[SOp]) -> Result<(), String> {
        let mut n = 0;
        run::<S>(ops, true, &mut n)
    }
    for_set!(name, go, &ops)
}
