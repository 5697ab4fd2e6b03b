//! C01: every history of single-map operations agrees with a sorted map.

use crate::elem::*;
use crate::engine::*;
use crate::for_map;
use crate::machine::*;
use crate::shapes::*;
use crate::narrow::Narrow;
use crate::subj::*;

pub fn all_ops<M: MapSub>(keys: &[i64], max_n: usize) -> Vec<Op> {
    let mut v = vec![];
    let n = keys.len();
    if n < max_n {
        for g in 0..=n {
            v.push(op(OpK::Ins, 0, gap_key(keys, g), 0));
        }
    }
    for (i, k) in keys.iter().enumerate() {
        v.push(op(OpK::Ins, 0, *k, 0));
        v.push(op(if i % 2 == 0 { OpK::Rem } else { OpK::RemK }, 0, *k, 0));
        v.push(op(if i % 2 == 0 { OpK::GetMutK } else { OpK::GetMut }, 0, *k, 0));
        if M::KIND == Kind::Avl {
            v.push(op(OpK::RemEntry, 0, *k, 0));
        }
    }
    for g in 0..=n {
        let k = gap_key(keys, g);
        v.push(op(OpK::Rem, 0, k, 0));
        v.push(op(OpK::GetMut, 0, k, 0));
        if M::KIND == Kind::Avl {
            v.push(op(OpK::RemEntry, 0, k, 0));
        }
    }
    v.push(op(OpK::IterMut, 0, 0, 0));
    v.push(op(OpK::Clear, 0, 0, 0));
    v.push(op(OpK::Rebuild, 0, 0, 0));
    if M::RICH {
        v.push(op(OpK::PopF, 0, 0, 0));
        v.push(op(OpK::PopL, 0, 0, 0));
        v.push(op(OpK::ValuesMut, 0, 0, 0));
        v.push(op(OpK::MutInto, 0, 0, 0));
        v.push(op(OpK::IntoKeys, 0, 0, 0));
        v.push(op(OpK::IntoValues, 0, 0, 0));
    }
    if M::KIND == Kind::Avl {
        v.push(op(OpK::ForEachMut, 0, 0, 0));
    }
    if M::KIND == Kind::BTree {
        v.push(op(OpK::IntoVec, 0, 0, 0));
    }
    v
}

/// every sequence of up to `depth` operations over keys 0..nkeys, no merging
fn sequences<M: MapSub>(ctx: &Ctx, nkeys: i64, depth: usize) {
    let mut alpha = vec![];
    for k in 0..nkeys {
        alpha.push(op(OpK::Ins, 0, 10 * k, 0));
        alpha.push(op(OpK::Rem, 0, 10 * k, 0));
    }
    alpha.push(op(OpK::GetMut, 0, 10, 0));
    alpha.push(op(OpK::IterMut, 0, 0, 0));
    if M::RICH {
        alpha.push(op(OpK::PopF, 0, 0, 0));
        alpha.push(op(OpK::PopL, 0, 0, 0));
    }
    let na = alpha.len();
    let total = na.pow(depth as u32);
    let items: Vec<usize> = (0..total).step_by(64).collect();
    ctx.par_for(&items, |slot, &lo| {
        for x in lo..(lo + 64).min(total) {
            if slot.ctx.stopped() {
                return;
            }
            let mut ops = Vec::with_capacity(depth);
            let mut y = x;
            for _ in 0..depth {
                ops.push(alpha[y % na]);
                y /= na;
            }
            run_map_case::<M>(slot, &ops, ops.len() - 2, Obs::Light);
        }
    });
    ctx.note(format!(
        "sequences {}: all {total} sequences of {depth} operations from an alphabet of {na}",
        M::NAME
    ));
}

pub fn run_map_case<M: MapSub>(slot: &mut Slot, ops: &[Op], from: usize, obs: Obs) {
    slot.case(
        |s| {
            s.push_str("map ");
            s.push_str(M::NAME);
            s.push(' ');
            write_ops(ops, s);
        },
        |steps| run_history::<M>(ops, from, obs, steps).map(|_| ()),
    );
}

/// all single operations (and pairs of removals/insertions) from larger trees
fn seeds<M: MapSub>(ctx: &Ctx, sizes: &[usize], pair_sizes: &[usize], drain_sizes: &[usize]) {
    for p in PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            let ops = all_ops::<M>(&st.keys, usize::MAX);
            ctx.par_for(&ops, |slot, o| {
                let mut h = st.hist.clone();
                h.push(*o);
                run_map_case::<M>(slot, &h, h.len() - 1, Obs::Full);
            });
        }
        for &n in pair_sizes {
            let st = seed(p, n);
            let n = st.keys.len();
            let mut pairs = vec![];
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        pairs.push((op(OpK::Rem, 0, st.keys[i], 0), op(OpK::Rem, 0, st.keys[j], 0)));
                    }
                    pairs.push((
                        op(OpK::Rem, 0, st.keys[i], 0),
                        op(OpK::Ins, 0, gap_key(&st.keys, j), 0),
                    ));
                    pairs.push((
                        op(OpK::Ins, 0, gap_key(&st.keys, i), 0),
                        op(OpK::Rem, 0, st.keys[j], 0),
                    ));
                }
            }
            ctx.par_for(&pairs, |slot, (a, b)| {
                let mut h = st.hist.clone();
                h.push(*a);
                h.push(*b);
                run_map_case::<M>(slot, &h, h.len() - 1, Obs::Light);
            });
        }
        for &n in drain_sizes {
            // remove again and again at one position until empty; and insert
            // again and again into one gap
            let st = seed(p, n);
            let n = st.keys.len();
            let starts: Vec<usize> = (0..n).collect();
            ctx.par_for(&starts, |slot, &i| {
                let mut h = st.hist.clone();
                let mut keys = st.keys.clone();
                while !keys.is_empty() {
                    let k = keys.remove(i.min(keys.len() - 1));
                    h.push(op(OpK::Rem, 0, k, 0));
                }
                run_map_case::<M>(slot, &h, st.hist.len(), Obs::Light);
                let mut h = st.hist.clone();
                let mut keys = st.keys.clone();
                // descending into the same gap (bisecting would run out of keys)
                for s in (1..=40).rev() {
                    let k = if i == 0 { keys[0] } else { st.keys[i - 1] };
                    let k = if i == 0 { k - (1 << 20) } else { k + s * 8 };
                    h.push(op(OpK::Ins, 0, k, 0));
                    if let Err(at) = keys.binary_search(&k) {
                        keys.insert(at, k);
                    }
                }
                run_map_case::<M>(slot, &h, st.hist.len(), Obs::Light);
            });
        }
    }
    ctx.note(format!(
        "seeds {}: patterns {PATTERNS:?}; every single operation at sizes {sizes:?}, every remove/insert pair at sizes {pair_sizes:?}, every positional drain and fill at sizes {drain_sizes:?}",
        M::NAME
    ));
}

/// trees of many hundred entries: every operation at the ends, the middle and
/// around the powers of two
fn scale<M: MapSub>(ctx: &Ctx, sizes: &[usize]) {
    let mut items = vec![];
    for p in BIG_PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            for o in all_ops::<M>(&at_places(&st.keys), usize::MAX) {
                items.push((st.clone(), o));
            }
        }
    }
    ctx.par_for(&items, |slot, (st, o)| {
        let mut h = st.hist.clone();
        h.push(*o);
        run_map_case::<M>(slot, &h, h.len() - 1, Obs::Full);
    });
    ctx.note(format!("big {}: sizes {sizes:?}, patterns {BIG_PATTERNS:?}, {} operations", M::NAME, items.len()));
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    let bfs_n = |q: usize, th: usize| if t { th } else { q };
    let cap = if t { 400_000 } else { 4_000 };
    fn go<M: MapSub>(ctx: &Ctx, n: usize, cap: usize) {
        bfs::<M>(ctx, "all operations", n, cap, Obs::Full, &move |k: &[i64]| all_ops::<M>(k, n));
    }
    go::<Avl>(ctx, bfs_n(10, 14), cap);
    go::<Bt<1>>(ctx, bfs_n(10, 14), cap);
    go::<Bt<2>>(ctx, bfs_n(14, 20), cap);
    go::<Bt<3>>(ctx, bfs_n(17, 24), cap);
    go::<Bt<5>>(ctx, bfs_n(20, 30), cap);
    go::<Fixed>(ctx, bfs_n(24, 34), cap);
    go::<Narrow>(ctx, bfs_n(15, 26), cap);
    crate::plain::explore_maps(ctx);
    let big: &[usize] = if t { &[300, 1200, 5000] } else { &[300, 1200] };
    scale::<Avl>(ctx, big);
    scale::<Bt<1>>(ctx, big);
    scale::<Bt<2>>(ctx, big);
    scale::<Bt<5>>(ctx, big);
    scale::<Bt<16>>(ctx, big);
    scale::<Fixed>(ctx, big);
    let (nk, d) = if t { (4, 7) } else { (3, 6) };
    sequences::<Avl>(ctx, nk, d);
    sequences::<Bt<1>>(ctx, nk, d);
    sequences::<Fixed>(ctx, nk, d - 1);
    if t {
        seeds::<Avl>(ctx, &[40, 100, 300], &[40, 80], &[60, 120]);
        seeds::<Bt<1>>(ctx, &[40, 100, 300], &[40, 80], &[60, 120]);
        seeds::<Bt<2>>(ctx, &[60, 150, 400], &[60, 110], &[80, 160]);
        seeds::<Bt<3>>(ctx, &[80, 200, 600], &[60, 130], &[100, 200]);
        seeds::<Bt<5>>(ctx, &[80, 250, 1100], &[84, 160], &[120, 300]);
        seeds::<Fixed>(ctx, &[80, 250, 1100], &[84, 160], &[120, 300]);
        seeds::<Narrow>(ctx, &[80, 250], &[84, 160], &[120]);
    } else {
        seeds::<Avl>(ctx, &[40, 100], &[33], &[60]);
        seeds::<Bt<1>>(ctx, &[40, 100], &[33], &[60]);
        seeds::<Bt<2>>(ctx, &[100], &[40], &[80]);
        seeds::<Bt<3>>(ctx, &[100], &[], &[100]);
        seeds::<Bt<5>>(ctx, &[84, 150], &[], &[120]);
        seeds::<Fixed>(ctx, &[84, 150], &[84], &[120]);
        seeds::<Narrow>(ctx, &[84], &[84], &[]);
    }
}

/// replay "map <name> <ops>"
pub fn replay_map(case: &str) -> Result<(), String> {
    let rest = case.strip_prefix("map ").ok_or("bad case")?;
    let (name, ops) = rest.split_once(' ').ok_or("bad case")?;
    let ops = parse_ops(ops)?;
    fn go<M: MapSub>(ops: &[Op]) -> Result<(), String> {
        let mut s = 0;
        run_history::<M>(ops, 0, Obs::Full, &mut s).map(|_| ())
    }
    for_map!(name, go, &ops)
}

pub fn replay(case: &str) -> Result<(), String> {
    let _ = take_fault();
    if case.starts_with("plain") {
        return crate::plain::replay(case);
    }
    replay_map(case)
}
