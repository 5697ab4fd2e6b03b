//! C16: the entry interface.

use crate::elem::*;
use crate::engine::*;
use crate::fam::*;
use crate::machine::*;
use crate::shapes::*;
use crate::subj::*;
use crate::{ensure, for_map};

/// every entry operation on every key and gap of one handle
fn entry_ops(keys: &[i64], h: usize, step: usize) -> Vec<Op> {
    let mut v = vec![];
    for b in 0..ENTRY_OPS.len() as i64 {
        for i in (0..keys.len()).step_by(step) {
            v.push(op(OpK::Entry, h, keys[i], b));
        }
        for g in (0..=keys.len()).step_by(step) {
            v.push(op(OpK::Entry, h, gap_key(keys, g), b));
        }
        v.push(op(OpK::FirstEntry, h, 0, b));
        v.push(op(OpK::LastEntry, h, 0, b));
    }
    v
}

fn go<M: MapSub>(hist: &[Op], last: &[Op], steps: &mut u64) -> Result<(), String> {
    run_fam::<Fam<M>, _>(hist, last, Obs::Full, true, steps, |_| ())
}

fn case<M: MapSub>(slot: &mut Slot, hist: &[Op], last: &[Op]) {
    slot.case(
        |s| {
            s.push_str("entry ");
            s.push_str(M::NAME);
            s.push(' ');
            write_ops(hist, s);
            s.push('|');
            write_ops(last, s);
        },
        |steps| go::<M>(hist, last, steps),
    );
}

/// every shape x sharing pattern x edit position x entry operation x key, and
/// a second entry operation on a neighbour afterwards
fn all<M: MapSub>(ctx: &Ctx, max_n: usize, cap: usize, pair_n: usize) {
    let st = shapes::<M>(ctx, max_n, cap);
    let n = st.len();
    let mut items = shared_states(&st);
    items.push(FState { hist: vec![], contents: vec![(0, vec![])] });
    items.push(FState { hist: vec![op(OpK::Clone, 0, 0, 0)], contents: vec![(0, vec![]), (1, vec![])] });
    ctx.par_for(&items, |slot, s| {
        for (h, keys) in &s.contents {
            for o in entry_ops(keys, *h, 1) {
                if slot.ctx.stopped() {
                    return;
                }
                case::<M>(slot, &s.hist, &[o]);
                if keys.len() <= pair_n && matches!(o.b, 0 | 5 | 7 | 10) {
                    for o2 in entry_ops(keys, *h, 1) {
                        if matches!(o2.b, 1 | 5 | 10 | 12) {
                            // the same key again, or another
                            case::<M>(slot, &s.hist, &[o, o2]);
                        }
                    }
                }
            }
        }
    });
    ctx.note(format!(
        "entries {}: {n} shapes of at most {max_n} entries x {SHARING:?} at every edit position x every handle x {} entry operations x every key and gap, first_entry, last_entry; ordered pairs of entry operations on maps of at most {pair_n} entries",
        M::NAME,
        ENTRY_OPS.len()
    ));
}

fn large<M: MapSub>(ctx: &Ctx, sizes: &[usize], step: usize) {
    for p in PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            let mut items = vec![];
            for pat in SHARING {
                for e in [0, st.keys.len() / 2, st.keys.len() - 1] {
                    let mut h = st.hist.clone();
                    h.extend(share(pat, &st.keys, e));
                    for o in entry_ops(&st.keys, 0, step) {
                        items.push((h.clone(), o));
                    }
                    if matches!(pat, "none" | "clone") {
                        break;
                    }
                }
            }
            ctx.par_for(&items, |slot, (h, o)| case::<M>(slot, h, &[*o]));
        }
    }
    ctx.note(format!(
        "large maps {}: patterns {PATTERNS:?}, sizes {sizes:?} x {SHARING:?} x every entry operation at every {step}th key and gap",
        M::NAME
    ));
}

fn scale<M: MapSub>(ctx: &Ctx, sizes: &[usize]) {
    let mut items = vec![];
    for p in BIG_PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            let few = at_places(&st.keys);
            for pat in ["none", "clone", "edited-clone"] {
                let sh = share(pat, &st.keys, st.keys.len() / 3);
                for (i, o) in entry_ops(&few, 0, 1).into_iter().enumerate() {
                    if pat == "none" || i % 3 == items.len() % 3 {
                        items.push((st.clone(), sh.clone(), o));
                    }
                }
            }
        }
    }
    ctx.par_for(&items, |slot, (st, sh, o)| {
        let mut h = st.hist.clone();
        h.extend_from_slice(sh);
        case::<M>(slot, &h, &[*o])
    });
    ctx.note(format!("big {}: sizes {sizes:?}, patterns {BIG_PATTERNS:?}, {} cases", M::NAME, items.len()));
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    let x = |q: usize, th: usize| if t { th } else { q };
    all::<Avl>(ctx, x(6, 9), 1 << 18, x(4, 5));
    all::<Bt<1>>(ctx, x(7, 10), 1 << 18, x(4, 6));
    all::<Bt<2>>(ctx, x(7, 13), 1 << 18, x(5, 7));
    all::<Bt<3>>(ctx, x(8, 16), 1 << 18, 0);
    all::<Bt<5>>(ctx, x(12, 24), 1 << 18, 0);
    large::<Avl>(ctx, if t { &[33, 90] } else { &[33] }, x(4, 1));
    large::<Bt<1>>(ctx, if t { &[33, 90] } else { &[33] }, x(4, 1));
    large::<Bt<2>>(ctx, if t { &[60, 130] } else { &[60] }, x(7, 1));
    large::<Bt<5>>(ctx, if t { &[84, 300] } else { &[84] }, x(7, 2));
    large::<Bt<16>>(ctx, if t { &[84, 300] } else { &[84] }, x(7, 2));
    let sz: &[usize] = if t { &[300, 1200, 3000] } else { &[400] };
    scale::<Avl>(ctx, sz);
    scale::<Bt<1>>(ctx, sz);
    scale::<Bt<2>>(ctx, sz);
    scale::<Bt<5>>(ctx, sz);
    scale::<Bt<16>>(ctx, sz);
}

pub fn replay(case: &str) -> Result<(), String> {
    let _ = take_fault();
    let rest = case.strip_prefix("entry ").ok_or("bad case")?;
    let (name, ops) = rest.split_once(' ').ok_or("bad case")?;
    let (h, l) = ops.split_once('|').ok_or("bad case")?;
    let (h, l) = (parse_ops(h)?, parse_ops(l)?);
    ensure!(!l.is_empty(), "bad case");
    let mut n = 0;
    for_map!(name, go, &h, &l, &mut n)
}
