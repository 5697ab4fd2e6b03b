//! C19: comparisons that lie.

use crate::c09::{guarded, Panicky};
use crate::elem::*;
use crate::engine::*;
use crate::fam::*;
use crate::machine::*;
use crate::setm::*;
use crate::shapes::*;
use crate::narrow::Narrow;
use crate::subj::*;
use crate::{ensure, for_map, for_set};
use std::panic::{catch_unwind, AssertUnwindSafe};

const LIMIT: u64 = 300_000;

fn oracle(mode: u8, script: &[u8], grow: usize) -> Oracle {
    Oracle { script: script.to_vec(), pos: 0, grow, mode, asked: 0, limit: LIMIT }
}

/// Returns the script that was actually used up.
fn run<F: Panicky>(
    hist: &[F::O],
    ops: &[F::O],
    mode: u8,
    script: &[u8],
    grow: usize,
    steps: &mut u64,
) -> Result<Vec<u8>, String> {
    reg().reset();
    let mut f = F::fresh();
    for p in hist {
        f.apply_op(p)?;
    }
    let n0: Vec<usize> = f.contents().into_iter().map(|c| c.0).collect();
    let mut touched: Vec<usize> = vec![];
    reg().oracle = Some(oracle(mode, script, grow));
    let mut panicked = false;
    for o in ops {
        *steps += 1;
        touched.extend(F::touched(o));
        match catch_unwind(AssertUnwindSafe(|| f.apply_op(o))) {
            Ok(_) => (), // arbitrary results are fine
            Err(p) => {
                panicked = true;
                drop(p);
                let _ = last_panic();
            }
        }
        take_fault()?;
    }
    let used = match reg().oracle.take() {
        Some(mut o) => {
            o.script.truncate(o.pos);
            o.script
        }
        None => vec![],
    };
    // everything else is as it was
    let now: Vec<usize> = f.contents().into_iter().map(|c| c.0).collect();
    touched.extend(now.iter().filter(|h| !n0.contains(h)));
    touched.sort_unstable();
    touched.dedup();
    for h in &n0 {
        ensure!(touched.contains(h) || now.contains(h), "harness: handle {h} is gone");
    }
    f.observe_except(&touched, Obs::Full).map_err(|e| format!("another handle changed: {e}"))?;
    // use what was operated on, under honest and then under dishonest answers
    for &h in &touched {
        if used.len() % 2 == 1 {
            reg().oracle = Some(oracle(0, &[], 0));
        } else {
            reg().oracle = Some(oracle(mode, &[], 0));
        }
        f.abuse(h);
        reg().oracle = None;
        take_fault().map_err(|e| format!("using handle {h} afterwards: {e}"))?;
    }
    f.observe_except(&touched, Obs::Full).map_err(|e| format!("another handle changed by further use: {e}"))?;
    let mut hs = touched.clone();
    if used.len() % 2 == 0 {
        hs.reverse();
    }
    for h in hs {
        if now.contains(&h) {
            f.drop_handle(h);
            take_fault().map_err(|e| format!("dropping handle {h}: {e}"))?;
        }
    }
    f.observe_except(&touched, Obs::Full).map_err(|e| format!("another handle changed by a drop: {e}"))?;
    drop(f);
    take_fault().map_err(|e| format!("dropping everything: {e}"))?;
    let l = reg().live;
    ensure!(l == 0, "{l} elements were never dropped{}", if panicked { " (after a panic)" } else { "" });
    Ok(used)
}

fn text<F: Panicky>(mode: u8, script: &[u8], hist: &[F::O], ops: &[F::O], s: &mut String) {
    s.push_str(&format!("lie {mode} "));
    if script.is_empty() {
        s.push('-');
    }
    for x in script {
        s.push((b'0' + x) as char);
    }
    s.push(' ');
    s.push_str(F::WORD);
    s.push(' ');
    s.push_str(F::NAME);
    s.push(' ');
    F::write(hist, s);
    s.push('|');
    F::write(ops, s);
}

/// every script of up to `grow` answers, then the honest answer
fn scripts<F: Panicky>(slot: &mut Slot, hist: &[F::O], ops: &[F::O], grow: usize, mode: u8) {
    let mut script: Vec<u8> = vec![];
    let mut n = 0u64;
    loop {
        if slot.ctx.stopped() {
            return;
        }
        // answers beyond the script are Less until `grow` is reached; the case
        // names them explicitly
        let mut full = script.clone();
        full.resize(grow, 0);
        let used = slot.case(|s| text::<F>(mode, &full, hist, ops, s), |st| run::<F>(hist, ops, mode, &full, grow, st));
        n += 1;
        let Some(mut used) = used else { return };
        slot.outcome(used.iter().fold(n << 32, |a, x| a * 3 + *x as u64));
        while used.last() == Some(&2) {
            used.pop();
        }
        match used.last_mut() {
            None => break,
            Some(x) => *x += 1,
        }
        script = used;
    }
    slot.count("scripts of comparison answers", n);
}

fn modes<F: Panicky>(slot: &mut Slot, hist: &[F::O], ops: &[F::O]) {
    for mode in 1..MODES {
        if slot.ctx.stopped() {
            return;
        }
        slot.case(|s| text::<F>(mode, &[], hist, ops, s), |st| run::<F>(hist, ops, mode, &[], 0, st));
    }
}

fn states<F: Panicky>(ctx: &Ctx, label: &str, st: &[FState<F::O>], d: usize, h: usize, grow: usize, pairs: bool)
where
    FState<F::O>: Sync,
{
    let mut items = vec![];
    for (i, s) in st.iter().enumerate() {
        for o in F::all_ops(&s.contents, d, h) {
            items.push((i, o));
        }
    }
    ctx.par_for(&items, |slot, (i, o)| {
        let s = &st[*i];
        modes::<F>(slot, &s.hist, &[*o]);
        if grow > 0 {
            scripts::<F>(slot, &s.hist, &[*o], grow, 0);
        }
        if pairs {
            for o2 in F::all_ops(&s.contents, d, h) {
                if slot.ctx.stopped() {
                    return;
                }
                // only where the first operation leaves the handles in place
                if F::touched(o).len() == 1 && F::main_handle(o) == F::touched(o)[0] {
                    modes::<F>(slot, &s.hist, &[*o, o2]);
                }
            }
        }
    });
    ctx.note(format!(
        "{label} {}: {} states x every operation x {} dishonest orders{}{}",
        F::NAME,
        st.len(),
        MODES - 1,
        if grow > 0 { format!(" and every script of up to {grow} answers") } else { String::new() },
        if pairs { ", and every pair of operations under the dishonest orders" } else { "" }
    ));
}

fn maps<M: MapSub>(ctx: &Ctx, max_n: usize, grow: usize, share_n: usize, pair_n: usize) {
    let st = shapes::<M>(ctx, max_n, 1 << 18);
    let mut single: Vec<FState<Op>> = st
        .iter()
        .map(|s| FState { hist: s.hist.clone(), contents: vec![(0, s.keys.clone())] })
        .collect();
    // with a clone that must not change
    for s in &st {
        let mut h = s.hist.clone();
        h.push(op(OpK::Clone, 0, 0, 0));
        single.push(FState { hist: h, contents: vec![(0, s.keys.clone()), (1, s.keys.clone())] });
    }
    single.retain(|s| s.contents[0].1.len() <= max_n);
    states::<Fam<M>>(ctx, &format!("shapes of at most {max_n} entries, alone and with a clone,"), &single, max_n + 1, 3, grow, false);
    let small: Vec<State> = st.iter().filter(|s| s.keys.len() <= share_n).cloned().collect();
    states::<Fam<M>>(ctx, &format!("shapes of at most {share_n} entries x sharing,"), &shared_states(&small), share_n + 1, 4, 0, false);
    let small: Vec<FState<Op>> = st
        .iter()
        .filter(|s| s.keys.len() <= pair_n)
        .map(|s| FState { hist: s.hist.clone(), contents: vec![(0, s.keys.clone())] })
        .collect();
    states::<Fam<M>>(ctx, &format!("shapes of at most {pair_n} entries,"), &small, pair_n + 1, 2, 0, true);
}

fn sets<S: SetSub>(ctx: &Ctx, max_n: usize, grow: usize) {
    let st = sshapes::<S>(ctx, max_n);
    let mut v: Vec<FState<SOp>> = vec![];
    for s in &st {
        v.push(FState { hist: s.hist.clone(), contents: vec![(0, s.keys.clone())] });
        let mut h = s.hist.clone();
        h.push(sop(SK::Clone, 0, 0, 0));
        let mut c = vec![(0, s.keys.clone()), (1, s.keys.clone())];
        v.push(FState { hist: h.clone(), contents: c.clone() });
        if let Some(k) = s.keys.first() {
            h.push(sop(SK::Rem, 1, *k, 0));
            c[1].1.remove(0);
            let k2 = gap_key(&s.keys, s.keys.len());
            h.push(sop(SK::Ins, 1, k2, 0));
            c[1].1.push(k2);
            v.push(FState { hist: h, contents: c });
        }
    }
    states::<SFam<S>>(ctx, &format!("shapes of at most {max_n} elements, alone, with a clone and with an edited clone,"), &v, max_n + 1, 3, grow, false);
}

/// larger trees: every operation at every step-th position under every mode
/// and under scripts with a single lie at each of the first comparisons
fn larger<M: MapSub>(ctx: &Ctx, sizes: &[usize], step: usize) {
    let mut items = vec![];
    for p in PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            for pat in ["none", "edited-clone"] {
                let mut h = st.hist.clone();
                h.extend(share(pat, &st.keys, n / 3));
                let mut ops = big_ops::<M>(&st.keys, 0, step, false);
                if M::RICH && pat != "none" {
                    ops.push(op(OpK::Append, 0, 1, 0));
                    if M::KIND == Kind::Avl {
                        (0..4).for_each(|b| ops.push(op(OpK::BulkOp, 0, 1, b)));
                        (0..4).for_each(|b| ops.push(Op { c: 3, ..op(OpK::BulkOp, 0, 1, b) }));
                    }
                }
                for o in ops {
                    if !matches!(o.k, OpK::Clear) {
                        items.push((h.clone(), o));
                    }
                }
            }
        }
    }
    ctx.par_for(&items, |slot, (h, o)| {
        modes::<Fam<M>>(slot, h, &[*o]);
        scripts::<Fam<M>>(slot, h, &[*o], 2, 0);
        scripts::<Fam<M>>(slot, h, &[*o], 1, 2);
        scripts::<Fam<M>>(slot, h, &[*o], 1, 4);
    });
    ctx.note(format!("larger {}: patterns {PATTERNS:?} at sizes {sizes:?}, alone and sharing, operations at every {step}th position x dishonest orders and short scripts", M::NAME));
}

/// A collection built entirely under a dishonest order, then every operation.
fn built<M: MapSub>(ctx: &Ctx, sizes: &[usize]) {
    let mut items = vec![];
    for p in PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            let k = &st.keys;
            let mut ends: Vec<Vec<Op>> = vec![
                vec![],
                vec![op(OpK::Clone, 0, 0, 0), op(OpK::Ins, 1, k[0], 0)],
                vec![op(OpK::IterMut, 0, 0, 0)],
                vec![op(OpK::IntoPart, 0, n as i64 / 3, n as i64 / 3)],
                vec![op(OpK::Rebuild, 0, 0, 0)],
                vec![op(OpK::Extend, 0, k[0], k[n - 1])],
            ];
            if M::RICH {
                ends.push(vec![op(OpK::PopF, 0, 0, 0), op(OpK::PopL, 0, 0, 0)]);
                ends.push(vec![op(OpK::SplitOff, 0, k[n / 2], 0), op(OpK::Append, 0, 1, 0)]);
                ends.push(vec![op(OpK::Retain, 0, 0x5555_5555, 0)]);
                ends.push(vec![Op { c: 4, ..op(OpK::RangeMut, 0, k[0], k[n - 1]) }]);
                ends.push(vec![op(OpK::Look, 0, k[n / 2], 0)]);
                ends.push(vec![op(OpK::AppendSelfClone, 0, 0, 0)]);
            }
            for e in ends {
                let mut ops = st.hist.clone();
                ops.extend(e);
                items.push(ops);
            }
        }
    }
    ctx.par_for(&items, |slot, ops| modes::<Fam<M>>(slot, &[], ops));
    ctx.note(format!("built {}: trees of sizes {sizes:?} built under every dishonest order in every pattern, then bulk operations", M::NAME));
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    let x = |q: usize, th: usize| if t { th } else { q };
    maps::<Avl>(ctx, x(4, 6), x(4, 6), x(5, 7), x(3, 4));
    maps::<Bt<1>>(ctx, x(4, 6), x(4, 6), x(6, 8), x(3, 4));
    maps::<Bt<2>>(ctx, x(6, 8), x(3, 5), x(7, 10), x(3, 5));
    maps::<Bt<5>>(ctx, x(12, 13), x(2, 4), x(12, 14), x(3, 4));
    maps::<Fixed>(ctx, x(12, 18), x(4, 6), x(13, 19), x(4, 12));
    maps::<Narrow>(ctx, x(8, 14), x(4, 6), x(12, 14), x(3, 6));
    sets::<AvlS>(ctx, x(3, 5), x(4, 6));
    sets::<BtS<1>>(ctx, x(4, 5), x(4, 6));
    sets::<BtS<5>>(ctx, x(4, 12), x(3, 5));
    larger::<Avl>(ctx, if t { &[33, 90] } else { &[33] }, x(8, 3));
    larger::<Bt<1>>(ctx, if t { &[33, 90] } else { &[33] }, x(8, 3));
    larger::<Bt<2>>(ctx, if t { &[60, 150] } else { &[60] }, x(11, 3));
    larger::<Bt<5>>(ctx, if t { &[84, 200] } else { &[84] }, x(14, 5));
    larger::<Bt<16>>(ctx, if t { &[84, 200] } else { &[84] }, x(14, 5));
    larger::<Fixed>(ctx, if t { &[84, 200] } else { &[84] }, x(14, 5));
    larger::<Narrow>(ctx, if t { &[84, 200] } else { &[84] }, x(14, 5));
    built::<Avl>(ctx, &[8, 40]);
    built::<Bt<1>>(ctx, &[8, 40]);
    built::<Bt<2>>(ctx, &[12, 60]);
    built::<Bt<5>>(ctx, &[14, 150]);
    built::<Bt<16>>(ctx, &[14, 150]);
    built::<Fixed>(ctx, &[14, 150]);
    built::<Narrow>(ctx, &[14, 150]);
}

pub fn replay(case: &str) -> Result<(), String> {
    let _ = take_fault();
    let Some(rest) = case.strip_prefix("lie ") else {
        return crate::fam::replay_c02(case);
    };
    let p: Vec<&str> = rest.splitn(5, ' ').collect();
    ensure!(p.len() == 5, "bad case");
    let mode: u8 = p[0].parse().map_err(|_| "bad case")?;
    let script: Vec<u8> = if p[1] == "-" { vec![] } else { p[1].bytes().map(|b| b - b'0').collect() };
    let (a, b) = p[4].split_once('|').ok_or("bad case")?;
    fn go<F: Panicky>(a: &str, b: &str, mode: u8, script: &[u8]) -> Result<(), String> {
        run::<F>(&F::parse(a)?, &F::parse(b)?, mode, script, script.len(), &mut 0).map(|_| ())
    }
    fn gm<M: MapSub>(a: &str, b: &str, mode: u8, script: &[u8]) -> Result<(), String> {
        go::<Fam<M>>(a, b, mode, script)
    }
    fn gs<S: SetSub>(a: &str, b: &str, mode: u8, script: &[u8]) -> Result<(), String> {
        go::<SFam<S>>(a, b, mode, script)
    }
    match p[2] {
        "map" => for_map!(p[3], gm, a, b, mode, &script),
        "set" => for_set!(p[3], gs, a, b, mode, &script),
        _ => Err("bad case".into()),
    }
}

#[allow(dead_code)]
fn unused() {
    guarded(|| ());
}
