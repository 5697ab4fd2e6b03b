//! C17: which of two equal keys is kept and returned, and lookups by the
//! borrowed form of a key.

use crate::elem::*;
use crate::engine::*;
use crate::fam::*;
use crate::machine::*;
use crate::setm::*;
use crate::shapes::*;
use crate::subj::*;
use crate::{ensure, for_map, for_set};
use std::ops::Bound;

fn kd(kind: u8, k: i64) -> Bound<Key> {
    match kind {
        0 => Bound::Unbounded,
        1 => Bound::Included(Key::new(k, 0)),
        _ => Bound::Excluded(Key::new(k, 0)),
    }
}

/// every key and every gap
fn probes(keys: &[i64]) -> Vec<i64> {
    let mut v = keys.to_vec();
    for g in 0..=keys.len() {
        v.push(gap_key(keys, g));
    }
    v.sort_unstable();
    v
}

/// Every lookup by the borrowed form and by the key itself.
fn look_map<M: MapSub>(f: &Fam<M>, steps: &mut u64) -> Result<(), String> {
    for h in f.live() {
        let (m, md) = (f.m(h), f.model(h));
        for k in probes(&md.keys()) {
            *steps += 1;
            let q = KQ(k);
            let key = Key::new(k, 0);
            let want = md.get(k).copied();
            let wv = want.map(|e| e.2);
            let v = |x: Option<&Val>| {
                x.map(|v| {
                    v.check();
                    v.v
                })
            };
            ensure!(v(m.get_q(&q)) == wv, "get by the borrowed form of {k}");
            ensure!(v(m.get_k(&key)) == wv, "get by {k}");
            {
                let mut c = m.clone();
                ensure!(c.get_mut_q(&q).map(|v| v.v) == wv, "get_mut by the borrowed form of {k}");
                let mut c2 = m.clone();
                ensure!(c2.get_mut_k(&key).map(|v| v.v) == wv, "get_mut by {k}");
                observe(&c, md, Obs::Light)?;
                observe(&c2, md, Obs::Light)?;
            }
            let mut without = md.clone();
            without.remove(k);
            {
                let mut c = m.clone();
                ensure!(c.remove_q(&q).map(|v| v.v) == wv, "remove by the borrowed form of {k}");
                let mut c2 = m.clone();
                ensure!(c2.remove_k(&key).map(|v| v.v) == wv, "remove by {k}");
                observe(&c, &without, Obs::Light)?;
                observe(&c2, &without, Obs::Light)?;
            }
            if !M::RICH {
                continue;
            }
            ensure!(m.contains_q(&q) == want.is_some(), "contains_key by the borrowed form of {k}");
            ensure!(m.contains_k(&key) == want.is_some(), "contains_key by {k}");
            let g = m.get_kv_q(&q).map(|(k, v)| ent(k, v));
            ensure!(g == want, "get_key_value by the borrowed form of {k} is {g:?}, expected {want:?}");
            let g = m.get_kv_k(&key).map(|(k, v)| ent(k, v));
            ensure!(g == want, "get_key_value by {k} is {g:?}, expected {want:?}");
            if M::KIND == Kind::Avl {
                let mut c = m.clone();
                let g = c.remove_entry_q(&q).map(|(k, v)| ent(&k, &v));
                ensure!(g == want, "remove_entry by the borrowed form of {k} is {g:?}, expected {want:?}");
                let mut c2 = m.clone();
                let g = c2.remove_entry_k(&key).map(|(k, v)| ent(&k, &v));
                ensure!(g == want, "remove_entry by {k} is {g:?}, expected {want:?}");
                observe(&c, &without, Obs::Light)?;
                observe(&c2, &without, Obs::Light)?;
                if let Some(e) = want {
                    ensure!(m.index_q(&q).v == e.2 && m.index_k(&key).v == e.2, "index {k}");
                }
            }
            let at = md.0.partition_point(|e| e.0 < k);
            let (lo, hi) = (Model(md.0[..at].to_vec()), Model(md.0[at..].to_vec()));
            {
                let mut c = m.clone();
                let r = c.split_off_q(&q);
                observe(&c, &lo, Obs::Light).map_err(|e| format!("split_off by the borrowed form of {k}: left: {e}"))?;
                observe(&r, &hi, Obs::Light).map_err(|e| format!("split_off by the borrowed form of {k}: right: {e}"))?;
                let mut c = m.clone();
                let r = c.split_off_k(&key);
                observe(&c, &lo, Obs::Light).map_err(|e| format!("split_off by {k}: left: {e}"))?;
                observe(&r, &hi, Obs::Light).map_err(|e| format!("split_off by {k}: right: {e}"))?;
            }
            for (lo, hi) in [((1, k), (0, 0)), ((2, k), (0, 0)), ((0, 0), (1, k)), ((0, 0), (2, k)), ((1, k), (1, k))] {
                let want: Vec<Ent> = md.0.iter().copied().filter(|e| in_range(e.0, lo, hi)).collect();
                let a: Vec<Ent> = m.range_((bd(lo.0, lo.1), bd(hi.0, hi.1))).map(|(k, v)| ent(k, v)).collect();
                ensure!(a == want, "range by borrowed bounds {lo:?} {hi:?} yields {a:?}, expected {want:?}");
                let a: Vec<Ent> = m.range_k((kd(lo.0, lo.1), kd(hi.0, hi.1))).map(|(k, v)| ent(k, v)).collect();
                ensure!(a == want, "range by key bounds {lo:?} {hi:?} yields {a:?}, expected {want:?}");
                let mut c = m.clone();
                let a: Vec<Ent> = c.range_mut_((bd(lo.0, lo.1), bd(hi.0, hi.1))).map(|(k, v)| ent(k, v)).collect();
                ensure!(a == want, "range_mut by borrowed bounds {lo:?} {hi:?} yields {a:?}, expected {want:?}");
                let mut c = m.clone();
                let a: Vec<Ent> = c.range_mut_k((kd(lo.0, lo.1), kd(hi.0, hi.1))).map(|(k, v)| ent(k, v)).collect();
                ensure!(a == want, "range_mut by key bounds {lo:?} {hi:?} yields {a:?}, expected {want:?}");
            }
        }
    }
    take_fault()
}

fn look_set<S: SetSub>(f: &SFam<S>, steps: &mut u64) -> Result<(), String> {
    for h in f.live() {
        let (s, md) = (f.s(h), f.model(h));
        for k in probes(&md.keys()) {
            *steps += 1;
            let q = KQ(k);
            let key = Key::new(k, 0);
            let want = md.find(k).ok().map(|i| md.0[i]);
            ensure!(s.contains_q(&q) == want.is_some(), "contains by the borrowed form of {k}");
            ensure!(s.contains_k(&key) == want.is_some(), "contains by {k}");
            let g = s.get_q(&q).map(el);
            ensure!(g == want, "get by the borrowed form of {k} is {g:?}, expected {want:?}");
            let g = s.get_k(&key).map(el);
            ensure!(g == want, "get by {k} is {g:?}, expected {want:?}");
            let mut without = md.clone();
            without.remove(k);
            {
                let mut c = s.clone();
                let g = c.take_q(&q).map(|k| el(&k));
                ensure!(g == want, "take by the borrowed form of {k} is {g:?}, expected {want:?}");
                sobserve(&c, &without, Obs::Light)?;
                let mut c = s.clone();
                let g = c.take_k(&key).map(|k| el(&k));
                ensure!(g == want, "take by {k} is {g:?}, expected {want:?}");
                sobserve(&c, &without, Obs::Light)?;
                let mut c = s.clone();
                ensure!(c.remove_q(&q) == want.is_some(), "remove by the borrowed form of {k}");
                sobserve(&c, &without, Obs::Light)?;
                let mut c = s.clone();
                ensure!(c.remove_k(&key) == want.is_some(), "remove by {k}");
                sobserve(&c, &without, Obs::Light)?;
                let mut c = s.clone();
                let g = c.replace_(Key::new(k, 9999)).map(|k| el(&k));
                ensure!(g == want, "replace {k} returns {g:?}, expected {want:?}");
                let mut with = md.clone();
                with.insert((k, 9999));
                sobserve(&c, &with, Obs::Full)?;
                let mut c = s.clone();
                let g = c.insert_(Key::new(k, 9998));
                ensure!(g == want.is_none(), "insert {k} returns {g}");
                let mut with = md.clone();
                with.insert((k, 9998));
                sobserve(&c, &with, Obs::Full)?;
            }
            let at = md.0.partition_point(|e| e.0 < k);
            let (lo, hi) = (SModel(md.0[..at].to_vec()), SModel(md.0[at..].to_vec()));
            {
                let mut c = s.clone();
                let r = c.split_off_q(&q);
                sobserve(&c, &lo, Obs::Light).map_err(|e| format!("split_off by the borrowed form of {k}: left: {e}"))?;
                sobserve(&r, &hi, Obs::Light).map_err(|e| format!("split_off by the borrowed form of {k}: right: {e}"))?;
                let mut c = s.clone();
                let r = c.split_off_k(&key);
                sobserve(&c, &lo, Obs::Light).map_err(|e| format!("split_off by {k}: left: {e}"))?;
                sobserve(&r, &hi, Obs::Light).map_err(|e| format!("split_off by {k}: right: {e}"))?;
            }
            for (lo, hi) in [((1, k), (0, 0)), ((2, k), (0, 0)), ((0, 0), (1, k)), ((0, 0), (2, k)), ((1, k), (1, k))] {
                let want: Vec<El> = md.0.iter().copied().filter(|e| in_range(e.0, lo, hi)).collect();
                let a: Vec<El> = s.range_((bd(lo.0, lo.1), bd(hi.0, hi.1))).map(el).collect();
                ensure!(a == want, "range by borrowed bounds {lo:?} {hi:?} yields {a:?}, expected {want:?}");
                let a: Vec<El> = s.range_k((kd(lo.0, lo.1), kd(hi.0, hi.1))).map(el).collect();
                ensure!(a == want, "range by key bounds {lo:?} {hi:?} yields {a:?}, expected {want:?}");
            }
        }
    }
    // lazily combined sets: the instances yielded
    for a in f.live() {
        for b in f.live() {
            let (l, lm) = (f.s(a), f.model(a));
            let (r, rm) = (f.s(b), f.model(b));
            for o in SET_OPS {
                *steps += 1;
                let want = set_op(o, lm, rm);
                let got: Vec<El> = S::op_iter(o, l, r).map(el).collect();
                ensure!(got.len() == want.len(), "lazy {o:?} yields {got:?}, expected {want:?}");
                for (g, w) in got.iter().zip(&want.0) {
                    let right = rm.find(g.0).ok().map(|i| rm.0[i].1);
                    let ok = g == w || (o == SetOp::Intersection && g.0 == w.0 && Some(g.1) == right);
                    ensure!(ok, "lazy {o:?} yields instance {g:?}, expected {w:?}");
                }
            }
        }
    }
    take_fault()
}

fn go_map<M: MapSub>(hist: &[Op], last: &[Op], steps: &mut u64) -> Result<(), String> {
    reg().reset();
    let mut f = Fam::<M>::new();
    for o in hist {
        f.apply(o)?;
    }
    for o in last {
        *steps += 1;
        f.apply(o)?;
        f.observe(Obs::Full)?;
    }
    if last.is_empty() {
        look_map(&f, steps)?;
        f.observe(Obs::Full)?;
    }
    Ok(())
}

fn go_set<S: SetSub>(hist: &[SOp], last: &[SOp], steps: &mut u64) -> Result<(), String> {
    reg().reset();
    let mut f = SFam::<S>::new();
    for o in hist {
        f.apply(o)?;
    }
    for o in last {
        *steps += 1;
        f.apply(o)?;
        f.observe(Obs::Full)?;
    }
    if last.is_empty() {
        look_set(&f, steps)?;
        f.observe(Obs::Full)?;
    }
    Ok(())
}

fn mcase<M: MapSub>(slot: &mut Slot, hist: &[Op], last: &[Op]) {
    slot.case(
        |s| {
            s.push_str("map ");
            s.push_str(M::NAME);
            s.push(' ');
            write_ops(hist, s);
            s.push('|');
            write_ops(last, s);
        },
        |steps| go_map::<M>(hist, last, steps),
    );
}

fn scase<S: SetSub>(slot: &mut Slot, hist: &[SOp], last: &[SOp]) {
    slot.case(
        |s| {
            s.push_str("set ");
            s.push_str(S::NAME);
            s.push(' ');
            write_sops(hist, s);
            s.push('|');
            write_sops(last, s);
        },
        |steps| go_set::<S>(hist, last, steps),
    );
}

/// operations that meet an equal key, or that hand keys out
fn key_ops<M: MapSub>(c: &[(usize, Vec<i64>)]) -> Vec<Op> {
    let mut v = vec![];
    for (h, keys) in c {
        let h = *h;
        let n = keys.len();
        for (i, k) in keys.iter().enumerate() {
            v.push(op(OpK::Ins, h, *k, 0));
            v.push(op(if i % 2 == 0 { OpK::Rem } else { OpK::RemK }, h, *k, 0));
            v.push(op(OpK::Extend, h, *k, keys[n - 1 - i]));
            if M::RICH {
                for b in [0, 2, 3, 5, 14] {
                    v.push(op(OpK::Entry, h, *k, b));
                }
                v.push(op(OpK::SplitOff, h, *k, 0));
            }
            if M::KIND == Kind::Avl {
                v.push(op(OpK::RemEntry, h, *k, 0));
            }
        }
        for g in 0..=n {
            v.push(op(OpK::Ins, h, gap_key(keys, g), 0));
            if M::RICH {
                v.push(op(OpK::Entry, h, gap_key(keys, g), 2));
            }
        }
        v.push(op(OpK::Rebuild, h, 0, 0));
        v.push(op(OpK::IterMut, h, 0, 0));
        for (a, b) in [(1, 0), (0, 1), (n as i64 / 2, n as i64 / 2)] {
            v.push(op(OpK::IntoPart, h, a, b));
        }
        if M::RICH {
            v.push(op(OpK::PopF, h, 0, 0));
            v.push(op(OpK::PopL, h, 0, 0));
            v.push(op(OpK::IntoKeys, h, 0, 0));
            v.push(op(OpK::FirstEntry, h, 0, 0));
            v.push(op(OpK::FirstEntry, h, 0, 5));
            v.push(op(OpK::LastEntry, h, 0, 14));
            v.push(op(OpK::LastEntry, h, 0, 7));
            for m in mask_bits(n) {
                v.push(op(OpK::Retain, h, m, 0));
            }
            for (g, _) in c {
                if *g != h {
                    v.push(op(OpK::Append, h, *g as i64, 0));
                }
                v.push(op(OpK::AppendSelfClone, h, *g as i64, 0));
            }
        }
        match M::KIND {
            Kind::Avl => {
                for (g, _) in c {
                    if *g != h {
                        v.push(op(OpK::ExtendRefs, h, *g as i64, 0));
                    }
                    for b in 0..4 {
                        v.push(op(OpK::BulkOp, h, *g as i64, b));
                        if *g != h {
                            v.push(Op { c: 3, ..op(OpK::BulkOp, h, *g as i64, b) });
                        }
                    }
                }
            }
            Kind::BTree => v.push(op(OpK::IntoVec, h, 0, 0)),
            Kind::Fixed => (),
        }
    }
    v
}

fn mask_bits(n: usize) -> Vec<i64> {
    let full = (1i64 << n.min(60)) - 1;
    vec![0, full, 0x5555_5555_5555_5555 & full, 0x2AAA_AAAA_AAAA_AAAA & full, full & !1]
}

fn skey_ops<S: SetSub>(c: &[(usize, Vec<i64>)]) -> Vec<SOp> {
    let mut v = vec![];
    for (h, keys) in c {
        let h = *h;
        let n = keys.len();
        for (i, k) in keys.iter().enumerate() {
            v.push(sop(SK::Ins, h, *k, 0));
            v.push(sop(SK::Replace, h, *k, 0));
            v.push(sop(if i % 2 == 0 { SK::Take } else { SK::TakeK }, h, *k, 0));
            v.push(sop(SK::Extend, h, *k, keys[n - 1 - i]));
            v.push(sop(SK::SplitOff, h, *k, 0));
        }
        for g in 0..=n {
            v.push(sop(SK::Replace, h, gap_key(keys, g), 0));
        }
        v.push(sop(SK::Rebuild, h, 0, 0));
        v.push(sop(SK::PopF, h, 0, 0));
        v.push(sop(SK::PopL, h, 0, 0));
        v.push(sop(SK::IntoPart, h, n as i64 / 2, if S::AVL { 0 } else { n as i64 / 2 }));
        for m in mask_bits(n) {
            v.push(sop(SK::Retain, h, m, 0));
        }
        for (g, _) in c {
            let g = *g;
            if g != h {
                v.push(sop(SK::Append, h, g as i64, 0));
                v.push(sop(SK::ExtendRefs, h, g as i64, 0));
            }
            v.push(sop(SK::AppendClone, h, g as i64, 0));
            for b in 0..4 {
                v.push(sop(SK::OpNew, h, g as i64, b));
                v.push(sop(SK::OpRef, h, g as i64, b));
                if g != h {
                    v.push(SOp { c: 3, ..sop(SK::OpNew, h, g as i64, b) });
                }
            }
        }
    }
    v
}

/// all shapes: lookups in both forms, every operation, every pair of operations
fn map_shapes<M: MapSub>(ctx: &Ctx, max_n: usize, cap: usize, pair_n: usize) {
    let st = shapes::<M>(ctx, max_n, cap);
    ctx.par_for(&st, |slot, s| {
        mcase::<M>(slot, &s.hist, &[]);
        let c = vec![(0usize, s.keys.clone())];
        for o in key_ops::<M>(&c) {
            if slot.ctx.stopped() {
                return;
            }
            mcase::<M>(slot, &s.hist, &[o]);
            if s.keys.len() <= pair_n && matches!(o.k, OpK::Ins | OpK::Extend | OpK::Entry) {
                for o2 in key_ops::<M>(&c) {
                    mcase::<M>(slot, &s.hist, &[o, o2]);
                }
            }
        }
    });
    ctx.note(format!(
        "instances {}: every operation (and pairs starting with an equal-key insertion up to {pair_n} entries), and every lookup by key and by borrowed form, on {} shapes of at most {max_n} entries",
        M::NAME,
        st.len()
    ));
}

/// two handles that hold different instances of equal keys
fn map_shared<M: MapSub>(ctx: &Ctx, max_n: usize) {
    let st = shapes::<M>(ctx, max_n, 1 << 18);
    let st: Vec<&State> = st.iter().filter(|s| !s.keys.is_empty()).collect();
    ctx.par_for(&st, |slot, s| {
        for (i, k) in s.keys.iter().enumerate() {
            for side in 0..2 {
                let mut h = s.hist.clone();
                h.push(op(OpK::Clone, 0, 0, 0));
                // a newer instance on one side
                h.push(op(OpK::Ins, side, *k, 0));
                if i == 0 {
                    mcase::<M>(slot, &h, &[]);
                }
                let c = vec![(0, s.keys.clone()), (1, s.keys.clone())];
                for o in key_ops::<M>(&c) {
                    if slot.ctx.stopped() {
                        return;
                    }
                    mcase::<M>(slot, &h, &[o]);
                }
            }
        }
    });
    ctx.note(format!("instances and clones {}: a newer instance of every key in either of two clones, then every operation, {} shapes of at most {max_n} entries", M::NAME, st.len()));
}

fn map_pairs<M: MapSub>(ctx: &Ctx, d: usize) {
    let l = placed::<M>(ctx, d, 0);
    let r = placed::<M>(ctx, d, 1);
    ctx.par_for(&l, |slot, (_, lh)| {
        for (_, rh) in &r {
            if slot.ctx.stopped() {
                return;
            }
            let mut base = vec![op(OpK::New, 0, 0, 0)];
            base.extend_from_slice(lh);
            base.extend_from_slice(rh);
            mcase::<M>(slot, &base, &[op(OpK::Append, 0, 1, 0)]);
            mcase::<M>(slot, &base, &[op(OpK::AppendSelfClone, 0, 1, 0)]);
            if M::KIND == Kind::Avl {
                for b in 0..4 {
                    mcase::<M>(slot, &base, &[op(OpK::BulkOp, 0, 1, b)]);
                    mcase::<M>(slot, &base, &[Op { c: 3, ..op(OpK::BulkOp, 0, 1, b) }]);
                }
                mcase::<M>(slot, &base, &[op(OpK::ExtendRefs, 0, 1, 0)]);
            }
        }
    });
    ctx.note(format!("instances, pairs {}: all {}x{} pairs over {d} keys, every combining operation", M::NAME, l.len(), r.len()));
}

fn set_pairs<S: SetSub>(ctx: &Ctx, d: usize) {
    let all = sshapes::<S>(ctx, d);
    let mut v: Vec<(Vec<SOp>, Vec<SOp>)> = vec![];
    for mask in 0u32..1 << d {
        let t: Vec<i64> = (0..d as i64).filter(|i| mask >> i & 1 == 1).map(|i| i * SP).collect();
        for st in all.iter().filter(|s| s.keys.len() == t.len()) {
            v.push((sremap(&st.hist, &st.keys, &t, 0), sremap(&st.hist, &st.keys, &t, 1)));
        }
    }
    ctx.par_for(&v, |slot, (l, _)| {
        for (_, r) in &v {
            if slot.ctx.stopped() {
                return;
            }
            let mut base = vec![sop(SK::New, 0, 0, 0)];
            base.extend_from_slice(l);
            base.extend_from_slice(r);
            set_combine::<S>(slot, &base);
        }
    });
    ctx.note(format!("instances, pairs {}: all {}^2 pairs over {d} elements, every combining operation", S::NAME, v.len()));
}

fn set_combine<S: SetSub>(slot: &mut Slot, base: &[SOp]) {
    scase::<S>(slot, base, &[]);
    scase::<S>(slot, base, &[sop(SK::Append, 0, 1, 0)]);
    scase::<S>(slot, base, &[sop(SK::ExtendRefs, 0, 1, 0)]);
    for b in 0..4 {
        scase::<S>(slot, base, &[sop(SK::OpNew, 0, 1, b)]);
        scase::<S>(slot, base, &[sop(SK::OpRef, 0, 1, b)]);
        scase::<S>(slot, base, &[SOp { c: 3, ..sop(SK::OpNew, 0, 1, b) }]);
    }
}

fn set_shapes<S: SetSub>(ctx: &Ctx, max_n: usize, pair_n: usize) {
    let st = sshapes::<S>(ctx, max_n);
    ctx.par_for(&st, |slot, s| {
        scase::<S>(slot, &s.hist, &[]);
        let c = vec![(0usize, s.keys.clone())];
        for o in skey_ops::<S>(&c) {
            if slot.ctx.stopped() {
                return;
            }
            scase::<S>(slot, &s.hist, &[o]);
            if s.keys.len() <= pair_n && matches!(o.k, SK::Ins | SK::Replace | SK::Extend) {
                for o2 in skey_ops::<S>(&c) {
                    scase::<S>(slot, &s.hist, &[o, o2]);
                }
            }
        }
        // a clone with a newer instance
        for k in &s.keys {
            for side in 0..2 {
                let mut h = s.hist.clone();
                h.push(sop(SK::Clone, 0, 0, 0));
                h.push(sop(SK::Replace, side, *k, 0));
                let c = vec![(0, s.keys.clone()), (1, s.keys.clone())];
                scase::<S>(slot, &h, &[]);
                for o in skey_ops::<S>(&c) {
                    if slot.ctx.stopped() {
                        return;
                    }
                    scase::<S>(slot, &h, &[o]);
                }
            }
        }
    });
    ctx.note(format!("instances {}: every operation, pairs up to {pair_n}, lookups in both forms, and clones with a newer instance of every element, on {} shapes of at most {max_n} elements", S::NAME, st.len()));
}

/// larger operands, every size pair, to cross every size-dependent strategy
fn set_sizes<S: SetSub>(ctx: &Ctx, a: usize, b: usize, step: usize) {
    let mut items = vec![];
    for n in 0..=a {
        for m in (0..=b).step_by(step) {
            for rel in ["equal", "overlap-lo", "overlap-hi", "sparse"] {
                items.push((n, m, rel));
                items.push((m, n, rel));
            }
        }
    }
    for (n, m) in BIG_PAIRS {
        for rel in ["equal", "overlap-lo", "sparse"] {
            items.push((n, m, rel));
        }
    }
    ctx.par_for(&items, |slot, &(n, m, rel)| {
        let (l, r) = related(rel, n, m);
        let (x, y) = (seed("mid", n), seed("bitrev", r.len()));
        let mut base = vec![sop(SK::New, 0, 0, 0)];
        base.extend(to_sops(&remap(&x, &l[..x.keys.len()], 0)));
        base.extend(to_sops(&remap(&y, &r[..y.keys.len()], 1)));
        for b in 0..4 {
            scase::<S>(slot, &base, &[sop(SK::OpNew, 0, 1, b)]);
            scase::<S>(slot, &base, &[sop(SK::OpRef, 0, 1, b)]);
        }
        scase::<S>(slot, &base, &[sop(SK::Append, 0, 1, 0)]);
    });
    ctx.note(format!("instances, sizes {}: all sizes up to {a} against up to {b} (step {step}), both ways", S::NAME));
}

const BIG_PAIRS: [(usize, usize); 7] = [(300, 300), (1100, 1000), (1, 1500), (1500, 1), (40, 700), (700, 40), (200, 260)];

fn map_sizes<M: MapSub>(ctx: &Ctx, a: usize, b: usize, step: usize) {
    let mut items = vec![];
    for (n, m) in BIG_PAIRS {
        for rel in ["equal", "overlap-lo", "sparse"] {
            items.push((n, m, rel));
        }
    }
    for n in 0..=a {
        for m in (0..=b).step_by(step) {
            for rel in ["equal", "overlap-lo", "overlap-hi", "sparse"] {
                items.push((n, m, rel));
                items.push((m, n, rel));
            }
        }
    }
    ctx.par_for(&items, |slot, &(n, m, rel)| {
        let (l, r) = related(rel, n, m);
        let (x, y) = (seed("mid", n), seed("bitrev", r.len()));
        let mut base = vec![op(OpK::New, 0, 0, 0)];
        base.extend(remap(&x, &l[..x.keys.len()], 0));
        base.extend(remap(&y, &r[..y.keys.len()], 1));
        mcase::<M>(slot, &base, &[op(OpK::Append, 0, 1, 0)]);
        if M::KIND == Kind::Avl {
            for b in 0..4 {
                mcase::<M>(slot, &base, &[op(OpK::BulkOp, 0, 1, b)]);
            }
        }
    });
    ctx.note(format!("instances, sizes {}: all sizes up to {a} against up to {b} (step {step}), both ways", M::NAME));
}

/// collect, extend and array construction with repeated keys
fn streams<M: MapSub>(ctx: &Ctx, len: i64, digits: i64) {
    let mut items = vec![];
    for n in 0..=len {
        for x in 0..digits.pow(n as u32) {
            let mut a = 0;
            let mut y = x;
            for i in 0..n {
                a |= (y % digits) << (3 * i);
                y /= digits;
            }
            for c in [0u8, 1, 2] {
                if c == 2 && (n != 3 || !M::RICH) {
                    continue;
                }
                items.push((a, n, c));
            }
        }
    }
    ctx.par_for(&items, |slot, &(a, n, c)| {
        let mut h = vec![];
        if c == 1 {
            for k in [5i64, 10, 25] {
                h.push(op(OpK::Ins, 0, k, 0));
            }
        }
        mcase::<M>(slot, &h, &[Op { c, ..op(OpK::FromSeq, 0, a, n) }]);
    });
    ctx.note(format!("streams {}: collect, extend and arrays of all sequences of up to {len} keys over {digits} values", M::NAME));
}

fn sstreams<S: SetSub>(ctx: &Ctx, len: i64, digits: i64) {
    let mut items = vec![];
    for n in 0..=len {
        for x in 0..digits.pow(n as u32) {
            let mut a = 0;
            let mut y = x;
            for i in 0..n {
                a |= (y % digits) << (3 * i);
                y /= digits;
            }
            for c in [0u8, 1, 3, 2] {
                if c == 2 && n != 3 {
                    continue;
                }
                items.push((a, n, c));
            }
        }
    }
    ctx.par_for(&items, |slot, &(a, n, c)| {
        let mut h = vec![];
        if c == 1 {
            for k in [5i64, 10, 25] {
                h.push(sop(SK::Ins, 0, k, 0));
            }
        }
        scase::<S>(slot, &h, &[SOp { c, ..sop(SK::FromSeq, 0, a, n) }]);
    });
    ctx.note(format!("streams {}: all sequences of up to {len} elements over {digits} values", S::NAME));
}

fn big<M: MapSub>(ctx: &Ctx, sizes: &[usize]) {
    let mut items = vec![];
    for p in PATTERNS {
        for &n in sizes {
            let st = seed(p, n);
            for o in key_ops::<M>(&[(0, st.keys.clone())]) {
                items.push((p, n, Some(o)));
            }
            items.push((p, n, None));
        }
    }
    ctx.par_for(&items, |slot, (p, n, o)| {
        let st = seed(p, *n);
        match o {
            Some(o) => mcase::<M>(slot, &st.hist, &[*o]),
            None => mcase::<M>(slot, &st.hist, &[]),
        }
    });
    ctx.note(format!("instances, larger {}: every operation at every key, patterns {PATTERNS:?}, sizes {sizes:?}", M::NAME));
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    let x = |q: usize, th: usize| if t { th } else { q };
    let cap = x(4_000, 60_000);
    map_shapes::<Avl>(ctx, x(9, 12), cap, x(5, 7));
    map_shapes::<Bt<1>>(ctx, x(9, 13), cap, x(6, 9));
    map_shapes::<Bt<2>>(ctx, x(12, 17), cap, x(8, 11));
    map_shapes::<Bt<5>>(ctx, x(17, 25), cap, x(12, 13));
    map_shapes::<Fixed>(ctx, x(24, 36), cap, x(13, 20));
    map_shared::<Avl>(ctx, x(6, 8));
    map_shared::<Bt<1>>(ctx, x(6, 9));
    map_shared::<Bt<2>>(ctx, x(8, 12));
    map_shared::<Fixed>(ctx, x(13, 20));
    map_pairs::<Avl>(ctx, x(5, 7));
    map_pairs::<Bt<1>>(ctx, x(5, 7));
    map_pairs::<Bt<2>>(ctx, x(6, 8));
    set_pairs::<AvlS>(ctx, x(5, 7));
    set_pairs::<BtS<1>>(ctx, x(5, 7));
    set_pairs::<BtS<5>>(ctx, x(5, 7));
    set_shapes::<AvlS>(ctx, x(7, 9), x(4, 6));
    set_shapes::<BtS<1>>(ctx, x(7, 10), x(5, 7));
    set_shapes::<BtS<2>>(ctx, x(8, 12), x(6, 8));
    set_sizes::<AvlS>(ctx, x(6, 14), x(50, 120), x(3, 1));
    set_sizes::<BtS<1>>(ctx, x(6, 14), x(50, 120), x(3, 1));
    set_sizes::<BtS<5>>(ctx, x(6, 14), x(50, 120), x(3, 1));
    set_sizes::<BtS<16>>(ctx, x(6, 14), x(50, 120), x(3, 1));
    map_sizes::<Avl>(ctx, x(6, 14), x(50, 120), x(3, 1));
    map_sizes::<Bt<1>>(ctx, x(6, 14), x(50, 120), x(3, 1));
    map_sizes::<Bt<5>>(ctx, x(6, 14), x(50, 120), x(3, 1));
    map_sizes::<Bt<16>>(ctx, x(6, 14), x(50, 120), x(3, 1));
    streams::<Avl>(ctx, x(5, 7) as i64, 4);
    streams::<Bt<1>>(ctx, x(5, 7) as i64, 4);
    streams::<Bt<5>>(ctx, x(4, 6) as i64, 4);
    streams::<Fixed>(ctx, x(4, 6) as i64, 4);
    sstreams::<AvlS>(ctx, x(5, 7) as i64, 4);
    sstreams::<BtS<1>>(ctx, x(5, 7) as i64, 4);
    let sz: &[usize] = if t { &[40, 90, 200] } else { &[40] };
    big::<Avl>(ctx, sz);
    big::<Bt<1>>(ctx, sz);
    big::<Bt<2>>(ctx, sz);
    big::<Bt<5>>(ctx, if t { &[84, 250] } else { &[84] });
    big::<Bt<16>>(ctx, if t { &[84, 250] } else { &[84] });
    big::<Fixed>(ctx, if t { &[84, 250] } else { &[84] });
}

pub fn replay(case: &str) -> Result<(), String> {
    let _ = take_fault();
    let (word, rest) = case.split_once(' ').ok_or("bad case")?;
    let (name, rest) = rest.split_once(' ').ok_or("bad case")?;
    let (a, b) = rest.split_once('|').unwrap_or((rest, ""));
    fn m<M: MapSub>(a: &str, b: &str) -> Result<(), String> {
        let mut n = 0;
        go_map::<M>(&parse_ops(a)?, &parse_ops(b)?, &mut n)
    }
    fn s<S: SetSub>(a: &str, b: &str) -> Result<(), String> {
        let mut n = 0;
        go_set::<S>(&parse_sops(a)?, &parse_sops(b)?, &mut n)
    }
    match word {
        "map" => for_map!(name, m, a, b),
        "set" => for_set!(name, s, a, b),
        _ => Err("bad case".into()),
    }
}
