//! C03: balance, order and logarithmic search cost in every reachable state.

use crate::c01;
use crate::elem::*;
use crate::engine::*;
use crate::fam::*;
use crate::machine::*;
use crate::shapes::*;
use crate::narrow::Narrow;
use crate::subj::*;
use crate::{ensure, for_map};

/// The structure of a map as seen from outside: which keys every lookup meets,
/// and which entries lie in the same memory block.
pub fn inspect<M: MapSub>(
    m: &M,
    md: &Model,
    blocks: &std::collections::BTreeMap<usize, usize>,
) -> Result<(), String> {
    let n = md.len();
    if n == 0 {
        return Ok(());
    }
    let rank = |k: i64| md.find(k).ok();
    // node of every entry, and the ranks every lookup meets
    let mut node = vec![0usize; n];
    let mut path: Vec<Vec<usize>> = Vec::with_capacity(n);
    for (i, e) in md.0.iter().enumerate() {
        reg().cmp_log = Some(Vec::with_capacity(32));
        reg().cmp_target = e.0;
        let v = m.get_q(&KQ(e.0));
        let log = reg().cmp_log.take().unwrap();
        let a = v.ok_or(format!("get({}) finds nothing", e.0))? as *const Val as usize;
        let b = blocks.range(..=a).next_back().filter(|(p, l)| a < **p + **l);
        match b {
            None => return Ok(()), // not allocated by this execution: layout unknown
            Some((p, _)) => node[i] = *p,
        }
        path.push(log.iter().filter_map(|k| rank(*k)).collect());
    }
    // nodes on the way to every entry
    let mut trail: Vec<Vec<usize>> = vec![];
    for p in &path {
        let mut t: Vec<usize> = vec![];
        for r in p {
            if t.last() != Some(&node[*r]) {
                t.push(node[*r]);
            }
        }
        trail.push(t);
    }
    use std::collections::HashMap;
    let mut occ: HashMap<usize, Vec<usize>> = HashMap::new();
    for (i, b) in node.iter().enumerate() {
        occ.entry(*b).or_default().push(i);
    }
    let mut parent: HashMap<usize, Option<usize>> = HashMap::new();
    let mut depth: HashMap<usize, usize> = HashMap::new();
    for (i, t) in trail.iter().enumerate() {
        ensure!(t.last() == Some(&node[i]), "the lookup of {} ends in another node", md.0[i].0);
        for (d, b) in t.iter().enumerate() {
            let par = if d == 0 { None } else { Some(t[d - 1]) };
            let p0 = *parent.entry(*b).or_insert(par);
            ensure!(p0 == par, "a node is reached along two paths");
            let d0 = *depth.entry(*b).or_insert(d);
            ensure!(d0 == d, "a node is reached at two depths");
        }
    }
    let mut kids: HashMap<usize, Vec<usize>> = HashMap::new();
    let mut roots = 0;
    for (b, p) in &parent {
        match p {
            Some(p) => kids.entry(*p).or_default().push(*b),
            None => roots += 1,
        }
    }
    ensure!(roots == 1, "{roots} roots");
    if M::KIND == Kind::Avl {
        // heights, deepest nodes first
        let mut order: Vec<usize> = occ.keys().copied().collect();
        order.sort_by_key(|b| std::cmp::Reverse(depth[b]));
        let mut ht: HashMap<usize, (usize, usize)> = HashMap::new(); // left, right heights
        for b in &order {
            let es = &occ[b];
            ensure!(es.len() == 1, "an AVL node with {} entries", es.len());
            let (l, r) = *ht.entry(*b).or_insert((0, 0));
            ensure!(
                l.abs_diff(r) <= 1,
                "key {}: subtree heights {l} and {r}",
                md.0[es[0]].0
            );
            let h = 1 + l.max(r);
            if let Some(p) = parent[b] {
                let s = ht.entry(p).or_insert((0, 0));
                let side = if es[0] < occ[&p][0] { &mut s.0 } else { &mut s.1 };
                ensure!(*side == 0, "a binary node with two children on one side");
                *side = h;
            }
        }
    } else {
        let mut leaf_depth = None;
        for (b, es) in &occ {
            let is_root = parent[b].is_none();
            let k = md.0[es[0]].0;
            ensure!(es.len() <= M::MAXOCC, "node of key {k} holds {} entries, at most {}", es.len(), M::MAXOCC);
            ensure!(
                is_root || es.len() >= M::MINOCC,
                "node of key {k} holds {} entries, at least {}",
                es.len(),
                M::MINOCC
            );
            match kids.get(b) {
                None => {
                    let d = depth[b];
                    ensure!(
                        *leaf_depth.get_or_insert(d) == d,
                        "leaves at depths {} and {d} (key {k})",
                        leaf_depth.unwrap()
                    );
                    for w in es.windows(2) {
                        ensure!(w[1] == w[0] + 1, "entries missing from a leaf");
                    }
                }
                Some(ks) => {
                    ensure!(
                        ks.len() == es.len() + 1,
                        "node of key {k} has {} entries and {} children",
                        es.len(),
                        ks.len()
                    );
                }
            }
        }
    }
    Ok(())
}

/// Most comparisons any lookup, insertion or removal may need.
pub fn cost_bound<M: MapSub>(n: usize) -> (u64, u64) {
    let lg = |x: f64| x.log2();
    match M::KIND {
        Kind::Avl => {
            let h = (1.4405 * lg(n as f64 + 2.0)).ceil() as u64 + 1;
            (2 * h, 4 * h + 8)
        }
        _ => {
            let t = M::MINOCC as f64 + 1.0;
            let h = (lg((n as f64 + 1.0) / 2.0).max(0.0) / lg(t)).floor() as u64 + 1;
            // linear search within a node is allowed, twice per node for updates
            let w = M::MAXOCC as u64 + 1;
            (w * h, 2 * w * h + 2 * w)
        }
    }
}

fn costs<M: MapSub>(hist: &[Op], steps: &mut u64, each: usize) -> Result<(), String> {
    let f = run_history::<M>(hist, usize::MAX, Obs::Light, steps)?;
    let (m, md) = f.hs[0].as_ref().unwrap();
    let n = md.len();
    let (look, upd) = cost_bound::<M>(n + 1);
    let keys = md.keys();
    for i in (0..=n).step_by(each) {
        let mut probes = vec![gap_key(&keys, i)];
        if i < n {
            probes.push(keys[i]);
        }
        for k in probes {
            *steps += 1;
            let r = reg();
            r.cmps = 0;
            m.get_q(&KQ(k));
            ensure!(r.cmps <= look, "get({k}) of {n} entries needs {} comparisons, at most {look} expected", r.cmps);
            // on a clone: shares everything, so this also exercises path copying
            let mut c = m.clone();
            r.cmps = 0;
            c.insert_(Key::new(k, 0), Val::new(0));
            ensure!(r.cmps <= upd, "insert({k}) into {n} entries needs {} comparisons, at most {upd} expected", r.cmps);
            r.cmps = 0;
            c.remove_q(&KQ(k));
            ensure!(r.cmps <= upd, "remove({k}) from {n} entries needs {} comparisons, at most {upd} expected", r.cmps);
            r.cmps = 0;
            c.get_mut_q(&KQ(k));
            ensure!(r.cmps <= upd, "get_mut({k}) of {n} entries needs {} comparisons, at most {upd} expected", r.cmps);
            if M::RICH {
                r.cmps = 0;
                m.contains_q(&KQ(k));
                m.get_kv_q(&KQ(k));
                ensure!(r.cmps <= 2 * look, "contains_key and get_key_value({k}) need {} comparisons", r.cmps);
                r.cmps = 0;
                c.entry_op(Key::new(k, 0), EntryOp::OrInsert, 0);
                ensure!(r.cmps <= 2 * upd, "entry({k}).or_insert needs {} comparisons, at most {} expected", r.cmps, 2 * upd);
                r.cmps = 0;
                m.first_kv();
                m.last_kv();
                ensure!(r.cmps <= 2 * look, "first/last need {} comparisons", r.cmps);
            }
        }
    }
    take_fault()
}

/// Drive a history, recording memory blocks, and inspect every live handle.
pub fn inspected<M: MapSub>(hist: &[Op], steps: &mut u64) -> Result<(), String> {
    track_blocks();
    let r = (|| {
        let mut f = Fam::<M>::fresh();
        for (i, o) in hist.iter().enumerate() {
            f.apply(o)?;
            if i + 1 == hist.len() {
                *steps += 1;
                f.observe(Obs::Light)?;
            }
        }
        Ok::<_, String>(f)
    })();
    let blocks = tracked_blocks();
    let f = r?;
    for (m, md) in f.hs.iter().flatten() {
        inspect(m, md, &blocks)?;
    }
    take_fault()
}

/// Drive `base` and then `trail`, inspecting after every `each`-th operation of
/// the trail.
fn trailed<M: MapSub>(base: &[Op], trail: &[Op], each: usize, steps: &mut u64) -> Result<(), String> {
    reg().reset();
    let mut blocks = std::collections::BTreeMap::new();
    track_blocks();
    let r = (|| {
        let mut f = Fam::<M>::fresh();
        for o in base {
            f.apply(o)?;
        }
        for (i, o) in trail.iter().enumerate() {
            f.apply(o)?;
            *steps += 1;
            if i % each == each - 1 || i + 1 == trail.len() {
                tracked_so_far(&mut blocks);
                let (m, md) = f.hs[0].as_ref().unwrap();
                observe(m, md, Obs::Light)?;
                inspect(m, md, &blocks).map_err(|e| format!("after {} operations of the trail: {e}", i + 1))?;
                tracked_so_far(&mut blocks);
            }
        }
        Ok::<_, String>(())
    })();
    tracked_blocks();
    r?;
    take_fault()
}

/// Trails of `len` operations on a tree with `keys`: ways to shrink it or to
/// keep its size while everything moves.
fn trail<M: MapSub>(name: &str, keys: &[i64]) -> Vec<Op> {
    let mut ks = keys.to_vec();
    let mut v = vec![];
    let mut i = 0usize;
    let mut fresh = 0;
    while !ks.is_empty() && v.len() < 2 * keys.len() + 40 {
        i += 1;
        let n = ks.len();
        match name {
            "popf" if M::RICH => {
                ks.remove(0);
                v.push(op(OpK::PopF, 0, 0, 0));
            }
            "popl" if M::RICH => {
                ks.pop();
                v.push(op(OpK::PopL, 0, 0, 0));
            }
            "popf" | "popl" | "ends" | "mid" | "third" | "alt" => {
                let at = match name {
                    "popf" => 0,
                    "popl" => n - 1,
                    "ends" => if i % 2 == 0 { 0 } else { n - 1 },
                    "mid" => n / 2,
                    "third" => (i * 7) % n,
                    _ => (i * 2) % n,
                };
                v.push(op(OpK::Rem, 0, ks.remove(at), 0));
            }
            // a queue: remove the least, add above the greatest
            "queue" | "unqueue" => {
                let (from, to) = if name == "queue" { (0, n - 1) } else { (n - 1, 0) };
                v.push(op(OpK::Rem, 0, ks.remove(from), 0));
                let k = gap_key(&ks, to);
                ks.insert(to, k);
                v.push(op(OpK::Ins, 0, k, 0));
            }
            // grow at one place while shrinking at another
            _ => {
                fresh = (fresh + 5) % n;
                v.push(op(OpK::Rem, 0, ks.remove(n / 2), 0));
                let g = fresh.min(ks.len());
                let k = gap_key(&ks, g);
                ks.insert(g, k);
                v.push(op(OpK::Ins, 0, k, 0));
                if i % 3 == 0 {
                    v.push(op(OpK::Rem, 0, ks.remove(ks.len() / 3), 0));
                }
            }
        }
    }
    v
}

const TRAILS: [&str; 9] = ["popf", "popl", "ends", "mid", "third", "alt", "queue", "unqueue", "churn"];

fn trails<M: MapSub>(ctx: &Ctx, sizes: &[usize], points: usize) {
    let mut items = vec![];
    for p in PATTERNS {
        for &n in sizes {
            for t in TRAILS {
                items.push((p, n, t));
            }
        }
    }
    ctx.par_for(&items, |slot, &(p, n, t)| {
        if slot.ctx.stopped() {
            return;
        }
        let st = seed(p, n);
        let tr = trail::<M>(t, &st.keys);
        let each = (tr.len() / points).max(1);
        slot.case(
            |s| {
                s.push_str(&format!("trail {} {each} ", M::NAME));
                write_ops(&st.hist, s);
                s.push_str(" / ");
                write_ops(&tr, s);
            },
            |steps| trailed::<M>(&st.hist, &tr, each, steps),
        );
    });
    ctx.note(format!("trails {}: {TRAILS:?} from patterns {PATTERNS:?} at sizes {sizes:?}, inspected at up to {points} points each", M::NAME));
}

fn one<M: MapSub>(slot: &mut Slot, hist: &[Op]) {
    slot.case(
        |s| {
            s.push_str("shape ");
            s.push_str(M::NAME);
            s.push(' ');
            write_ops(hist, s);
        },
        |steps| {
            reg().reset();
            inspected::<M>(hist, steps)
        },
    );
}

fn cost_case<M: MapSub>(slot: &mut Slot, hist: &[Op], each: usize) {
    slot.case(
        |s| {
            s.push_str(&format!("cost {} {each} ", M::NAME));
            write_ops(hist, s);
        },
        |steps| costs::<M>(hist, steps, each),
    );
}

fn state_ops<M: MapSub>(keys: &[i64], max_n: usize) -> Vec<Op> {
    let mut v = c01::all_ops::<M>(keys, max_n);
    if M::RICH {
        let n = keys.len();
        for k in keys {
            v.push(op(OpK::SplitOff, 0, *k, 0));
        }
        let all = (1i64 << n) - 1;
        for i in 0..n {
            for j in i..n {
                // drop a run; keep a run
                let run = ((1i64 << (j - i + 1)) - 1) << i;
                v.push(op(OpK::Retain, 0, all & !run, 0));
                v.push(op(OpK::Retain, 0, run, 0));
            }
        }
        v.push(op(OpK::Retain, 0, 0x5555_5555, 0));
        v.push(op(OpK::Retain, 0, 0x2AAA_AAAA, 0));
        v.push(op(OpK::AppendSelfClone, 0, 0, 0));
    }
    v
}

fn states<M: MapSub>(ctx: &Ctx, max_n: usize, cap: usize) {
    let all = bfs::<M>(ctx, "all operations", max_n, cap, Obs::Light, &move |k: &[i64]| state_ops::<M>(k, max_n));
    // every transition again under block tracking, and search costs of every state
    ctx.par_for(&all, |slot, st| {
        for o in state_ops::<M>(&st.keys, max_n + 1) {
            if slot.ctx.stopped() {
                return;
            }
            let mut h = st.hist.clone();
            h.push(o);
            one::<M>(slot, &h);
        }
        cost_case::<M>(slot, &st.hist, 1);
    });
}

fn pairs<M: MapSub>(ctx: &Ctx, d: usize) {
    let l = placed::<M>(ctx, d, 0);
    let r = placed::<M>(ctx, d, 1);
    ctx.par_for(&l, |slot, (_, lh)| {
        for (_, rh) in &r {
            if slot.ctx.stopped() {
                return;
            }
            let mut base = vec![op(OpK::New, 0, 0, 0)];
            base.extend_from_slice(lh);
            base.extend_from_slice(rh);
            combine::<M>(slot, &base);
        }
    });
    ctx.note(format!("pairs {}: combinations of all {}x{} operands over {d} keys", M::NAME, l.len(), r.len()));
}

fn combine<M: MapSub>(slot: &mut Slot, base: &[Op]) {
    let mut ops = vec![op(OpK::Append, 0, 1, 0)];
    if M::KIND == Kind::Avl {
        for b in 0..4 {
            ops.push(op(OpK::BulkOp, 0, 1, b));
            ops.push(Op { c: 3, ..op(OpK::BulkOp, 0, 1, b) });
        }
    }
    for o in ops {
        let mut h = base.to_vec();
        h.push(o);
        one::<M>(slot, &h);
    }
}

fn big<M: MapSub>(ctx: &Ctx, sizes: &[usize], inspect_step: usize, pair_sizes: &[(usize, usize)]) {
    let mut items = vec![];
    for p in PATTERNS {
        for &n in sizes {
            items.push((p, n));
        }
    }
    ctx.par_for(&items, |slot, &(p, n)| {
        let st = seed(p, n);
        cost_case::<M>(slot, &st.hist, (n / 200).max(1));
        let n = st.keys.len();
        for i in (0..n).step_by(inspect_step.max(n / 60)) {
            if slot.ctx.stopped() {
                return;
            }
            let k = st.keys[i];
            let mut ops = vec![op(OpK::Rem, 0, k, 0), op(OpK::Ins, 0, gap_key(&st.keys, i), 0)];
            if M::RICH {
                ops.push(op(OpK::SplitOff, 0, k, 0));
                let m = (i as i64).wrapping_mul(0x9E37_79B9_7F4A_7C15u64 as i64) & i64::MAX;
                ops.push(op(OpK::Retain, 0, m, 0));
            }
            for o in ops {
                let mut h = st.hist.clone();
                h.push(o);
                one::<M>(slot, &h);
            }
        }
        // runs of removals from one place, inspecting at the end of each run
        for start in [0, n / 3, n / 2, n - 1] {
            for run in [n / 10 + 1, n / 2, n - 1] {
                let mut h = st.hist.clone();
                let mut keys = st.keys.clone();
                for _ in 0..run {
                    if keys.is_empty() {
                        break;
                    }
                    let k = keys.remove(start.min(keys.len() - 1));
                    h.push(op(OpK::Rem, 0, k, 0));
                }
                one::<M>(slot, &h);
                cost_case::<M>(slot, &h, (n / 100).max(1));
            }
        }
    });
    if M::RICH {
        let mut items = vec![];
        for &(n, m) in pair_sizes {
            for rel in RELATIONS {
                for p in ["asc", "desc", "thin", "bitrev"] {
                    for q in ["asc", "ragged"] {
                        items.push((n, m, rel, p, q));
                    }
                }
            }
        }
        ctx.par_for(&items, |slot, &(n, m, rel, p, q)| {
            let (l, r) = related(rel, n, m);
            let (a, b) = (seed(p, n), seed(q, r.len()));
            let mut base = vec![op(OpK::New, 0, 0, 0)];
            base.extend(remap(&a, &l[..a.keys.len()], 0));
            base.extend(remap(&b, &r[..b.keys.len()], 1));
            combine::<M>(slot, &base);
        });
    }
    ctx.note(format!(
        "larger trees {}: patterns {PATTERNS:?} at sizes {sizes:?}, single updates, split_off, retain and runs of removals; pairs {pair_sizes:?} in relations {RELATIONS:?}",
        M::NAME
    ));
}

/// deserialization from sorted and unsorted streams with exact and wrong hints
fn deserialized<M: crate::c11::DeMap>(ctx: &Ctx, max: usize) {
    let sizes: Vec<usize> = (0..=max).collect();
    ctx.par_for(&sizes, |slot, &n| {
        let mut hints: Vec<Option<usize>> = vec![None, Some(n)];
        for h in [n / 2, n.saturating_sub(1), n + 1, n + 2, n * 2, n * 3 + 7] {
            hints.push(Some(h));
        }
        for h in hints {
            for dis in 0..3 {
                slot.case(
                    |s| s.push_str(&format!("de {} {n} {} {dis}", M::NAME, h.map_or(-1, |x| x as i64))),
                    |steps| de_case::<M>(n, h, dis, steps),
                );
            }
        }
    });
    ctx.note(format!("deserialization {}: streams of 0..={max} entries (sorted, one swap, rotated) x 8 hints", M::NAME));
}

fn de_case<M: crate::c11::DeMap>(n: usize, hint: Option<usize>, dis: usize, steps: &mut u64) -> Result<(), String> {
    reg().reset();
    *steps += 1;
    let mut es: Vec<Ent> = (0..n).map(|i| (i as i64 * 4, i as u32, i as u32)).collect();
    if dis == 1 && n > 1 {
        es.swap(n / 2, n / 2 - 1);
    } else if dis == 2 && n > 1 {
        es.rotate_left(n / 3);
    }
    track_blocks();
    let m = crate::c11::de_map::<M>(&es, hint);
    let blocks = tracked_blocks();
    let m = m?;
    let mut md = Model::default();
    es.iter().for_each(|e| {
        md.insert(*e);
    });
    observe(&m, &md, Obs::Light)?;
    inspect(&m, &md, &blocks)?;
    let (look, _) = cost_bound::<M>(n);
    for e in &md.0 {
        reg().cmps = 0;
        m.get_q(&KQ(e.0));
        ensure!(reg().cmps <= look, "get({}) after deserialization needs {} comparisons", e.0, reg().cmps);
    }
    Ok(())
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    let x = |q: usize, th: usize| if t { th } else { q };
    let cap = if t { 200_000 } else { 10_000 };
    states::<Avl>(ctx, x(10, 13), cap);
    states::<Bt<1>>(ctx, x(11, 14), cap);
    states::<Bt<2>>(ctx, x(18, 22), cap);
    states::<Bt<3>>(ctx, x(17, 24), cap);
    states::<Bt<5>>(ctx, x(20, 26), cap);
    states::<Fixed>(ctx, x(22, 32), cap);
    states::<Narrow>(ctx, x(14, 26), cap);
    pairs::<Avl>(ctx, x(5, 6));
    pairs::<Bt<1>>(ctx, x(6, 8));
    pairs::<Bt<2>>(ctx, x(6, 9));
    deserialized::<Avl>(ctx, x(140, 600));
    deserialized::<Bt<1>>(ctx, x(140, 600));
    deserialized::<Bt<2>>(ctx, x(140, 600));
    deserialized::<Bt<3>>(ctx, x(140, 600));
    deserialized::<Bt<5>>(ctx, x(300, 1500));
    deserialized::<Bt<16>>(ctx, x(150, 1500));
    let sizes: &[usize] = if t { &[30, 64, 100, 250, 700, 1500, 5000] } else { &[30, 64, 130, 400, 1500] };
    let ps: &[(usize, usize)] =
        if t { &[(5, 60), (60, 5), (40, 40), (100, 100), (3, 300), (300, 3), (400, 60), (1, 1000)] } else { &[(5, 60), (60, 5), (40, 40), (100, 80), (2, 300)] };
    let st = x(7, 1);
    let tsizes: &[usize] = if t { &[7, 12, 20, 33, 60, 90, 150, 260, 400, 700] } else { &[12, 20, 33, 60, 150, 400] };
    let pts = x(250, 2000);
    trails::<Avl>(ctx, tsizes, pts);
    trails::<Bt<1>>(ctx, tsizes, pts);
    trails::<Bt<2>>(ctx, tsizes, pts);
    trails::<Bt<3>>(ctx, tsizes, pts);
    trails::<Bt<5>>(ctx, tsizes, pts);
    trails::<Bt<16>>(ctx, tsizes, pts);
    trails::<Fixed>(ctx, tsizes, pts);
    trails::<Narrow>(ctx, tsizes, pts);
    big::<Avl>(ctx, sizes, st, ps);
    big::<Bt<1>>(ctx, sizes, st, ps);
    big::<Bt<2>>(ctx, sizes, st, ps);
    big::<Bt<3>>(ctx, sizes, st, ps);
    big::<Bt<5>>(ctx, sizes, st, ps);
    big::<Bt<16>>(ctx, sizes, st, ps);
    big::<Fixed>(ctx, sizes, st, ps);
    big::<Narrow>(ctx, sizes, st, ps);
}

pub fn replay(case: &str) -> Result<(), String> {
    let _ = take_fault();
    let (word, rest) = case.split_once(' ').ok_or("bad case")?;
    match word {
        "map" => c01::replay(case),
        "shape" => {
            let (name, ops) = rest.split_once(' ').ok_or("bad case")?;
            let ops = parse_ops(ops)?;
            fn go<M: MapSub>(ops: &[Op]) -> Result<(), String> {
                reg().reset();
                inspected::<M>(ops, &mut 0)
            }
            for_map!(name, go, &ops)
        }
        "trail" => {
            let p: Vec<&str> = rest.splitn(3, ' ').collect();
            let each: usize = p[1].parse().map_err(|_| "bad case")?;
            let (a, b) = p.get(2).unwrap_or(&"").split_once(" / ").ok_or("bad case")?;
            let (a, b) = (parse_ops(a)?, parse_ops(b)?);
            fn go<M: MapSub>(a: &[Op], b: &[Op], each: usize) -> Result<(), String> {
                trailed::<M>(a, b, each, &mut 0)
            }
            for_map!(p[0], go, &a, &b, each)
        }
        "cost" => {
            let p: Vec<&str> = rest.splitn(3, ' ').collect();
            let each: usize = p[1].parse().map_err(|_| "bad case")?;
            let ops = parse_ops(p.get(2).unwrap_or(&""))?;
            fn go<M: MapSub>(ops: &[Op], each: usize) -> Result<(), String> {
                costs::<M>(ops, &mut 0, each)
            }
            for_map!(p[0], go, &ops, each)
        }
        "de" => {
            let p: Vec<&str> = rest.split(' ').collect();
            let n = p[1].parse().map_err(|_| "bad case")?;
            let h: i64 = p[2].parse().map_err(|_| "bad case")?;
            let d = p[3].parse().map_err(|_| "bad case")?;
            let h = if h < 0 { None } else { Some(h as usize) };
            match p[0] {
                "avl" => de_case::<Avl>(n, h, d, &mut 0),
                "bt1" => de_case::<Bt<1>>(n, h, d, &mut 0),
                "bt2" => de_case::<Bt<2>>(n, h, d, &mut 0),
                "bt3" => de_case::<Bt<3>>(n, h, d, &mut 0),
                "bt5" => de_case::<Bt<5>>(n, h, d, &mut 0),
                "bt16" => de_case::<Bt<16>>(n, h, d, &mut 0),
                _ => Err("bad case".into()),
            }
        }
        _ => Err("bad case".into()),
    }
}
