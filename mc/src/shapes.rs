//! Enumeration of tree shapes and larger seed trees.

use crate::elem::*;
use crate::engine::*;
use crate::machine::*;
use crate::subj::*;
use std::collections::HashSet;

/// A key for gap `g` of the sorted `keys`.
pub fn gap_key(keys: &[i64], g: usize) -> i64 {
    const STEP: i64 = 1 << 48;
    if keys.is_empty() {
        0
    } else if g == 0 {
        keys[0] - STEP
    } else if g == keys.len() {
        keys[g - 1] + STEP
    } else {
        keys[g - 1] + (keys[g] - keys[g - 1]) / 2
    }
}

/// One state of the single-map exploration.
#[derive(Clone)]
pub struct State {
    pub hist: Vec<Op>,
    pub keys: Vec<i64>,
}

pub fn hash_fp(fp: &[u16]) -> u128 {
    // two independent 64-bit FNV-style hashes
    let (mut a, mut b) = (0xcbf29ce484222325u64, 0x9E3779B97F4A7C15u64);
    for x in fp {
        a = (a ^ *x as u64).wrapping_mul(0x100000001b3);
        b = (b.rotate_left(7) ^ (*x as u64).wrapping_mul(0xff51afd7ed558ccd)).wrapping_mul(0xc4ceb9fe1a85ec53);
    }
    (a as u128) << 64 | b as u128
}

/// Breadth-first search over all canonical shapes with at most `max_n`
/// entries.  `ops(keys)` lists the transitions; each is executed on a freshly
/// replayed map, compared with the model, and observed with `obs`.
pub fn bfs<M: MapSub>(
    ctx: &Ctx,
    label: &str,
    max_n: usize,
    max_states: usize,
    obs: Obs,
    ops: &(dyn Fn(&[i64]) -> Vec<Op> + Sync),
) -> Vec<State> {
    let mut seen: HashSet<u128> = HashSet::new();
    let init = State { hist: vec![], keys: vec![] };
    {
        reg().reset();
        let f = Fam::<M>::new();
        seen.insert(hash_fp(&f.fingerprint()));
    }
    let mut all = vec![init.clone()];
    let mut frontier = vec![init];
    let mut depth = 0;
    let mut complete = true;
    while !frontier.is_empty() && !ctx.stopped() {
        let next = ctx.par_map(&frontier, |slot, st: &State| {
            let mut out: Vec<(u128, Op, Vec<i64>)> = vec![];
            for o in ops(&st.keys) {
                if slot.ctx.stopped() {
                    break;
                }
                let r = slot.case(
                    |s| {
                        s.push_str("map ");
                        s.push_str(M::NAME);
                        s.push(' ');
                        write_ops(&st.hist, s);
                        if !st.hist.is_empty() {
                            s.push(';');
                        }
                        write_ops(&[o], s);
                    },
                    |steps| {
                        let mut f = run_history::<M>(&st.hist, usize::MAX, obs, steps)?;
                        f.apply(&o)?;
                        *steps += 1;
                        f.observe(obs)?;
                        let live = f.live();
                        if live.len() != 1 || live[0] != 0 {
                            return Ok(None);
                        }
                        let keys = f.model(0).keys();
                        let fp = hash_fp(&f.fingerprint());
                        take_fault()?;
                        Ok(Some((fp, keys)))
                    },
                );
                if let Some(Some((fp, keys))) = r {
                    slot.outcome(fp as u64);
                    if keys.len() <= max_n {
                        out.push((fp, o, keys));
                    }
                }
            }
            out
        });
        let mut nf = vec![];
        for (i, r) in next.into_iter().enumerate() {
            for (fp, o, keys) in r.into_iter().flatten() {
                if seen.len() >= max_states {
                    complete = false;
                    break;
                }
                if seen.insert(fp) {
                    let mut hist = frontier[i].hist.clone();
                    hist.push(o);
                    nf.push(State { hist, keys });
                }
            }
        }
        all.extend(nf.iter().cloned());
        frontier = nf;
        depth += 1;
    }
    ctx.add_states(all.len() as u64);
    ctx.note(format!(
        "{label} {}: {} canonical states with at most {max_n} entries, {}, depth {depth}",
        M::NAME,
        all.len(),
        if complete && !ctx.stopped() { "search complete (fixpoint)" } else { "state cap reached" }
    ));
    all
}

/// Insert/remove only: used to obtain every shape as a starting point.
pub fn basic_ops(max_n: usize) -> impl Fn(&[i64]) -> Vec<Op> + Sync {
    move |keys| {
        let mut v = vec![];
        if keys.len() < max_n {
            for g in 0..=keys.len() {
                v.push(op(OpK::Ins, 0, gap_key(keys, g), 0));
            }
        }
        for k in keys {
            v.push(op(OpK::Rem, 0, *k, 0));
        }
        v
    }
}

pub fn shapes<M: MapSub>(ctx: &Ctx, max_n: usize, max_states: usize) -> Vec<State> {
    bfs::<M>(ctx, "shapes", max_n, max_states, Obs::Light, &basic_ops(max_n))
}

/// Larger trees, built by deterministic patterns.
pub const PATTERNS: [&str; 7] = ["asc", "desc", "ends", "mid", "bitrev", "thin", "ragged"];

/// those used at sizes past any at which an implementation might switch strategy
pub const BIG_PATTERNS: [&str; 3] = ["asc", "bitrev", "ragged"];

/// the ends, the middle, and around each power of two
pub fn places(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 4, n / 2, 3 * n / 4, n.max(2) - 2, n.max(1) - 1];
    let mut p = 16;
    while p < n {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.retain(|i| *i < n);
    v.sort();
    v.dedup();
    v
}

pub fn at_places(keys: &[i64]) -> Vec<i64> {
    places(keys.len()).into_iter().map(|i| keys[i]).collect()
}

pub fn seed(pattern: &str, n: usize) -> State {
    let mut hist = vec![];
    let ins = |k: i64| op(OpK::Ins, 0, k << 20, 0);
    let rem = |k: i64| op(OpK::Rem, 0, k << 20, 0);
    let n = n as i64;
    match pattern {
        "asc" => (0..n).for_each(|i| hist.push(ins(i))),
        "desc" => (0..n).rev().for_each(|i| hist.push(ins(i))),
        "ends" => (0..n).for_each(|i| hist.push(ins(if i % 2 == 0 { i } else { -i }))),
        "mid" => {
            // always insert in the middle of what is there
            (0..n).for_each(|i| hist.push(ins(if i % 2 == 0 { -n + i } else { n - i })))
        }
        "bitrev" => {
            let bits = 64 - (n as u64).leading_zeros();
            let mut c = 0;
            let mut i: u64 = 0;
            while c < n {
                let r = (i.reverse_bits() >> (64 - bits)) as i64;
                i += 1;
                if r < n {
                    hist.push(ins(r));
                    c += 1;
                }
            }
        }
        "thin" => {
            // fill to 2n, then remove every other entry
            (0..2 * n).for_each(|i| hist.push(ins(i)));
            (0..n).for_each(|i| hist.push(rem(2 * i)));
        }
        "ragged" => {
            // fill, empty the left part, refill at the seam
            (0..n + n / 2).for_each(|i| hist.push(ins(i)));
            (0..n / 2).for_each(|i| hist.push(rem(i)));
        }
        _ => panic!("unknown pattern {pattern}"),
    }
    let mut md = Model::default();
    for o in &hist {
        match o.k {
            OpK::Ins => {
                md.insert((o.a, 0, 0));
            }
            _ => {
                md.remove(o.a);
            }
        }
    }
    State { hist, keys: md.keys() }
}

/// Replay the history of `st` with its final keys renamed to `targets`
/// (ascending, far apart), on handle `h`.
pub fn remap(st: &State, targets: &[i64], h: usize) -> Vec<Op> {
    assert_eq!(st.keys.len(), targets.len());
    let mut all: Vec<i64> = st.hist.iter().map(|o| o.a).collect();
    all.sort_unstable();
    all.dedup();
    let mut names = std::collections::HashMap::new();
    let mut j = 0;
    let mut base = targets.first().map_or(0, |t| t - 4096);
    let mut i = 0;
    for k in &all {
        if i < st.keys.len() && *k == st.keys[i] {
            names.insert(*k, targets[i]);
            base = targets[i];
            i += 1;
            j = 0;
        } else {
            j += 1;
            names.insert(*k, base + j);
        }
    }
    st.hist
        .iter()
        .map(|o| Op { h: h as u8, a: *names.get(&o.a).unwrap_or(&o.a), ..*o })
        .collect()
}

pub const SP: i64 = 1 << 16;

/// Every subset of 0..d paired with every shape of that size, as histories on
/// handle `h` (key i is i * SP).
pub fn placed<M: MapSub>(ctx: &Ctx, d: usize, h: usize) -> Vec<(Vec<i64>, Vec<Op>)> {
    let all = shapes::<M>(ctx, d, 1 << 20);
    let mut v = vec![];
    for mask in 0u32..1 << d {
        let t: Vec<i64> = (0..d as i64).filter(|i| mask >> i & 1 == 1).map(|i| i * SP).collect();
        for st in all.iter().filter(|s| s.keys.len() == t.len()) {
            v.push((t.clone(), remap(st, &t, h)));
        }
    }
    v
}

/// How the keys of a second operand relate to those of a first one.
pub const RELATIONS: [&str; 8] =
    ["below", "above", "equal", "between", "alternate", "overlap-lo", "overlap-hi", "sparse"];

/// Target keys for operands of sizes n and m in the given relation.
pub fn related(rel: &str, n: usize, m: usize) -> (Vec<i64>, Vec<i64>) {
    let (n, m) = (n as i64, m as i64);
    let l: Vec<i64> = (0..n).map(|i| i * 4 * SP).collect();
    let r: Vec<i64> = match rel {
        "below" => (0..m).map(|i| (i - m - 1) * 4 * SP).collect(),
        "above" => (0..m).map(|i| (i + n + 1) * 4 * SP).collect(),
        "equal" => (0..m).map(|i| i * 4 * SP).collect(),
        // all inside one gap in the middle of l
        "between" => (0..m).map(|i| n / 2 * 4 * SP + SP + i * (2 * SP / (m + 1))).collect(),
        "alternate" => (0..m).map(|i| i * 4 * SP + 2 * SP).collect(),
        "overlap-lo" => (0..m).map(|i| (i - m / 2) * 4 * SP).collect(),
        "overlap-hi" => (0..m).map(|i| (i + n - m / 2) * 4 * SP).collect(),
        // every third key of r is in l, spread over all of l
        "sparse" => (0..m)
            .map(|i| {
                let x = i * n.max(1) / m.max(1) * 4 * SP;
                x + if i % 3 == 0 { 0 } else { SP / 2 + i % 64 * 64 }
            })
            .collect(),
        _ => panic!("relation"),
    };
    let mut r = r;
    r.dedup();
    let mut i = 1;
    while i < r.len() {
        if r[i] <= r[i - 1] {
            r[i] = r[i - 1] + 64;
        }
        i += 1;
    }
    (l, r)
}
