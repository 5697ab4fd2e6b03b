//! The same containers over other element types: narrow and wide keys, keys
//! looked up through a borrowed form, zero-sized and heap-owning elements.
//! (Sections of C01, C18 and C13.)

use crate::engine::*;
use crate::ensure;
use crate::machine::OpK;
use crate::shapes::*;
use lazy_clone_collections::btree::btree_set::BTreeSet as NSet;
use lazy_clone_collections::btree::fixed::BTreeMap as FMap;
use lazy_clone_collections::btree::BTreeMap as NMap;
use lazy_clone_collections::{AvlMap, AvlSet, Stack};
use std::borrow::Borrow;
use std::collections::BTreeMap as Std;
use std::fmt::Debug;

pub trait El: Clone + Ord + Debug + Borrow<Self::Q> {
    type Q: Ord + ?Sized;
    const NAME: &'static str;
    /// order-preserving on 0..MAX
    const MAX: i64 = i64::MAX;
    fn mk(i: i64) -> Self;
}
macro_rules! el {
    ($t:ty, $q:ty, $name:literal, $max:expr, $f:expr) => {
        impl El for $t {
            type Q = $q;
            const NAME: &'static str = $name;
            const MAX: i64 = $max;
            fn mk(i: i64) -> Self {
                let f: fn(i64) -> $t = $f;
                f(i)
            }
        }
    };
}
el!(u8, u8, "u8", 255, |i| i as u8);
el!(i32, i32, "i32", i64::MAX, |i| i as i32 - 1000);
el!(u64, u64, "u64", i64::MAX, |i| i as u64);
el!(u128, u128, "u128", i64::MAX, |i| (i as u128) << 70);
el!(String, str, "string", i64::MAX, |i| format!("{i:06}"));
el!(Vec<u16>, [u16], "vec", i64::MAX, |i| vec![7, i as u16, 1]);
el!(Box<i64>, i64, "box", i64::MAX, |i| Box::new(i));
el!((), (), "unit", 1, |_| ());
el!([u64; 20], [u64; 20], "big", i64::MAX, |i| [i as u64; 20]);
el!((u8, u16), (u8, u16), "pair", i64::MAX, |i| ((i >> 8) as u8, i as u16));

pub trait PM<K: El, V: El>: Clone {
    const NAME: &'static str;
    fn empty() -> Self;
    fn ins(&mut self, k: K, v: V) -> Option<V>;
    fn rem(&mut self, k: &K::Q) -> Option<V>;
    fn at(&self, k: &K::Q) -> Option<&V>;
    fn at_mut(&mut self, k: &K::Q) -> Option<&mut V>;
    fn size(&self) -> usize;
    fn fwd(&self) -> Vec<(K, V)>;
    fn bwd(&self) -> Vec<(K, V)>;
    fn set_all(&mut self, v: V);
    fn into_fwd(self) -> Vec<(K, V)>;
    fn into_bwd(self) -> Vec<(K, V)>;
    fn wipe(&mut self);
}
macro_rules! pm {
    ($t:ty, $name:literal) => {
        impl<K: El, V: El> PM<K, V> for $t {
            const NAME: &'static str = $name;
            fn empty() -> Self {
                <$t>::new()
            }
            fn ins(&mut self, k: K, v: V) -> Option<V> {
                self.insert(k, v)
            }
            fn rem(&mut self, k: &K::Q) -> Option<V> {
                self.remove(k)
            }
            fn at(&self, k: &K::Q) -> Option<&V> {
                self.get(k)
            }
            fn at_mut(&mut self, k: &K::Q) -> Option<&mut V> {
                self.get_mut(k)
            }
            fn size(&self) -> usize {
                self.len()
            }
            fn fwd(&self) -> Vec<(K, V)> {
                self.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
            }
            fn bwd(&self) -> Vec<(K, V)> {
                self.iter().rev().map(|(k, v)| (k.clone(), v.clone())).collect()
            }
            fn set_all(&mut self, v: V) {
                for (_, x) in self.iter_mut() {
                    *x = v.clone();
                }
            }
            fn into_fwd(self) -> Vec<(K, V)> {
                self.into_iter().collect()
            }
            fn into_bwd(self) -> Vec<(K, V)> {
                self.into_iter().rev().collect()
            }
            fn wipe(&mut self) {
                self.clear()
            }
        }
    };
}
pm!(AvlMap<K, V>, "avl");
pm!(NMap<K, V, 1>, "bt1");
pm!(NMap<K, V, 2>, "bt2");
pm!(NMap<K, V, 5>, "bt5");
pm!(NMap<K, V, 16>, "bt16");
pm!(FMap<K, V>, "fixed");

/// A step: what * 2^20 + key.  0 insert, 1 remove, 2 write through get_mut,
/// 3 keep a clone, 4 write all, 5 clear, 6 swap with the kept clone
pub type Step = u32;
pub fn st(what: u32, k: i64) -> Step {
    what << 20 | k as u32
}

fn same<K: El, V: El, M: PM<K, V>>(m: &M, md: &Std<K, V>, keys: &[i64]) -> Result<(), String> {
    ensure!(m.size() == md.len(), "len() is {}, expected {}", m.size(), md.len());
    let want: Vec<(K, V)> = md.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let got = m.fwd();
    ensure!(got == want, "iter() yields {got:?}, expected {want:?}");
    let mut got = m.bwd();
    got.reverse();
    ensure!(got == want, "iter().rev() yields (reversed) {got:?}, expected {want:?}");
    for k in keys {
        let k = K::mk(*k);
        let (g, w) = (m.at(k.borrow()), md.get(k.borrow()));
        ensure!(g == w, "get({k:?}) is {g:?}, expected {w:?}");
    }
    Ok(())
}

fn run<K: El, V: El, M: PM<K, V>>(steps: &[Step], from: usize, n: &mut u64) -> Result<(), String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
        let mut keys: Vec<i64> = steps.iter().map(|s| (s & 0xFFFFF) as i64).collect();
        keys.sort_unstable();
        keys.dedup();
        let (mut m, mut md) = (M::empty(), Std::<K, V>::new());
        let mut kept: Option<(M, Std<K, V>)> = None;
        let mut tag = 0;
        for (i, s) in steps.iter().enumerate() {
            *n += 1;
            let (what, k) = (s >> 20, (s & 0xFFFFF) as i64);
            let k = K::mk(k);
            tag += 1;
            let v = V::mk(tag % V::MAX);
            match what {
                0 => {
                    let g = m.ins(k.clone(), v.clone());
                    let w = md.insert(k.clone(), v);
                    ensure!(g == w, "step {i}: insert({k:?}) returned {g:?}, expected {w:?}");
                }
                1 => {
                    let g = m.rem(k.borrow());
                    let w = md.remove(k.borrow());
                    ensure!(g == w, "step {i}: remove({k:?}) returned {g:?}, expected {w:?}");
                }
                2 => {
                    let g = m.at_mut(k.borrow()).map(|x| std::mem::replace(x, v.clone()));
                    let w = md.get_mut(k.borrow()).map(|x| std::mem::replace(x, v.clone()));
                    ensure!(g == w, "step {i}: get_mut({k:?}) is {g:?}, expected {w:?}");
                }
                3 => kept = Some((m.clone(), md.clone())),
                4 => {
                    m.set_all(v.clone());
                    md.values_mut().for_each(|x| *x = v.clone());
                }
                5 => {
                    m.wipe();
                    md.clear();
                }
                6 => {
                    if let Some(k) = kept.as_mut() {
                        std::mem::swap(&mut k.0, &mut m);
                        std::mem::swap(&mut k.1, &mut md);
                    }
                }
                _ => return Err("bad step".into()),
            }
            if i >= from {
                same(&m, &md, &keys).map_err(|e| format!("after step {i}: {e}"))?;
            }
        }
        same(&m, &md, &keys)?;
        let want: Vec<(K, V)> = md.into_iter().collect();
        let got = m.clone().into_fwd();
        ensure!(got == want, "into_iter() of a clone yields {got:?}, expected {want:?}");
        let mut got = m.into_bwd();
        got.reverse();
        ensure!(got == want, "into_iter().rev() yields (reversed) {got:?}, expected {want:?}");
        if let Some((m, md)) = kept {
            same(&m, &md, &keys).map_err(|e| format!("the other handle: {e}"))?;
        }
        Ok(())
    }));
    r.unwrap_or_else(|_| Err(last_panic()))
}

fn text(word: &str, a: &str, b: &str, c: &str, steps: &[Step], s: &mut String) {
    use std::fmt::Write;
    let _ = write!(s, "{word} {a} {b} {c} ");
    for (i, x) in steps.iter().enumerate() {
        let _ = write!(s, "{}{x}", if i > 0 { "," } else { "" });
    }
}
fn one<K: El, V: El, M: PM<K, V>>(slot: &mut Slot, steps: &[Step], from: usize) {
    slot.case(|s| text("plain", K::NAME, V::NAME, M::NAME, steps, s), |n| run::<K, V, M>(steps, from, n));
}

/// the histories of the seed trees, with consecutive keys
fn history(p: &str, n: usize, gap: i64) -> (Vec<Step>, Vec<i64>) {
    let s = seed(p, n);
    let mut all: Vec<i64> = s.hist.iter().map(|o| o.a).collect();
    all.sort_unstable();
    all.dedup();
    let name = |a: i64| all.binary_search(&a).unwrap() as i64 * gap + gap - 1;
    let h = s.hist.iter().map(|o| st((o.k != OpK::Ins) as u32, name(o.a))).collect();
    (h, s.keys.iter().map(|k| name(*k)).collect())
}

/// `map`: a map (get_mut, write all) rather than a set
fn histories(max: i64, nk: i64, depth: usize, sizes: &[usize], step: usize, map: bool) -> Vec<(Vec<Step>, usize)> {
    let mut out = vec![];
    let mut alpha = vec![];
    for k in 0..nk.min(max) {
        alpha.push(st(0, k));
        alpha.push(st(1, k));
    }
    if map {
        alpha.push(st(2, 1 % max));
        alpha.push(st(4, 0));
    }
    alpha.extend([st(3, 0), st(6, 0)]);
    let n = alpha.len();
    for x in 0..n.pow(depth as u32) {
        let mut y = x;
        let h: Vec<Step> = (0..depth)
            .map(|_| {
                let s = alpha[y % n];
                y /= n;
                s
            })
            .collect();
        out.push((h, 0));
    }
    if max < 8 {
        return out;
    }
    for p in PATTERNS {
        for &n in sizes {
            let (h, keys) = history(p, n, 2);
            if h.iter().any(|s| (s & 0xFFFFF) as i64 + 1 >= max) {
                continue;
            }
            for shared in [false, true] {
                let mut b = h.clone();
                if shared {
                    b.push(st(3, 0));
                }
                for k in keys.iter().step_by(step) {
                    for tail in [
                        vec![st(0, *k)],
                        vec![st(0, *k - 1), st(1, *k)],
                        vec![st(1, *k), st(1, keys[0]), st(1, keys[keys.len() - 1])],
                        vec![st(1, *k - 1), st(if map { 2 } else { 1 }, *k)],
                    ] {
                        let mut b = b.clone();
                        let at = b.len();
                        b.extend(tail);
                        out.push((b, at));
                    }
                }
                // down to nothing from one end
                for rev in [false, true] {
                    let mut b = b.clone();
                    let mut ks = keys.clone();
                    if rev {
                        ks.reverse();
                    }
                    b.extend(ks.iter().map(|k| st(1, *k)));
                    let at = b.len() - ks.len().min(40);
                    out.push((b, at));
                }
                if map {
                    let mut b = b.clone();
                    b.extend([st(4, 0), st(5, 0), st(0, 3)]);
                    out.push((b.clone(), b.len() - 3));
                }
            }
        }
    }
    out
}

fn maps<K: El, V: El>(ctx: &Ctx) {
    fn go<K: El, V: El, M: PM<K, V>>(ctx: &Ctx, depth: usize, sizes: &[usize], step: usize) {
        let h = histories(K::MAX, 3, depth, sizes, step, true);
        let h: Vec<&[(Vec<Step>, usize)]> = h.chunks(64).collect();
        ctx.par_for(&h, |slot, c| {
            for (steps, from) in c.iter() {
                if slot.ctx.stopped() {
                    return;
                }
                one::<K, V, M>(slot, steps, *from);
            }
        });
    }
    let (d, step) = (ctx.pick(3, 5), ctx.pick(4, 1));
    go::<K, V, AvlMap<K, V>>(ctx, d, &[5, 30], step);
    go::<K, V, NMap<K, V, 1>>(ctx, d, &[9, 40], step);
    go::<K, V, NMap<K, V, 2>>(ctx, d, &[30], step);
    go::<K, V, NMap<K, V, 5>>(ctx, d, &[12, 80], step);
    go::<K, V, NMap<K, V, 16>>(ctx, d - 1, &[33, 100], step);
    go::<K, V, FMap<K, V>>(ctx, d, &[12, 23, 80, 160], step);
}

pub fn explore_maps(ctx: &Ctx) {
    macro_rules! kv {
        ($($k:ty => $v:ty;)*) => { $( maps::<$k, $v>(ctx); )* };
    }
    kv! { u8 => u8; i32 => u8; u64 => u64; u128 => u8; String => String; Vec<u16> => (); Box<i64> => Box<i64>; () => u64; () => (); u8 => [u64; 20]; [u64; 20] => u8; (u8, u16) => String; u64 => (); }
    ctx.note("element types: 13 pairs of key and value types (narrow, wide, zero-sized, heap-owning, looked up through a borrowed form) x avl, bt1, bt2, bt5, bt16, fixed: all short histories over 3 keys with a kept clone, and larger trees of all patterns, alone and shared, with removals and insertions at every few positions and down to nothing".to_string());
}

pub fn replay(case: &str) -> Result<(), String> {
    let p: Vec<&str> = case.split(' ').collect();
    ensure!(p.len() >= 5, "bad case");
    let steps: Vec<Step> = p[4].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().map_err(|_| "bad step".to_string())).collect::<Result<_, _>>()?;
    let mut n = 0;
    if p[0] == "plainstack" {
        macro_rules! go {
            ($($k:ty;)*) => { $( if p[1] == <$k as El>::NAME { return run_stack::<$k>(&steps, &mut n); } )* };
        }
        go! { u8; String; (); [u64; 20]; Box<i64>; }
        return Err("unknown type".into());
    }
    if p[0] == "plainset" {
        macro_rules! go {
            ($($k:ty;)*) => { $( if p[1] == <$k as El>::NAME {
                return match p[3] {
                    "avls" => run_set::<$k, AvlSet<$k>>(&steps, 0, &mut n),
                    "bts1" => run_set::<$k, NSet<$k, 1>>(&steps, 0, &mut n),
                    "bts5" => run_set::<$k, NSet<$k, 5>>(&steps, 0, &mut n),
                    _ => Err("unknown set".into()),
                };
            } )* };
        }
        go! { u8; u128; String; Vec<u16>; Box<i64>; (); [u64; 20]; }
        return Err("unknown type".into());
    }
    macro_rules! kv {
        ($($k:ty => $v:ty;)*) => { $(
            if p[1] == <$k as El>::NAME && p[2] == <$v as El>::NAME {
                return match p[3] {
                    "avl" => run::<$k, $v, AvlMap<$k, $v>>(&steps, 0, &mut n),
                    "bt1" => run::<$k, $v, NMap<$k, $v, 1>>(&steps, 0, &mut n),
                    "bt2" => run::<$k, $v, NMap<$k, $v, 2>>(&steps, 0, &mut n),
                    "bt5" => run::<$k, $v, NMap<$k, $v, 5>>(&steps, 0, &mut n),
                    "bt16" => run::<$k, $v, NMap<$k, $v, 16>>(&steps, 0, &mut n),
                    "fixed" => run::<$k, $v, FMap<$k, $v>>(&steps, 0, &mut n),
                    _ => Err("unknown map".into()),
                };
            }
        )* };
    }
    kv! { u8 => u8; i32 => u8; u64 => u64; u128 => u8; String => String; Vec<u16> => (); Box<i64> => Box<i64>; () => u64; () => (); u8 => [u64; 20]; [u64; 20] => u8; (u8, u16) => String; u64 => (); }
    Err("unknown types".into())
}

// ---------------------------------------------------------------------------
// sets

pub trait PS<K: El>: Clone + Default {
    const NAME: &'static str;
    fn ins(&mut self, k: K) -> bool;
    fn rem(&mut self, k: &K::Q) -> bool;
    fn has(&self, k: &K::Q) -> bool;
    fn ends(&self) -> (Option<&K>, Option<&K>);
    fn size(&self) -> usize;
    fn fwd(&self) -> Vec<K>;
    fn into_fwd(self) -> Vec<K>;
    fn algebra(&self, o: &Self) -> [Vec<K>; 4];
    fn cut(&mut self, k: &K::Q) -> Self;
    fn wipe(&mut self);
}
macro_rules! ps {
    ($t:ty, $name:literal) => {
        impl<K: El> PS<K> for $t {
            const NAME: &'static str = $name;
            fn ins(&mut self, k: K) -> bool {
                self.insert(k)
            }
            fn rem(&mut self, k: &K::Q) -> bool {
                self.remove(k)
            }
            fn has(&self, k: &K::Q) -> bool {
                self.contains(k)
            }
            fn ends(&self) -> (Option<&K>, Option<&K>) {
                (self.first(), self.last())
            }
            fn size(&self) -> usize {
                self.len()
            }
            fn fwd(&self) -> Vec<K> {
                self.iter().cloned().collect()
            }
            fn into_fwd(self) -> Vec<K> {
                self.into_iter().collect()
            }
            fn algebra(&self, o: &Self) -> [Vec<K>; 4] {
                [
                    self.union(o).cloned().collect(),
                    self.intersection(o).cloned().collect(),
                    self.difference(o).cloned().collect(),
                    self.symmetric_difference(o).cloned().collect(),
                ]
            }
            fn cut(&mut self, k: &K::Q) -> Self {
                self.split_off(k)
            }
            fn wipe(&mut self) {
                self.clear()
            }
        }
    };
}
ps!(AvlSet<K>, "avls");
ps!(NSet<K, 1>, "bts1");
ps!(NSet<K, 5>, "bts5");

fn sset<K: El, S: PS<K>>(s: &S, md: &std::collections::BTreeSet<K>, keys: &[i64]) -> Result<(), String> {
    ensure!(s.size() == md.len(), "len() is {}, expected {}", s.size(), md.len());
    let want: Vec<K> = md.iter().cloned().collect();
    let got = s.fwd();
    ensure!(got == want, "iter() yields {got:?}, expected {want:?}");
    ensure!(s.ends() == (md.first(), md.last()), "first and last are {:?}", s.ends());
    for k in keys {
        let k = K::mk(*k);
        let g = s.has(k.borrow());
        ensure!(g == md.contains(k.borrow()), "contains({k:?}) is {g}");
    }
    Ok(())
}

fn run_set<K: El, S: PS<K>>(steps: &[Step], from: usize, n: &mut u64) -> Result<(), String> {
    use std::collections::BTreeSet as StdS;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
        let mut keys: Vec<i64> = steps.iter().map(|s| (s & 0xFFFFF) as i64).collect();
        keys.sort_unstable();
        keys.dedup();
        let (mut m, mut md) = (S::default(), StdS::<K>::new());
        let mut kept: Option<(S, StdS<K>)> = None;
        for (i, s) in steps.iter().enumerate() {
            *n += 1;
            let (what, k) = (s >> 20, (s & 0xFFFFF) as i64);
            let k = K::mk(k);
            match what {
                0 => {
                    let g = m.ins(k.clone());
                    ensure!(g == md.insert(k.clone()), "step {i}: insert({k:?}) returned {g}");
                }
                1 => {
                    let g = m.rem(k.borrow());
                    ensure!(g == md.remove(k.borrow()), "step {i}: remove({k:?}) returned {g}");
                }
                3 => kept = Some((m.clone(), md.clone())),
                5 => {
                    m.wipe();
                    md.clear();
                }
                6 => {
                    if let Some(k) = kept.as_mut() {
                        std::mem::swap(&mut k.0, &mut m);
                        std::mem::swap(&mut k.1, &mut md);
                    }
                }
                _ => (),
            }
            if i >= from {
                sset(&m, &md, &keys).map_err(|e| format!("after step {i}: {e}"))?;
            }
        }
        if let Some((o, od)) = &kept {
            sset(o, od, &keys).map_err(|e| format!("the other handle: {e}"))?;
            let g = m.algebra(o);
            let w: [Vec<K>; 4] = [
                md.union(od).cloned().collect(),
                md.intersection(od).cloned().collect(),
                md.difference(od).cloned().collect(),
                md.symmetric_difference(od).cloned().collect(),
            ];
            ensure!(g == w, "union, intersection, difference, symmetric_difference are {g:?}, expected {w:?}");
        }
        if let Some(k) = keys.get(keys.len() / 2) {
            let k = K::mk(*k);
            let (mut a, mut ad) = (m.clone(), md.clone());
            let (b, bd) = (a.cut(k.borrow()), ad.split_off(k.borrow()));
            sset(&a, &ad, &keys).map_err(|e| format!("split_off: {e}"))?;
            sset(&b, &bd, &keys).map_err(|e| format!("split off part: {e}"))?;
        }
        let want: Vec<K> = md.into_iter().collect();
        let got = m.into_fwd();
        ensure!(got == want, "into_iter() yields {got:?}, expected {want:?}");
        Ok(())
    }));
    r.unwrap_or_else(|_| Err(last_panic()))
}

pub fn explore_sets(ctx: &Ctx) {
    fn go<K: El, S: PS<K>>(ctx: &Ctx, depth: usize, sizes: &[usize], step: usize) {
        let h = histories(K::MAX, 3, depth, sizes, step, false);
        let h: Vec<&[(Vec<Step>, usize)]> = h.chunks(64).collect();
        ctx.par_for(&h, |slot, c| {
            for (steps, from) in c.iter() {
                if slot.ctx.stopped() {
                    return;
                }
                slot.case(
                    |s| text("plainset", K::NAME, "-", S::NAME, steps, s),
                    |n| run_set::<K, S>(steps, *from, n),
                );
            }
        });
    }
    let (d, step) = (ctx.pick(4, 5), ctx.pick(3, 1));
    macro_rules! each {
        ($($k:ty;)*) => { $(
            go::<$k, AvlSet<$k>>(ctx, d, &[5, 30], step);
            go::<$k, NSet<$k, 1>>(ctx, d, &[9, 40], step);
            go::<$k, NSet<$k, 5>>(ctx, d, &[12, 80], step);
        )* };
    }
    each! { u8; u128; String; Vec<u16>; Box<i64>; (); [u64; 20]; }
    ctx.note("element types: 7 (narrow, wide, zero-sized, heap-owning, looked up through a borrowed form) x avl, bts1, bts5: all short histories over 3 elements with a kept clone, and larger sets of all patterns, alone and shared".to_string());
}

// ---------------------------------------------------------------------------
// stacks: steps 0 push, 1 pop, 2 write the top, 3 keep a clone, 4 write all,
// 5 clear, 6 swap, 7 remove(k), 8 split_off(k) and keep it

fn run_stack<T: El>(steps: &[Step], n: &mut u64) -> Result<(), String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
        let (mut s, mut l) = (Stack::<T>::default(), Vec::<T>::new());
        let mut kept: Option<(Stack<T>, Vec<T>)> = None;
        let same = |s: &Stack<T>, l: &Vec<T>| -> Result<(), String> {
            ensure!(s.len() == l.len() && s.is_empty() == l.is_empty(), "len() is {}, expected {}", s.len(), l.len());
            let mut got: Vec<T> = s.iter().cloned().collect();
            got.reverse();
            ensure!(&got == l, "iter() yields (reversed) {got:?}, expected {l:?}");
            ensure!(s.top() == l.last(), "top() is {:?}", s.top());
            Ok(())
        };
        let mut tag = 0;
        for (i, x) in steps.iter().enumerate() {
            *n += 1;
            let (what, k) = (x >> 20, (x & 0xFFFFF) as usize);
            tag += 1;
            let v = T::mk(tag % T::MAX);
            match what {
                0 => {
                    s.push(v.clone());
                    l.push(v);
                }
                1 => {
                    let g = s.pop();
                    let w = l.pop();
                    ensure!(g == w, "step {i}: pop() returned {g:?}, expected {w:?}");
                }
                2 => {
                    if let Some(t) = s.top_mut() {
                        *t = v.clone();
                    }
                    if let Some(t) = l.last_mut() {
                        *t = v;
                    }
                }
                3 => kept = Some((s.clone(), l.clone())),
                4 => {
                    s.iter_mut().for_each(|x| *x = v.clone());
                    l.iter_mut().for_each(|x| *x = v.clone());
                }
                5 => {
                    s.clear();
                    l.clear();
                }
                6 => {
                    if let Some(k) = kept.as_mut() {
                        std::mem::swap(&mut k.0, &mut s);
                        std::mem::swap(&mut k.1, &mut l);
                    }
                }
                7 => {
                    if k < l.len() {
                        let (g, w) = (s.remove(k), l.remove(k));
                        ensure!(g == w, "step {i}: remove({k}) returned {g:?}, expected {w:?}");
                    }
                }
                _ => {
                    if k <= l.len() {
                        kept = Some((s.split_off(k), l.split_off(k)));
                    }
                }
            }
            same(&s, &l).map_err(|e| format!("after step {i}: {e}"))?;
            if let Some((s, l)) = &kept {
                same(s, l).map_err(|e| format!("after step {i}: the other handle: {e}"))?;
            }
        }
        let mut got: Vec<T> = s.into_iter().collect();
        got.reverse();
        ensure!(got == l, "into_iter() yields (reversed) {got:?}, expected {l:?}");
        Ok(())
    }));
    r.unwrap_or_else(|_| Err(last_panic()))
}

pub fn explore_stacks(ctx: &Ctx) {
    fn go<T: El>(ctx: &Ctx, d: usize) {
        let alpha = [st(0, 0), st(1, 0), st(2, 0), st(3, 0), st(4, 0), st(6, 0), st(7, 0), st(7, 1), st(8, 0), st(8, 1)];
        let n = alpha.len();
        let items: Vec<usize> = (0..n.pow(d as u32)).step_by(64).collect();
        ctx.par_for(&items, |slot, &lo| {
            for x in lo..(lo + 64).min(n.pow(d as u32)) {
                if slot.ctx.stopped() {
                    return;
                }
                let mut h = vec![st(0, 0), st(0, 0)];
                let mut y = x;
                for _ in 0..d {
                    h.push(alpha[y % n]);
                    y /= n;
                }
                slot.case(|s| text("plainstack", T::NAME, "-", "-", &h, s), |n| run_stack::<T>(&h, n));
            }
        });
    }
    let d = ctx.pick(5, 6);
    go::<u8>(ctx, d);
    go::<String>(ctx, d);
    go::<()>(ctx, d);
    go::<[u64; 20]>(ctx, d);
    go::<Box<i64>>(ctx, d);
    ctx.note(format!("element types: all sequences of {d} of 10 operations on stacks of u8, String, (), [u64; 20], Box"));
}
