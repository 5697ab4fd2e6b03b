//! C06 (iterators from both ends) and C07 (ranges).

use crate::elem::*;
use crate::engine::*;
use crate::machine::*;
use crate::setm::*;
use crate::shapes::*;
use crate::narrow::Narrow;
use crate::subj::*;
use crate::{ensure, for_map, for_set};

pub const KINDS: [&str; 10] = [
    "iter", "iter_mut", "into_iter", "keys", "values", "values_mut", "into_keys", "into_values",
    "ref_into", "mut_into",
];

/// What `drive` needs of an iterator: all of it, through a trait object, or the
/// part a single-ended or inexact one has.
pub trait Driven: Sized {
    type Item;
    fn d_next(&mut self) -> Option<Self::Item>;
    fn d_back(&mut self) -> Option<Self::Item>;
    fn d_nth(&mut self, k: usize) -> Option<Self::Item>;
    fn d_nth_back(&mut self, k: usize) -> Option<Self::Item>;
    fn d_len(&self) -> Option<usize>;
    fn d_hint(&self) -> (usize, Option<usize>);
    fn d_end(self, how: u8, f: &mut dyn FnMut(Self::Item)) -> End<Self::Item>;
}
pub enum End<T> {
    Count(usize),
    One(Option<T>),
    Done,
    Sorted(bool),
}
macro_rules! driven {
    ($t:ident, $tr:ident, $len:expr, $back:expr, $nthb:expr, $rfold:expr) => {
        pub struct $t<'a, T>(pub Box<dyn $tr<Item = T> + 'a>);
        impl<'a, T> Driven for $t<'a, T> {
            type Item = T;
            fn d_next(&mut self) -> Option<T> {
                self.0.next()
            }
            fn d_nth(&mut self, k: usize) -> Option<T> {
                self.0.nth(k)
            }
            fn d_back(&mut self) -> Option<T> {
                ($back)(&mut self.0)
            }
            fn d_nth_back(&mut self, k: usize) -> Option<T> {
                ($nthb)(&mut self.0, k)
            }
            fn d_len(&self) -> Option<usize> {
                ($len)(&self.0)
            }
            fn d_hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
            fn d_end(self, how: u8, f: &mut dyn FnMut(T)) -> End<T> {
                match how {
                    b'c' => End::Count(self.0.w_count()),
                    b'l' => End::One(self.0.w_last()),
                    b'm' => End::One(self.0.w_min()),
                    b'x' => End::One(self.0.w_max()),
                    b's' => End::Sorted(self.0.w_sorted()),
                    b'f' => {
                        self.0.w_fold(f);
                        End::Done
                    }
                    _ => {
                        ($rfold)(self.0, f);
                        End::Done
                    }
                }
            }
        }
    };
}
driven!(Both, Dei, |i: &Box<dyn Dei<Item = T> + 'a>| Some(i.len()), |i: &mut Box<dyn Dei<Item = T> + 'a>| i.next_back(), |i: &mut Box<dyn Dei<Item = T> + 'a>, k| i.nth_back(k), |i: Box<dyn Dei<Item = T> + 'a>, f: &mut dyn FnMut(T)| i.w_rfold(f));
driven!(Ends, WholeDe, |_: &Box<dyn WholeDe<Item = T> + 'a>| None, |i: &mut Box<dyn WholeDe<Item = T> + 'a>| i.next_back(), |i: &mut Box<dyn WholeDe<Item = T> + 'a>, k| i.nth_back(k), |i: Box<dyn WholeDe<Item = T> + 'a>, f: &mut dyn FnMut(T)| i.w_rfold(f));
driven!(Front, Fwd, |i: &Box<dyn Fwd<Item = T> + 'a>| Some(i.len()), |_: &mut Box<dyn Fwd<Item = T> + 'a>| panic!("not double-ended"), |_: &mut Box<dyn Fwd<Item = T> + 'a>, _| panic!("not double-ended"), |_: Box<dyn Fwd<Item = T> + 'a>, _: &mut dyn FnMut(T)| panic!("not double-ended"));

/// Drive an iterator over `n` items through `word` and compare every answer.
/// `see(item, index)` checks the item that should be number `index`.
/// F, B: next, next_back; n, N and a digit: nth, nth_back; q, Q and a digit d:
/// the same, skipping d ninths of what is left; and to end: c count,
/// l last, m min, x max, s is_sorted, f fold, r rfold.
pub fn drive<I: Driven>(
    mut it: I,
    n: usize,
    word: &[u8],
    mut see: impl FnMut(I::Item, usize) -> Result<(), String>,
) -> Result<(), String> {
    let (mut f, mut b) = (0, n);
    let check = |it: &I, left: usize| -> Result<(), String> {
        if let Some(g) = it.d_len() {
            ensure!(g == left, "len() is {g} with {left} items left");
        }
        let (lo, hi) = it.d_hint();
        ensure!(
            lo <= left && hi.map_or(true, |h| h >= left),
            "size_hint ({lo}, {hi:?}) with {left} items left"
        );
        Ok(())
    };
    check(&it, n)?;
    let mut pos = 0;
    while pos < word.len() {
        let w = word[pos];
        let at = move |e: String| format!("step {pos} ({}): {e}", w as char);
        let k = match w {
            b'n' | b'N' => {
                pos += 1;
                (word[pos] - b'0') as usize
            }
            b'q' | b'Q' => {
                pos += 1;
                (b - f) * (word[pos] - b'0') as usize / 9
            }
            _ => 0,
        };
        let x = match w {
            b'F' => it.d_next(),
            b'B' => it.d_back(),
            b'n' | b'q' => it.d_nth(k),
            b'N' | b'Q' => it.d_nth_back(k),
            _ => {
                let mut seen = Ok(());
                let (f0, b0) = (f, b);
                let e = it.d_end(w, &mut |x| {
                    if seen.is_err() {
                        return;
                    }
                    if f == b {
                        seen = Err("yields too many items".to_string());
                        return;
                    }
                    let i = if w == b'f' {
                        f += 1;
                        f - 1
                    } else {
                        b -= 1;
                        b
                    };
                    seen = see(x, i);
                });
                seen.map_err(at)?;
                match e {
                    End::Count(c) => ensure!(c == b0 - f0, "count() is {c} with {} items left", b0 - f0),
                    End::Sorted(y) => ensure!(y, "is_sorted() is false"),
                    End::Done => ensure!(f == b, "{}: {} items are missing", at(String::new()), b - f),
                    End::One(None) => ensure!(f0 == b0, "{}None with {} items left", at(String::new()), b0 - f0),
                    End::One(Some(x)) => {
                        ensure!(f0 < b0, "{}yields an item after the end", at(String::new()));
                        see(x, if w == b'm' { f0 } else { b0 - 1 }).map_err(at)?;
                    }
                }
                return Ok(());
            }
        };
        let front = matches!(w, b'F' | b'n' | b'q');
        let left = b - f;
        let skip = k.min(left);
        if front {
            f += skip;
        } else {
            b -= skip;
        }
        match x {
            None => ensure!(f == b, "step {pos} ({}): None with {left} items left", w as char),
            Some(x) => {
                ensure!(f < b, "step {pos} ({}): yields an item after the end", w as char);
                let i = if front {
                    f += 1;
                    f - 1
                } else {
                    b -= 1;
                    b
                };
                see(x, i).map_err(at)?;
            }
        }
        check(&it, b - f)?;
        pos += 1;
    }
    Ok(())
}

/// After every prefix of i items from the front and j from the back: every way
/// to consume the rest at once, and every nth and nth_back, then a step from
/// each end.  `ord`: the items come in their own order.
pub fn whole_words(n: usize, both: bool, ord: bool, step: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for i in (0..=n).step_by(step) {
        for j in (0..=n - i).step_by(step) {
            if j > 0 && !both {
                continue;
            }
            let mut p = vec![b'F'; i];
            p.extend(vec![b'B'; j]);
            let mut with = |e: &[u8]| {
                let mut w = p.clone();
                w.extend(e);
                v.push(w);
            };
            for c in [b'c', b'l', b'f'] {
                with(&[c]);
            }
            if both {
                with(b"r");
            }
            if ord {
                for c in [b'm', b'x', b's'] {
                    with(&[c]);
                }
            }
            let left = n - i - j;
            let ks: Vec<usize> = if left < 12 { (0..=left + 1).collect() } else { vec![0, 1, 2, left / 2, left - 1, left] };
            for k in ks {
                if k + b'0' as usize > 126 {
                    continue;
                }
                let d = k as u8 + b'0';
                with(&[b'n', d, b'F']);
                with(&[b'n', d, b'n', b'1', b'F']);
                if both {
                    with(&[b'n', d, b'B', b'f']);
                    with(&[b'N', d, b'B']);
                    with(&[b'N', d, b'F', b'r']);
                    with(&[b'N', d, b'N', b'1', b'l']);
                }
            }
        }
    }
    v
}


fn run_map_word<M: MapSub>(kind: &str, shared: bool, hist: &[Op], word: &[u8], steps: &mut u64) -> Result<(), String> {
    let mut f = run_history::<M>(hist, usize::MAX, Obs::Light, steps)?;
    let (mut m, mut md) = f.hs[0].take().unwrap();
    *steps += word.len() as u64;
    let keep = if shared { Some((m.clone(), md.clone())) } else { None };
    let others: Vec<_> = f.hs.iter_mut().filter_map(|h| h.take()).collect();
    let n = md.len();
    let want = md.0.clone();
    let item = |k: &Key, v: &Val, i: usize| -> Result<(), String> {
        let e = ent(k, v);
        ensure!(e == want[i], "item {i} is {e:?}, expected {:?}", want[i]);
        Ok(())
    };
    let key = |k: &Key, i: usize| -> Result<(), String> {
        k.check();
        ensure!((k.q.0, k.tag) == (want[i].0, want[i].1), "item {i} is key {}, expected {}", k.q.0, want[i].0);
        Ok(())
    };
    let val = |v: &Val, i: usize| -> Result<(), String> {
        v.check();
        ensure!(v.v == want[i].2, "item {i} is value {}, expected {}", v.v, want[i].2);
        Ok(())
    };
    const NEW: u32 = 1 << 30;
    let mut consumed = false;
    match kind {
        "iter" => drive(Both(m.iter_()), n, word, |(k, v), i| item(k, v, i))?,
        "ref_into" => drive(Both(m.ref_into_iter()), n, word, |(k, v), i| item(k, v, i))?,
        "iter_mut" | "mut_into" => {
            let it = if kind == "iter_mut" { m.iter_mut_() } else { m.mut_into_iter() };
            drive(Both(it), n, word, |(k, v), i| {
                item(k, v, i)?;
                *v = Val::new(NEW + i as u32);
                md.0[i].2 = NEW + i as u32;
                Ok(())
            })?
        }
        "values_mut" => drive(Both(m.values_mut_()), n, word, |v, i| {
            val(v, i)?;
            *v = Val::new(NEW + i as u32);
            md.0[i].2 = NEW + i as u32;
            Ok(())
        })?,
        "keys" => drive(Both(m.keys_()), n, word, |k, i| key(k, i))?,
        "values" => drive(Both(m.values_()), n, word, |v, i| val(v, i))?,
        _ => consumed = true,
    }
    if consumed {
        match kind {
            "into_iter" => drive(Both(m.into_iter_()), n, word, |(k, v), i| item(&k, &v, i))?,
            "into_keys" => drive(Both(m.into_keys_()), n, word, |k, i| key(&k, i))?,
            "into_values" => drive(Both(m.into_values_()), n, word, |v, i| val(&v, i))?,
            _ => return Err("unknown iterator".into()),
        }
    } else {
        observe(&m, &md, Obs::Light)?;
        drop(m);
    }
    if let Some((c, cm)) = keep {
        observe(&c, &cm, Obs::Light).map_err(|e| format!("the clone: {e}"))?;
        drop(c);
    }
    for (c, cm) in others {
        observe(&c, &cm, Obs::Light).map_err(|e| format!("another handle: {e}"))?;
    }
    take_fault()?;
    ensure!(reg().live == 0, "{} elements were never dropped", reg().live);
    Ok(())
}

fn run_set_word<S: SetSub>(kind: &str, shared: bool, hist: &[SOp], word: &[u8], steps: &mut u64) -> Result<(), String> {
    let mut f = run_shistory::<S>(hist, usize::MAX, Obs::Light, steps)?;
    let (s, md) = f.hs[0].take().unwrap();
    *steps += word.len() as u64;
    let keep = if shared { Some(s.clone()) } else { None };
    let others: Vec<_> = f.hs.iter_mut().filter_map(|h| h.take()).collect();
    let n = md.len();
    let see = |k: &Key, i: usize| -> Result<(), String> {
        let e = el(k);
        ensure!(e == md.0[i], "item {i} is {e:?}, expected {:?}", md.0[i]);
        Ok(())
    };
    if S::AVL {
        // not double-ended
        if kind == "iter" {
            drive(Front(s.iter_()), n, word, |k, i| see(k, i))?;
        } else {
            drive(Front(s.into_iter_()), n, word, |k, i| see(&k, i))?;
        }
    } else if kind == "iter" {
        drive(Both(s.iter_de().unwrap()), n, word, |k, i| see(k, i))?;
    } else {
        drive(Both(s.into_iter_de().unwrap()), n, word, |k, i| see(&k, i))?;
    }
    if let Some(c) = keep {
        sobserve(&c, &md, Obs::Light).map_err(|e| format!("the clone: {e}"))?;
    }
    for (c, cm) in others {
        sobserve(&c, &cm, Obs::Light).map_err(|e| format!("another handle: {e}"))?;
    }
    take_fault()
}

fn map_case<M: MapSub>(slot: &mut Slot, kind: &str, shared: bool, hist: &[Op], word: &[u8]) {
    slot.case(
        |s| {
            s.push_str(&format!("iter {} {kind} {} ", M::NAME, shared as u8));
            s.push_str(std::str::from_utf8(word).unwrap());
            s.push(' ');
            write_ops(hist, s);
        },
        |steps| run_map_word::<M>(kind, shared, hist, word, steps),
    );
}
fn set_case<S: SetSub>(slot: &mut Slot, kind: &str, shared: bool, hist: &[SOp], word: &[u8]) {
    slot.case(
        |s| {
            s.push_str(&format!("siter {} {kind} {} ", S::NAME, shared as u8));
            s.push_str(std::str::from_utf8(word).unwrap());
            s.push(' ');
            write_sops(hist, s);
        },
        |steps| run_set_word::<S>(kind, shared, hist, word, steps),
    );
}

/// all words of length n
pub fn all_words(n: usize) -> Vec<Vec<u8>> {
    (0u64..1 << n).map(|x| (0..n).map(|i| if x >> i & 1 == 0 { b'F' } else { b'B' }).collect()).collect()
}

/// For larger n: i from the front, then all from the back; the reverse; and
/// alternations that start at every position.
pub fn word_family(n: usize, step: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for i in (0..=n).step_by(step) {
        let mut w = vec![b'F'; i];
        w.extend(vec![b'B'; n - i + 2]);
        v.push(w);
        let mut w = vec![b'B'; i];
        w.extend(vec![b'F'; n - i + 2]);
        v.push(w);
        let mut w = vec![b'F'; i];
        for j in 0..n - i + 2 {
            w.push(if j % 2 == 0 { b'B' } else { b'F' });
        }
        v.push(w);
        let mut w = vec![b'B'; i];
        for j in 0..n - i + 2 {
            w.push(if j % 3 == 0 { b'F' } else { b'B' });
        }
        v.push(w);
    }
    v
}

/// for trees of many hundred entries
fn scale_words(n: usize, both: bool, ord: bool) -> Vec<Vec<u8>> {
    let mut v = vec![vec![b'F'; n + 2]];
    if both {
        v.push(vec![b'B'; n + 2]);
        v.push((0..n + 2).map(|i| if i % 3 == 0 { b'F' } else { b'B' }).collect());
    }
    for (i, j) in [(0, 0), (n / 3, 0), (0, n / 3), (n / 3, n / 3)] {
        if j > 0 && !both {
            continue;
        }
        let mut p = vec![b'F'; i];
        p.extend(vec![b'B'; j]);
        let mut with = |e: &[u8]| {
            let mut w = p.clone();
            w.extend(e);
            v.push(w);
        };
        for c in b"clf" {
            with(&[*c]);
        }
        if ord {
            for c in b"mxs" {
                with(&[*c]);
            }
        }
        if both {
            with(b"r");
        }
        for d in *b"01589" {
            with(&[b'q', d, b'F', b'q', b'3', b'F']);
            if both {
                with(&[b'q', d, b'B', b'q', b'7', b'B', b'f']);
                with(&[b'Q', d, b'F', b'Q', b'4', b'B', b'r']);
                with(&[b'Q', d, b'B', b'Q', b'8', b'F', b'Q', b'9', b'F']);
            }
        }
    }
    v
}

fn scale_maps<M: MapSub>(ctx: &Ctx, sizes: &[usize]) {
    let mut items = vec![];
    for p in BIG_PATTERNS {
        for &n in sizes {
            let s = seed(p, n);
            for ord in [false, true] {
                for w in scale_words(s.keys.len(), true, ord) {
                    items.push((s.clone(), w, ord));
                }
            }
        }
    }
    ctx.par_for(&items, |slot, (s, w, ord)| {
        let mut h = s.hist.clone();
        h.push(op(OpK::Clone, 0, 0, 0));
        h.push(op(OpK::GetMut, 1, s.keys[s.keys.len() / 3], 0));
        for kind in kinds::<M>() {
            if (ordered(kind) == 1) == *ord {
                map_case::<M>(slot, kind, false, &s.hist, w);
                map_case::<M>(slot, kind, false, &h, w);
            }
        }
    });
    ctx.note(format!("big iterators {}: sizes {sizes:?}, patterns {BIG_PATTERNS:?}, {} words, unshared and partly shared", M::NAME, items.len()));
}

fn scale_sets<S: SetSub>(ctx: &Ctx, sizes: &[usize]) {
    let mut items = vec![];
    for p in BIG_PATTERNS {
        for &n in sizes {
            let s = seed(p, n);
            for w in scale_words(s.keys.len(), !S::AVL, true) {
                items.push((to_sops(&s.hist), w));
            }
        }
    }
    ctx.par_for(&items, |slot, (h, w)| {
        for kind in ["iter", "into_iter"] {
            for shared in [false, true] {
                set_case::<S>(slot, kind, shared, h, w);
            }
        }
    });
    ctx.note(format!("big set iterators {}: sizes {sizes:?}, patterns {BIG_PATTERNS:?}, {} words", S::NAME, items.len()));
}

/// one edit of a map (0) or of its clone (1): what they then share differs
fn edits(keys: &[i64]) -> Vec<Op> {
    let mut v = vec![];
    for k in keys {
        v.push(op(OpK::GetMut, 0, *k, 0));
        v.push(op(OpK::Rem, 1, *k, 0));
    }
    for g in 0..=keys.len() {
        v.push(op(OpK::Ins, 0, gap_key(keys, g), 0));
    }
    v
}
fn sedits(keys: &[i64]) -> Vec<SOp> {
    let mut v = vec![];
    for k in keys {
        v.push(sop(SK::Replace, 0, *k, 0));
        v.push(sop(SK::Rem, 1, *k, 0));
    }
    for g in 0..=keys.len() {
        v.push(sop(SK::Ins, 0, gap_key(keys, g), 0));
    }
    v
}

/// do the items come in their own order?
fn ordered(kind: &str) -> usize {
    !kind.contains("values") as usize
}

fn kinds<M: MapSub>() -> &'static [&'static str] {
    if M::RICH {
        &KINDS
    } else {
        &KINDS[..3]
    }
}

fn maps<M: MapSub>(ctx: &Ctx, max_n: usize, full_n: usize, seeds: &[usize], step: usize) {
    let st = shapes::<M>(ctx, max_n, 1 << 18);
    ctx.par_for(&st, |slot, s| {
        let n = s.keys.len();
        let words = if n <= full_n { all_words(n + 2) } else { word_family(n, 1) };
        let step = n / 8 + 1;
        let whole = [whole_words(n, true, false, step), whole_words(n, true, true, step)];
        for kind in kinds::<M>() {
            for shared in [false, true] {
                for w in words.iter().chain(&whole[ordered(kind)]) {
                    if slot.ctx.stopped() {
                        return;
                    }
                    map_case::<M>(slot, kind, shared, &s.hist, w);
                }
            }
        }
    });
    // partial sharing: a clone was edited, so only some nodes are shared
    let st2: Vec<&State> = st.iter().filter(|s| !s.keys.is_empty()).collect();
    ctx.par_for(&st2, |slot, s| {
        let n = s.keys.len();
        let words = word_family(n, 1);
        let step = n / 3 + 1;
        let whole = [whole_words(n, true, false, step), whole_words(n, true, true, step)];
        for e in edits(&s.keys) {
            let mut h = s.hist.clone();
            h.push(op(OpK::Clone, 0, 0, 0));
            h.push(e);
            let short = e.k != OpK::GetMut;
            for kind in kinds::<M>() {
                for w in words.iter().step_by(if short { 7 } else { 3 }).chain(&whole[ordered(kind)]) {
                    if slot.ctx.stopped() {
                        return;
                    }
                    map_case::<M>(slot, kind, false, &h, w);
                    if short && w.len() > 3 {
                        continue;
                    }
                    map_case::<M>(slot, kind, true, &h, w);
                }
            }
        }
    });
    let mut items = vec![];
    for p in PATTERNS {
        for n in seeds {
            let s = seed(p, *n);
            for w in word_family(s.keys.len(), step) {
                items.push((s.clone(), w));
            }
            for w in whole_words(s.keys.len(), true, false, s.keys.len() / 3 + 1) {
                items.push((s.clone(), w));
            }
        }
    }
    ctx.par_for(&items, |slot, (s, w)| {
        for kind in kinds::<M>() {
            for shared in [false, true] {
                map_case::<M>(slot, kind, shared, &s.hist, w);
            }
        }
    });
    ctx.note(format!(
        "iterators {}: {} kinds, unshared, fully shared and partly shared, every interleaving of next/next_back up to size {full_n} and a family above on {} shapes; larger trees {seeds:?}, all patterns",
        M::NAME,
        kinds::<M>().len(),
        st.len()
    ));
}

fn sets<S: SetSub>(ctx: &Ctx, max_n: usize, full_n: usize, seeds: &[usize], step: usize) {
    let st = sshapes::<S>(ctx, max_n);
    ctx.par_for(&st, |slot, s| {
        let n = s.keys.len();
        let mut words = if S::AVL {
            vec![vec![b'F'; n + 2]]
        } else if n <= full_n {
            all_words(n + 2)
        } else {
            word_family(n, 1)
        };
        words.extend(whole_words(n, !S::AVL, true, n / 8 + 1));
        for kind in ["iter", "into_iter"] {
            for shared in [false, true] {
                for w in &words {
                    set_case::<S>(slot, kind, shared, &s.hist, w);
                }
            }
        }
        // partly shared
        let mut words = whole_words(n, !S::AVL, true, n / 3 + 1);
        words.extend(if S::AVL { vec![vec![b'F'; n + 3]] } else { word_family(n, 2) });
        for e in sedits(&s.keys) {
            let mut h = s.hist.clone();
            h.push(sop(SK::Clone, 0, 0, 0));
            h.push(e);
            for kind in ["iter", "into_iter"] {
                for w in &words {
                    if slot.ctx.stopped() {
                        return;
                    }
                    set_case::<S>(slot, kind, false, &h, w);
                }
            }
        }
    });
    for p in PATTERNS {
        for n in seeds {
            let s = seed(p, *n);
            let h = to_sops(&s.hist);
            let n = s.keys.len();
            let mut words = if S::AVL { vec![vec![b'F'; n + 2]] } else { word_family(n, step) };
            words.extend(whole_words(n, !S::AVL, true, n / 3 + 1));
            ctx.par_for(&words, |slot, w| {
                for kind in ["iter", "into_iter"] {
                    for shared in [false, true] {
                        set_case::<S>(slot, kind, shared, &h, w);
                    }
                }
            });
        }
    }
}

pub fn explore_c06(ctx: &Ctx) {
    let t = ctx.thorough();
    let (sz, st): (&[usize], usize) = if t { (&[30, 90, 260], 3) } else { (&[30, 90], 9) };
    maps::<Avl>(ctx, ctx.pick(7, 9), ctx.pick(7, 9), sz, st);
    maps::<Bt<1>>(ctx, ctx.pick(8, 10), ctx.pick(8, 10), sz, st);
    maps::<Bt<2>>(ctx, ctx.pick(9, 12), ctx.pick(8, 10), sz, st);
    maps::<Bt<3>>(ctx, ctx.pick(10, 16), ctx.pick(8, 10), sz, st);
    maps::<Bt<5>>(ctx, ctx.pick(16, 26), ctx.pick(8, 11), sz, st);
    maps::<Fixed>(ctx, ctx.pick(16, 30), ctx.pick(9, 12), sz, st);
    maps::<Narrow>(ctx, ctx.pick(13, 24), 8, sz, st);
    sets::<AvlS>(ctx, ctx.pick(7, 9), 7, sz, st);
    sets::<BtS<1>>(ctx, ctx.pick(8, 10), ctx.pick(8, 10), sz, st);
    sets::<BtS<2>>(ctx, ctx.pick(8, 10), ctx.pick(8, 10), sz, st);
    sets::<BtS<5>>(ctx, ctx.pick(14, 20), ctx.pick(8, 10), sz, st);
    let big: &[usize] = if t { &[300, 1200, 3000] } else { &[300, 1200] };
    scale_maps::<Avl>(ctx, big);
    scale_maps::<Bt<1>>(ctx, big);
    scale_maps::<Bt<2>>(ctx, big);
    scale_maps::<Bt<5>>(ctx, big);
    scale_maps::<Bt<16>>(ctx, big);
    scale_maps::<Fixed>(ctx, big);
    scale_sets::<AvlS>(ctx, big);
    scale_sets::<BtS<1>>(ctx, big);
    scale_sets::<BtS<5>>(ctx, big);
    scale_sets::<BtS<16>>(ctx, big);
}

pub fn replay_c06(case: &str) -> Result<(), String> {
    if case.starts_with("map ") {
        return crate::c01::replay(case);
    }
    if case.starts_with("set ") {
        return replay_set(case);
    }
    let p: Vec<&str> = case.splitn(6, ' ').collect();
    ensure!(p.len() >= 5, "bad case");
    let hist = p.get(5).copied().unwrap_or("");
    fn m<M: MapSub>(p: &[&str], hist: &str) -> Result<(), String> {
        let mut s = 0;
        let ops = parse_ops(hist)?;
        run_map_word::<M>(p[2], p[3] == "1", &ops, p[4].as_bytes(), &mut s)
    }
    fn st<S: SetSub>(p: &[&str], hist: &str) -> Result<(), String> {
        let mut s = 0;
        run_set_word::<S>(p[2], p[3] == "1", &parse_sops(hist)?, p[4].as_bytes(), &mut s)
    }
    if p[0] == "siter" {
        for_set!(p[1], st, &p, hist)
    } else {
        for_map!(p[1], m, &p, hist)
    }
}

// ---------------------------------------------------------------------------
// C07

/// kind: "range", "range_mut" (maps), "range" (sets)
fn run_range<M: MapSub>(kind: &str, shared: bool, lo: (u8, i64), hi: (u8, i64), word: &[u8], hist: &[Op], steps: &mut u64) -> Result<(), String> {
    let mut f = run_history::<M>(hist, usize::MAX, Obs::Light, steps)?;
    let (mut m, mut md) = f.hs[0].take().unwrap();
    *steps += word.len() as u64;
    let keep = if shared { Some((m.clone(), md.clone())) } else { None };
    let others: Vec<_> = f.hs.iter_mut().filter_map(|h| h.take()).collect();
    let bds = (bd(lo.0, lo.1), bd(hi.0, hi.1));
    let base = md.0.partition_point(|e| !in_range(e.0, lo, (0, 0)));
    let want: Vec<Ent> = md.0.iter().copied().filter(|e| in_range(e.0, lo, hi)).collect();
    let n = want.len();
    let ok = valid_range(lo, hi);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
        if kind == "range" {
            let it = m.range_(bds);
            drive(Ends(it), n, word, |(k, v), i| {
                let e = ent(k, v);
                ensure!(e == want[i], "item {i} is {e:?}, expected {:?}", want[i]);
                Ok(())
            })
        } else {
            let it = m.range_mut_(bds);
            drive(Ends(it), n, word, |(k, v), i| {
                let e = ent(k, v);
                ensure!(e == want[i], "item {i} is {e:?}, expected {:?}", want[i]);
                *v = Val::new(900_000 + i as u32);
                md.0[base + i].2 = 900_000 + i as u32;
                Ok(())
            })
        }
    }));
    match r {
        Ok(r) => r?,
        Err(_) if !ok => {
            last_panic();
        }
        Err(_) => return Err(last_panic()),
    }
    observe(&m, &md, Obs::Light)?;
    drop(m);
    if let Some((c, cm)) = keep {
        observe(&c, &cm, Obs::Light).map_err(|e| format!("the clone: {e}"))?;
    }
    for (c, cm) in others {
        observe(&c, &cm, Obs::Light).map_err(|e| format!("another handle: {e}"))?;
    }
    take_fault()
}

fn run_srange<S: SetSub>(lo: (u8, i64), hi: (u8, i64), word: &[u8], hist: &[SOp], steps: &mut u64) -> Result<(), String> {
    let f = run_shistory::<S>(hist, usize::MAX, Obs::Light, steps)?;
    *steps += word.len() as u64;
    let (s, md) = (f.s(0), f.model(0));
    let want: Vec<El> = md.0.iter().copied().filter(|e| in_range(e.0, lo, hi)).collect();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
        let it = s.range_((bd(lo.0, lo.1), bd(hi.0, hi.1)));
        drive(Ends(it), want.len(), word, |k, i| {
            ensure!(el(k) == want[i], "item {i} is {:?}, expected {:?}", el(k), want[i]);
            Ok(())
        })
    }));
    match r {
        Ok(r) => r?,
        Err(_) if !valid_range(lo, hi) => {
            last_panic();
        }
        Err(_) => return Err(last_panic()),
    }
    f.observe(Obs::Light)?;
    take_fault()
}

fn range_case<M: MapSub>(slot: &mut Slot, kind: &str, shared: bool, lo: (u8, i64), hi: (u8, i64), word: &[u8], hist: &[Op]) {
    slot.case(
        |s| {
            s.push_str(&format!("rng {} {kind} {} {} {} {} {} ", M::NAME, shared as u8, lo.0, lo.1, hi.0, hi.1));
            s.push_str(std::str::from_utf8(word).unwrap());
            s.push(' ');
            write_ops(hist, s);
        },
        |steps| run_range::<M>(kind, shared, lo, hi, word, hist, steps),
    );
}
fn srange_case<S: SetSub>(slot: &mut Slot, lo: (u8, i64), hi: (u8, i64), word: &[u8], hist: &[SOp]) {
    slot.case(
        |s| {
            s.push_str(&format!("srng {} range 0 {} {} {} {} ", S::NAME, lo.0, lo.1, hi.0, hi.1));
            s.push_str(std::str::from_utf8(word).unwrap());
            s.push(' ');
            write_sops(hist, s);
        },
        |steps| run_srange::<S>(lo, hi, word, hist, steps),
    );
}

/// every bound: unbounded, and included/excluded at every key and in every gap
fn bounds(keys: &[i64]) -> Vec<(u8, i64)> {
    let mut v = vec![(0, 0)];
    for k in keys {
        v.push((1, k - 1));
        v.push((2, k - 1));
        v.push((1, *k));
        v.push((2, *k));
    }
    let end = keys.last().map_or(5, |k| k + 1);
    v.push((1, end));
    v.push((2, end));
    v
}

/// the same, only near the positions of interest
fn sparse_bounds(keys: &[i64], every: usize) -> Vec<(u8, i64)> {
    let mut v = vec![(0, 0)];
    for (i, k) in keys.iter().enumerate() {
        if i % every == 0 || i < 3 || i + 3 > keys.len() {
            v.push((1, k - 1));
            v.push((1, *k));
            v.push((2, *k));
        }
    }
    v.push((1, keys.last().map_or(5, |k| k + 1)));
    v
}

/// after a few prefixes: every way to consume the rest, and nth from each end
fn few_words(n: usize, all: bool) -> Vec<Vec<u8>> {
    if all {
        return whole_words(n, true, true, n / 2 + 1);
    }
    let mut v = vec![];
    for (i, j) in [(0, 0), (1, 1), (n / 2, 0)] {
        if i + j > n {
            continue;
        }
        let mut p = vec![b'F'; i];
        p.extend(vec![b'B'; j]);
        let mut with = |e: &[u8]| {
            let mut w = p.clone();
            w.extend(e);
            v.push(w);
        };
        for c in b"clfrmxs" {
            with(&[*c]);
        }
        let left = n - i - j;
        for k in [0, 1, left.max(1) - 1, left] {
            let d = k as u8 + b'0';
            if k < 70 {
                with(&[b'n', d, b'B', b'F']);
                with(&[b'N', d, b'F', b'B']);
            }
        }
    }
    v
}

fn ranges<M: MapSub>(ctx: &Ctx, max_n: usize, full_n: usize, whole_n: usize, part_n: usize, seeds: &[(usize, usize)]) {
    let st = shapes::<M>(ctx, max_n, 1 << 18);
    let mut items = vec![];
    for s in &st {
        for b in bounds(&s.keys) {
            items.push((s, b));
        }
    }
    ctx.par_for(&items, |slot, (s, lo)| {
        for hi in bounds(&s.keys) {
            if slot.ctx.stopped() {
                return;
            }
            let n = s.keys.iter().filter(|k| in_range(**k, *lo, hi)).count();
            let words = if n <= full_n { all_words(n + 2) } else { word_family(n, 1) };
            for w in &words {
                range_case::<M>(slot, "range", false, *lo, hi, w, &s.hist);
                range_case::<M>(slot, "range_mut", true, *lo, hi, w, &s.hist);
            }
            range_case::<M>(slot, "range_mut", false, *lo, hi, &words[0], &s.hist);
            // whole consumption, nth
            for (i, w) in few_words(n, s.keys.len() <= whole_n).iter().enumerate() {
                range_case::<M>(slot, "range", false, *lo, hi, w, &s.hist);
                range_case::<M>(slot, "range_mut", i % 2 == 0, *lo, hi, w, &s.hist);
            }
        }
    });
    // partly shared: one edit after a clone
    items.retain(|(s, _)| s.keys.len() <= part_n);
    ctx.par_for(&items, |slot, (s, lo)| {
        for e in edits(&s.keys) {
            let mut h = s.hist.clone();
            h.push(op(OpK::Clone, 0, 0, 0));
            h.push(e);
            let mut keys = s.keys.clone();
            if e.k == OpK::Ins {
                keys.push(e.a);
            }
            for hi in bounds(&s.keys) {
                if slot.ctx.stopped() {
                    return;
                }
                let n = keys.iter().filter(|k| in_range(**k, *lo, hi)).count();
                let mut words = vec![vec![b'F'; n + 2], vec![b'B'; n + 2], b"FBFB".to_vec(), b"BF".to_vec(), vec![b'B'; n / 2]];
                words.push((0..n + 2).map(|i| if i < n / 2 { b'B' } else { b'F' }).collect());
                for w in &words {
                    range_case::<M>(slot, "range_mut", false, *lo, hi, w, &h);
                }
                range_case::<M>(slot, "range", false, *lo, hi, &words[0], &h);
            }
        }
    });
    for p in PATTERNS {
        for &(n, every) in seeds {
            let s = seed(p, n);
            let bs = sparse_bounds(&s.keys, every);
            ctx.par_for(&bs, |slot, lo| {
                for hi in &bs {
                    if slot.ctx.stopped() {
                        return;
                    }
                    let n = s.keys.iter().filter(|k| in_range(**k, *lo, *hi)).count();
                    let mut words = vec![vec![b'F'; n + 2], vec![b'B'; n + 2]];
                    words.push((0..n + 2).map(|i| if i % 2 == 0 { b'F' } else { b'B' }).collect());
                    words.push((0..n + 2).map(|i| if i < n / 2 { b'B' } else { b'F' }).collect());
                    for w in &words {
                        range_case::<M>(slot, "range", false, *lo, *hi, w, &s.hist);
                        range_case::<M>(slot, "range_mut", true, *lo, *hi, w, &s.hist);
                    }
                    // an eighth of the pairs each
                    let turn = (lo.1.wrapping_mul(7) ^ hi.1 ^ (hi.0 as i64)).rem_euclid(8);
                    for (i, w) in few_words(n, false).iter().enumerate() {
                        if i as i64 % 8 == turn {
                            range_case::<M>(slot, "range", false, *lo, *hi, w, &s.hist);
                            range_case::<M>(slot, "range_mut", i % 3 == 0, *lo, *hi, w, &s.hist);
                        }
                    }
                }
            });
        }
    }
    ctx.note(format!(
        "ranges {}: every pair of bounds (included/excluded at every key and gap, unbounded), including reversed ones, on {} shapes with at most {max_n} entries, every interleaving for up to {full_n} items, and every way to consume the rest after some prefixes; up to {part_n} entries also after a clone and each single edit of either; larger trees (size, bound stride) {seeds:?}, all patterns",
        M::NAME,
        st.len()
    ));
}

fn sranges<S: SetSub>(ctx: &Ctx, max_n: usize, seeds: &[(usize, usize)]) {
    let st = sshapes::<S>(ctx, max_n);
    ctx.par_for(&st, |slot, s| {
        let bs = bounds(&s.keys);
        for lo in &bs {
            for hi in &bs {
                if slot.ctx.stopped() {
                    return;
                }
                let n = s.keys.iter().filter(|k| in_range(**k, *lo, *hi)).count();
                let mut words = if n <= 6 { all_words(n + 2) } else { word_family(n, 2) };
                words.extend(few_words(n, n < 5));
                for w in &words {
                    srange_case::<S>(slot, *lo, *hi, w, &s.hist);
                }
            }
        }
    });
    for p in PATTERNS {
        for &(n, every) in seeds {
            let s = seed(p, n);
            let h = to_sops(&s.hist);
            let bs = sparse_bounds(&s.keys, every);
            ctx.par_for(&bs, |slot, lo| {
                for hi in &bs {
                    if slot.ctx.stopped() {
                        return;
                    }
                    let n = s.keys.iter().filter(|k| in_range(**k, *lo, *hi)).count();
                    let mut words = vec![vec![b'F'; n + 2], vec![b'B'; n + 2]];
                    words.push((0..n + 2).map(|i| if i % 2 == 0 { b'F' } else { b'B' }).collect());
                    words.extend(few_words(n, false));
                    for w in &words {
                        srange_case::<S>(slot, *lo, *hi, w, &h);
                    }
                }
            });
        }
    }
    ctx.note(format!("set ranges {}: every pair of bounds on {} shapes with at most {max_n} elements; larger trees {seeds:?}, all patterns", S::NAME, st.len()));
}

/// big trees: bounds at the ends, the middle, around the powers of two
fn scale_ranges<M: MapSub>(ctx: &Ctx, sizes: &[usize]) {
    let mut items = vec![];
    for p in BIG_PATTERNS {
        for &n in sizes {
            let s = seed(p, n);
            let n = s.keys.len();
            let mut at: Vec<(u8, i64)> = vec![(0, 0)];
            for i in [0, 1, n / 4, n / 2, n / 2 + 3, n - 2, n - 1] {
                at.extend([(1, s.keys[i]), (2, s.keys[i]), (1, s.keys[i] + 1)]);
            }
            for lo in &at {
                items.push((s.clone(), at.clone(), *lo));
            }
        }
    }
    ctx.par_for(&items, |slot, (s, at, lo)| {
        for hi in at {
            if slot.ctx.stopped() {
                return;
            }
            let n = s.keys.iter().filter(|k| in_range(**k, *lo, *hi)).count();
            for (i, w) in scale_words(n, true, true).iter().enumerate() {
                if (i as i64 + lo.1 / SP + hi.1 / SP * 3) % 29 == 0 {
                    range_case::<M>(slot, "range", false, *lo, *hi, w, &s.hist);
                    range_case::<M>(slot, "range_mut", i % 2 == 0, *lo, *hi, w, &s.hist);
                }
            }
        }
    });
    ctx.note(format!("big ranges {}: sizes {sizes:?}, patterns {BIG_PATTERNS:?}, every pair of 22 bounds, a rotating selection of ways to consume them", M::NAME));
}

pub fn explore_c07(ctx: &Ctx) {
    let t = ctx.thorough();
    let sd: &[(usize, usize)] = if t { &[(30, 1), (80, 5), (250, 17)] } else { &[(30, 2), (80, 9)] };
    let (w, pt) = (ctx.pick(4, 6), ctx.pick(5, 7));
    ranges::<Avl>(ctx, ctx.pick(6, 8), ctx.pick(6, 8), w, pt, sd);
    ranges::<Bt<1>>(ctx, ctx.pick(8, 10), ctx.pick(5, 8), w, ctx.pick(6, 8), sd);
    ranges::<Bt<2>>(ctx, ctx.pick(9, 13), ctx.pick(5, 8), w, ctx.pick(6, 8), sd);
    ranges::<Bt<3>>(ctx, ctx.pick(9, 16), ctx.pick(5, 7), w, ctx.pick(8, 9), sd);
    ranges::<Bt<5>>(ctx, ctx.pick(14, 24), ctx.pick(4, 7), w, ctx.pick(11, 12), sd);
    let sd: &[(usize, usize)] = if t { &[(30, 1), (80, 5)] } else { &[(30, 3)] };
    sranges::<AvlS>(ctx, ctx.pick(6, 8), sd);
    sranges::<BtS<1>>(ctx, ctx.pick(6, 9), sd);
    sranges::<BtS<2>>(ctx, ctx.pick(7, 10), sd);
    sranges::<BtS<5>>(ctx, ctx.pick(7, 16), sd);
    let big: &[usize] = if t { &[300, 1200, 3000] } else { &[300, 1200] };
    scale_ranges::<Avl>(ctx, big);
    scale_ranges::<Bt<1>>(ctx, big);
    scale_ranges::<Bt<2>>(ctx, big);
    scale_ranges::<Bt<5>>(ctx, big);
    scale_ranges::<Bt<16>>(ctx, big);
}

pub fn replay_c07(case: &str) -> Result<(), String> {
    if !case.starts_with("rng ") && !case.starts_with("srng ") {
        return replay_c06(case);
    }
    let p: Vec<&str> = case.splitn(10, ' ').collect();
    ensure!(p.len() >= 9, "bad case");
    let num = |s: &str| s.parse::<i64>().map_err(|_| "bad number".to_string());
    let lo = (num(p[4])? as u8, num(p[5])?);
    let hi = (num(p[6])? as u8, num(p[7])?);
    let hist = p.get(9).copied().unwrap_or("");
    fn m<M: MapSub>(p: &[&str], lo: (u8, i64), hi: (u8, i64), hist: &str) -> Result<(), String> {
        let mut s = 0;
        run_range::<M>(p[2], p[3] == "1", lo, hi, p[8].as_bytes(), &parse_ops(hist)?, &mut s)
    }
    fn st<S: SetSub>(p: &[&str], lo: (u8, i64), hi: (u8, i64), hist: &str) -> Result<(), String> {
        let mut s = 0;
        run_srange::<S>(lo, hi, p[8].as_bytes(), &parse_sops(hist)?, &mut s)
    }
    if p[0] == "srng" {
        for_set!(p[1], st, &p, lo, hi, hist)
    } else {
        for_map!(p[1], m, &p, lo, hi, hist)
    }
}
