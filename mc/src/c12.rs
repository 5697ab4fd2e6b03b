//! C12: equality, ordering, hashing and formatting depend only on contents.

use crate::elem::*;
use crate::engine::*;
use crate::shapes::*;
use crate::subj::*;
use crate::ensure;
use lazy_clone_collections as lcc;
use std::cmp::Ordering;
use std::fmt::Write;

/// One step of building a collection: i k v insert, r k remove, s k v set the
/// value in place; for stacks p v push, o pop, t v replace the top, m replace
/// every element by itself through iter_mut.
#[derive(Clone, Copy, PartialEq, Debug)]
struct B {
    c: u8,
    k: i64,
    v: i64,
}

fn b(c: u8, k: i64, v: i64) -> B {
    B { c, k, v }
}

fn write_b(x: &[B], s: &mut String) {
    for (i, e) in x.iter().enumerate() {
        let _ = write!(s, "{}{} {} {}", if i > 0 { ";" } else { "" }, e.c as char, e.k, e.v);
    }
}

fn parse_b(s: &str) -> Result<Vec<B>, String> {
    let mut v = vec![];
    for t in s.split(';').map(|t| t.trim()).filter(|t| !t.is_empty()) {
        let p: Vec<&str> = t.split(' ').collect();
        ensure!(p.len() == 3 && p[0].len() == 1, "bad step {t}");
        v.push(b(p[0].as_bytes()[0], p[1].parse().map_err(|_| "bad")?, p[2].parse().map_err(|_| "bad")?));
    }
    Ok(v)
}

/// contents: (key, value) ascending; for stacks (position from the top, value)
type C = Vec<(i64, i64)>;

fn model(c: &mut C, s: &[B]) {
    for e in s {
        let at = c.binary_search_by(|x| x.0.cmp(&e.k));
        match (e.c, at) {
            (b'i', Ok(i)) | (b's', Ok(i)) => c[i].1 = e.v,
            (b'i', Err(i)) => c.insert(i, (e.k, e.v)),
            (b'r', Ok(i)) => {
                c.remove(i);
            }
            (b'p', _) => {
                for x in c.iter_mut() {
                    x.0 += 1;
                }
                c.insert(0, (0, e.v));
            }
            (b'o', _) => {
                if !c.is_empty() {
                    c.remove(0);
                }
                for x in c.iter_mut() {
                    x.0 -= 1;
                }
            }
            (b't', _) => {
                if !c.is_empty() {
                    c[0].1 = e.v;
                }
            }
            _ => (),
        }
    }
}

trait Comparable: Clone {
    const NAME: &'static str;
    fn empty() -> Self;
    fn step(&mut self, e: &B);
    fn eq2(&self, o: &Self) -> bool;
    fn partial2(&self, o: &Self) -> Option<Ordering>;
    /// every operator of PartialEq and PartialOrd: == != < <= > >=
    fn ops(&self, o: &Self) -> [bool; 6];
    fn cmp2(&self, _o: &Self) -> Option<Ordering> {
        None
    }
    fn hash2(&self) -> Option<u64> {
        None
    }
    fn debug2(&self, alt: bool) -> String;
    /// the integers Debug must list
    fn ints(c: &C) -> Vec<i64>;
    const STACK: bool = false;
    /// equality and order of the contents
    fn want_partial(a: &C, b: &C) -> Option<Ordering>;
    fn want_eq(a: &C, b: &C) -> bool;
}

fn oper<T: PartialOrd>(a: &T, b: &T) -> [bool; 6] {
    [a == b, a != b, a < b, a <= b, a > b, a >= b]
}

fn debug<T: std::fmt::Debug>(t: &T, alt: bool) -> String {
    if alt {
        format!("{t:#?}")
    } else {
        format!("{t:?}")
    }
}

struct MapC<M>(M);
impl<M: Clone> Clone for MapC<M> {
    fn clone(&self) -> Self {
        MapC(self.0.clone())
    }
}

fn want_int(a: &C, b: &C) -> Option<Ordering> {
    Some(a.cmp(b))
}

macro_rules! map_c {
    ($t:ty, $hash:expr) => {
        impl Comparable for MapC<$t> {
            const NAME: &'static str = <$t as MapSub>::NAME;
            fn empty() -> Self {
                MapC(<$t>::new_())
            }
            fn step(&mut self, e: &B) {
                match e.c {
                    b'i' => {
                        let t = reg().live as u32;
                        self.0.insert_(Key::new(e.k, t), Val::new(e.v as u32));
                    }
                    b's' => {
                        if let Some(v) = self.0.get_mut_q(&KQ(e.k)) {
                            *v = Val::new(e.v as u32);
                        }
                    }
                    _ => {
                        self.0.remove_q(&KQ(e.k));
                    }
                }
            }
            fn eq2(&self, o: &Self) -> bool {
                self.0.eq_(&o.0)
            }
            fn partial2(&self, o: &Self) -> Option<Ordering> {
                self.0.partial_cmp_(&o.0)
            }
            fn ops(&self, o: &Self) -> [bool; 6] {
                oper(&self.0, &o.0)
            }
            fn cmp2(&self, o: &Self) -> Option<Ordering> {
                Some(self.0.cmp_(&o.0))
            }
            fn hash2(&self) -> Option<u64> {
                let f: Option<fn(&$t) -> u64> = $hash;
                f.map(|f| f(&self.0))
            }
            fn debug2(&self, alt: bool) -> String {
                debug(&self.0, alt)
            }
            fn ints(c: &C) -> Vec<i64> {
                c.iter().flat_map(|e| [e.0, e.1]).collect()
            }
            fn want_partial(a: &C, b: &C) -> Option<Ordering> {
                want_int(a, b)
            }
            fn want_eq(a: &C, b: &C) -> bool {
                a == b
            }
        }
    };
}
map_c!(Avl, Some(|m| m.hash_()));
map_c!(Bt<1>, None);
map_c!(Bt<2>, None);
map_c!(Bt<5>, None);
map_c!(Bt<16>, None);

macro_rules! set_c {
    ($t:ty) => {
        impl Comparable for MapC<$t> {
            const NAME: &'static str = <$t as SetSub>::NAME;
            fn empty() -> Self {
                MapC(<$t>::new_())
            }
            fn step(&mut self, e: &B) {
                match e.c {
                    b'i' => {
                        let t = reg().live as u32;
                        self.0.insert_(Key::new(e.k, t));
                    }
                    b'r' => {
                        self.0.remove_q(&KQ(e.k));
                    }
                    b's' if self.0.contains_q(&KQ(e.k)) => {
                        let t = reg().live as u32;
                        self.0.replace_(Key::new(e.k, t));
                    }
                    _ => (),
                }
            }
            fn eq2(&self, o: &Self) -> bool {
                self.0.eq_(&o.0)
            }
            fn partial2(&self, o: &Self) -> Option<Ordering> {
                self.0.partial_cmp_(&o.0)
            }
            fn ops(&self, o: &Self) -> [bool; 6] {
                oper(&self.0, &o.0)
            }
            fn cmp2(&self, o: &Self) -> Option<Ordering> {
                Some(self.0.cmp_(&o.0))
            }
            fn hash2(&self) -> Option<u64> {
                Some(self.0.hash_())
            }
            fn debug2(&self, alt: bool) -> String {
                debug(&self.0, alt)
            }
            fn ints(c: &C) -> Vec<i64> {
                c.iter().map(|e| e.0).collect()
            }
            fn want_partial(a: &C, b: &C) -> Option<Ordering> {
                Some(a.iter().map(|e| e.0).cmp(b.iter().map(|e| e.0)))
            }
            fn want_eq(a: &C, b: &C) -> bool {
                a.iter().map(|e| e.0).eq(b.iter().map(|e| e.0))
            }
        }
    };
}
set_c!(AvlS);
set_c!(BtS<1>);
set_c!(BtS<2>);
set_c!(BtS<5>);
set_c!(BtS<16>);

/// values that are not totally ordered
fn fl(v: i64) -> f64 {
    [0.0, 1.0, f64::NAN, -0.0][v as usize & 3]
}
fn fl_partial(a: &C, b: &C) -> Option<Ordering> {
    let f = |c: &C| c.iter().map(|e| (e.0, fl(e.1))).collect::<Vec<_>>();
    f(a).partial_cmp(&f(b))
}
fn fl_eq(a: &C, b: &C) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && fl(x.1) == fl(y.1))
}

macro_rules! float_c {
    ($t:ty, $n:literal) => {
        impl Comparable for MapC<$t> {
            const NAME: &'static str = $n;
            fn empty() -> Self {
                MapC(<$t>::new())
            }
            fn step(&mut self, e: &B) {
                match e.c {
                    b'i' => {
                        self.0.insert(e.k, fl(e.v));
                    }
                    b's' => {
                        if let Some(v) = self.0.get_mut(&e.k) {
                            *v = fl(e.v);
                        }
                    }
                    _ => {
                        self.0.remove(&e.k);
                    }
                }
            }
            fn eq2(&self, o: &Self) -> bool {
                self.0 == o.0
            }
            fn partial2(&self, o: &Self) -> Option<Ordering> {
                self.0.partial_cmp(&o.0)
            }
            fn ops(&self, o: &Self) -> [bool; 6] {
                oper(&self.0, &o.0)
            }
            fn debug2(&self, _alt: bool) -> String {
                String::new()
            }
            fn ints(_: &C) -> Vec<i64> {
                vec![]
            }
            fn want_partial(a: &C, b: &C) -> Option<Ordering> {
                fl_partial(a, b)
            }
            fn want_eq(a: &C, b: &C) -> bool {
                fl_eq(a, b)
            }
        }
    };
}
float_c!(lcc::AvlMap<i64, f64>, "favl");
float_c!(lcc::btree::BTreeMap<i64, f64, 1>, "fbt1");
float_c!(lcc::btree::BTreeMap<i64, f64, 2>, "fbt2");

macro_rules! stack_c {
    ($t:ty, $n:literal, $mk:expr, $part:expr, $eq:expr, $cmp:expr, $ints:literal) => {
        impl Comparable for MapC<lcc::Stack<$t>> {
            const NAME: &'static str = $n;
            const STACK: bool = true;
            fn empty() -> Self {
                MapC(lcc::Stack::new())
            }
            fn step(&mut self, e: &B) {
                let mk: fn(i64) -> $t = $mk;
                match e.c {
                    b'p' => self.0.push(mk(e.v)),
                    b'o' => {
                        self.0.pop();
                    }
                    b't' => {
                        if let Some(x) = self.0.top_mut() {
                            *x = mk(e.v);
                        }
                    }
                    _ => {
                        for x in self.0.iter_mut() {
                            let y = x.clone();
                            *x = y;
                        }
                    }
                }
            }
            fn eq2(&self, o: &Self) -> bool {
                self.0 == o.0
            }
            fn partial2(&self, o: &Self) -> Option<Ordering> {
                self.0.partial_cmp(&o.0)
            }
            fn ops(&self, o: &Self) -> [bool; 6] {
                oper(&self.0, &o.0)
            }
            fn cmp2(&self, o: &Self) -> Option<Ordering> {
                let f: Option<fn(&lcc::Stack<$t>, &lcc::Stack<$t>) -> Ordering> = $cmp;
                f.map(|f| f(&self.0, &o.0))
            }
            fn debug2(&self, alt: bool) -> String {
                if $ints {
                    debug(&self.0, alt)
                } else {
                    String::new()
                }
            }
            fn ints(c: &C) -> Vec<i64> {
                if $ints {
                    c.iter().map(|e| e.1).collect()
                } else {
                    vec![]
                }
            }
            fn want_partial(a: &C, b: &C) -> Option<Ordering> {
                $part(a, b)
            }
            fn want_eq(a: &C, b: &C) -> bool {
                $eq(a, b)
            }
        }
    };
}
stack_c!(
    Key,
    "stack",
    |v| Key::new(v, reg().live as u32),
    |a: &C, b: &C| Some(a.iter().map(|e| e.1).cmp(b.iter().map(|e| e.1))),
    |a: &C, b: &C| a == b,
    Some(|a, b| a.cmp(b)),
    true
);
stack_c!(
    f64,
    "fstack",
    fl,
    |a: &C, b: &C| a.iter().map(|e| fl(e.1)).partial_cmp(b.iter().map(|e| fl(e.1))),
    |a: &C, b: &C| fl_eq(a, b),
    None,
    false
);

fn parse_ints(s: &str) -> Vec<i64> {
    let mut v = vec![];
    let by = s.as_bytes();
    let mut i = 0;
    while i < by.len() {
        if by[i].is_ascii_digit() {
            let neg = i > 0 && by[i - 1] == b'-';
            let mut x = 0i64;
            while i < by.len() && by[i].is_ascii_digit() {
                x = x.wrapping_mul(10).wrapping_add((by[i] - b'0') as i64);
                i += 1;
            }
            v.push(if neg { -x } else { x });
        } else {
            i += 1;
        }
    }
    v
}

/// The property for one pair: `right` starts from nothing or from a clone of
/// the left collection.
fn pair<T: Comparable>(left: &[B], right: &[B], shared: bool, steps: &mut u64) -> Result<(), String> {
    reg().reset();
    let mut l = T::empty();
    let mut lc = vec![];
    for e in left {
        l.step(e);
    }
    model(&mut lc, left);
    let (mut r, mut rc) = if shared { (l.clone(), lc.clone()) } else { (T::empty(), vec![]) };
    for e in right {
        r.step(e);
    }
    model(&mut rc, right);
    *steps += 1;
    let mut prev = None;
    for (x, xc, y, yc) in [(&l, &lc, &r, &rc), (&r, &rc, &l, &lc), (&l, &lc, &l, &lc), (&r, &rc, &r, &rc)] {
        let eq = T::want_eq(xc, yc);
        ensure!(x.eq2(y) == eq, "{xc:?} == {yc:?} is {}", !eq);
        let want = T::want_partial(xc, yc);
        let p = x.partial2(y);
        ensure!(p == want, "partial_cmp of {xc:?} and {yc:?} is {p:?}, expected {want:?}");
        use Ordering::*;
        let ops = [
            eq,
            !eq,
            want == Some(Less),
            matches!(want, Some(Less | Equal)),
            want == Some(Greater),
            matches!(want, Some(Greater | Equal)),
        ];
        let got = x.ops(y);
        ensure!(got == ops, "== != < <= > >= of {xc:?} and {yc:?} are {got:?}, expected {ops:?}");
        if let Some(c) = x.cmp2(y) {
            ensure!(Some(c) == want, "cmp of {xc:?} and {yc:?} is {c:?}, expected {want:?}");
        }
        if let (Some(a), Some(b)) = (x.hash2(), y.hash2()) {
            ensure!(!eq || a == b, "equal collections {xc:?} hash differently");
        }
        if prev != Some(xc) {
            for alt in [false, true] {
                let d = x.debug2(alt);
                let got = parse_ints(&d);
                let want = T::ints(xc);
                let ok = if T::STACK { got.ends_with(&want) && got.len() <= want.len() + 1 } else { got == want };
                ensure!(ok, "Debug of {xc:?} is {d}");
            }
            prev = Some(xc);
        }
    }
    take_fault()
}

fn case<T: Comparable>(slot: &mut Slot, left: &[B], right: &[B], shared: bool) {
    slot.case(
        |s| {
            let _ = write!(s, "eq {} {} ", T::NAME, shared as u8);
            write_b(left, s);
            s.push('|');
            write_b(right, s);
        },
        |steps| pair::<T>(left, right, shared, steps),
    );
}

fn to_b(hist: &[crate::machine::Op]) -> Vec<B> {
    hist.iter().map(|o| b(if o.k == crate::machine::OpK::Ins { b'i' } else { b'r' }, o.a, 0)).collect()
}

/// all edits of a collection with these keys
fn edits(keys: &[i64], values: i64) -> Vec<Vec<B>> {
    let mut one = vec![];
    for k in keys {
        one.push(b(b'r', *k, 0));
        for v in 0..values {
            one.push(b(b's', *k, v));
            one.push(b(b'i', *k, v));
        }
    }
    for g in 0..=keys.len() {
        one.push(b(b'i', gap_key(keys, g), 0));
    }
    let mut v = vec![vec![]];
    for x in &one {
        v.push(vec![*x]);
    }
    for x in &one {
        for y in &one {
            v.push(vec![*x, *y]);
        }
    }
    v
}

/// all pairs: contents x shape x values, and clones edited once or twice
fn small<T: Comparable, M: MapSub>(ctx: &Ctx, d: usize, values: i64, shared_n: usize) {
    let pl = placed::<M>(ctx, d, 0);
    let mut all: Vec<(Vec<i64>, Vec<B>)> = vec![];
    for (keys, hist) in &pl {
        for x in 0..values.pow(keys.len() as u32) {
            let mut h = to_b(hist);
            let mut y = x;
            for k in keys {
                if values > 1 {
                    h.push(b(b's', *k, y % values));
                    y /= values;
                }
            }
            all.push((keys.clone(), h));
        }
    }
    let idx: Vec<usize> = (0..all.len()).collect();
    ctx.add_states(all.len() as u64);
    ctx.par_for(&idx, |slot, &i| {
        for j in 0..=i {
            if slot.ctx.stopped() {
                return;
            }
            case::<T>(slot, &all[i].1, &all[j].1, false);
        }
        if all[i].0.len() <= shared_n {
            for e in edits(&all[i].0, values.max(1)) {
                if slot.ctx.stopped() {
                    return;
                }
                case::<T>(slot, &all[i].1, &e, true);
            }
        }
    });
    ctx.note(format!(
        "pairs {}: all pairs of {} collections (contents over {d} keys x shapes x {values} values each); clones with all sequences of up to 2 edits on at most {shared_n} entries",
        T::NAME,
        all.len()
    ));
}

/// larger collections: every pair of patterns, equal or different at one place
fn large<T: Comparable>(ctx: &Ctx, n: usize) {
    let mut items = vec![];
    let hist = |p: &str| {
        let st = seed(p, n);
        let keys: Vec<i64> = (0..st.keys.len() as i64).map(|i| i * SP).collect();
        (to_b(&remap(&st, &keys, 0)), keys)
    };
    for p in PATTERNS {
        for q in PATTERNS {
            let ((l, lk), (r, rk)) = (hist(p), hist(q));
            items.push((l.clone(), r.clone(), false));
            for i in (0..lk.len().min(rk.len())).step_by(1 + n / 40) {
                let mut r2 = r.clone();
                r2.push(b(b's', rk[i], 1));
                items.push((l.clone(), r2, false));
                let mut r2 = r.clone();
                r2.push(b(b'r', rk[i], 0));
                items.push((l.clone(), r2.clone(), false));
                r2.push(b(b'i', rk[i] + 1, 0));
                items.push((l.clone(), r2, false));
                if p == q {
                    for e in [b(b's', lk[i], 1), b(b's', lk[i], 0), b(b'r', lk[i], 0), b(b'i', lk[i] + 1, 0)] {
                        items.push((l.clone(), vec![e], true));
                    }
                }
            }
        }
    }
    ctx.par_for(&items, |slot, (l, r, s)| case::<T>(slot, l, r, *s));
    ctx.note(format!(
        "large {}: all pairs of patterns {PATTERNS:?} with {n} entries, equal and with one entry changed, removed or moved at every {}th place, rebuilt and cloned",
        T::NAME,
        1 + n / 40
    ));
}

/// float maps: keys 0..d, every assignment of {absent, 0, 1, NaN, -0}, two
/// insertion orders; every pair, fresh and from a clone
fn floats<T: Comparable>(ctx: &Ctx, d: i64) {
    let mut all = vec![];
    for x in 0..5i64.pow(d as u32) {
        let mut a = vec![];
        let mut y = x;
        for k in 0..d {
            if y % 5 < 4 {
                a.push(b(b'i', k, y % 5));
            }
            y /= 5;
        }
        let mut r = a.clone();
        r.reverse();
        if a.len() > 1 {
            all.push(r);
        }
        all.push(a);
    }
    let idx: Vec<usize> = (0..all.len()).collect();
    ctx.add_states(all.len() as u64);
    ctx.par_for(&idx, |slot, &i| {
        for r in &all[..=i] {
            if slot.ctx.stopped() {
                return;
            }
            case::<T>(slot, &all[i], r, false);
        }
        let keys: Vec<i64> = (0..d).collect();
        let _ = keys;
        case::<T>(slot, &all[i], &[], true);
        for k in 0..d {
            case::<T>(slot, &all[i], &[b(b'r', k, 0)], true);
            for v in 0..4 {
                case::<T>(slot, &all[i], &[b(b's', k, v)], true);
            }
        }
    });
    ctx.note(format!(
        "floats {}: all pairs of {} maps over {d} keys with values 0, 1, NaN, -0; clones with every single edit",
        T::NAME,
        all.len()
    ));
}

/// all pairs of stacks of at most `n` elements over `values`, and every stack
/// derived from a clone by pops and pushes
fn stacks<T: Comparable>(ctx: &Ctx, n: usize, values: i64) {
    let mut all: Vec<Vec<B>> = vec![];
    for len in 0..=n {
        for x in 0..values.pow(len as u32) {
            let mut y = x;
            let mut s = vec![];
            for _ in 0..len {
                s.push(b(b'p', 0, y % values));
                y /= values;
            }
            all.push(s);
        }
    }
    let idx: Vec<usize> = (0..all.len()).collect();
    ctx.add_states(all.len() as u64);
    ctx.par_for(&idx, |slot, &i| {
        for r in &all {
            if slot.ctx.stopped() {
                return;
            }
            case::<T>(slot, &all[i], r, false);
            // the clone pops j elements, then pushes r
            for j in 0..=all[i].len() {
                if all[i].len() - j + r.len() <= n {
                    let mut e: Vec<B> = (0..j).map(|_| b(b'o', 0, 0)).collect();
                    e.extend_from_slice(r);
                    case::<T>(slot, &all[i], &e, true);
                    e.push(b(b't', 0, values - 1));
                    case::<T>(slot, &all[i], &e, true);
                    *e.last_mut().unwrap() = b(b'm', 0, 0);
                    case::<T>(slot, &all[i], &e, true);
                }
            }
        }
    });
    ctx.note(format!(
        "stacks {}: all pairs of {} stacks of at most {n} elements over {values} values, and every stack reached from a clone by pops, pushes and a rewrite",
        T::NAME,
        all.len()
    ));
}

/// big collections, past any size at which an implementation might switch
/// strategy: equal, cut short, and edited at the ends, the middle and around
/// each power of two
fn big<T: Comparable>(ctx: &Ctx, n: usize) {
    let places = places(n);
    let mut items = vec![];
    if T::STACK {
        let l: Vec<B> = (0..n as i64).map(|i| b(b'p', 0, i)).collect();
        items.push((l.clone(), l.clone(), false));
        items.push((l.clone(), vec![], true));
        for &i in &places {
            // a clone with the i topmost elements replaced, changed, or gone
            let pop: Vec<B> = (0..i).map(|_| b(b'o', 0, 0)).collect();
            items.push((l.clone(), pop.clone(), true));
            let mut back = pop.clone();
            back.extend((n - i..n).map(|j| b(b'p', 0, j as i64)));
            items.push((l.clone(), back, true));
            let mut one = pop;
            one.push(b(b't', 0, 7));
            one.extend((n - i..n).map(|j| b(b'p', 0, j as i64)));
            items.push((l.clone(), one, true));
            items.push((l.clone(), l[..i].to_vec(), false));
        }
    } else {
        let hist = |p: &str| {
            let st = seed(p, n);
            let keys: Vec<i64> = (0..st.keys.len() as i64).map(|i| i * SP).collect();
            (to_b(&remap(&st, &keys, 0)), keys)
        };
        let (l, lk) = hist(PATTERNS[0]);
        items.push((l.clone(), vec![], true));
        for p in PATTERNS {
            let (r, _) = hist(p);
            items.push((l.clone(), r.clone(), false));
            items.push((r, l.clone(), false));
        }
        for &i in &places {
            if i >= lk.len() {
                continue;
            }
            for e in [b(b's', lk[i], 1), b(b's', lk[i], 0), b(b'r', lk[i], 0), b(b'i', lk[i] + 1, 0)] {
                items.push((l.clone(), vec![e], true));
                let mut r = l.clone();
                r.push(e);
                items.push((l.clone(), r, false));
            }
            let cut: Vec<B> = lk[i..].iter().map(|k| b(b'r', *k, 0)).collect();
            items.push((l.clone(), cut, true));
        }
    }
    ctx.par_for(&items, |slot, (l, r, s)| case::<T>(slot, l, r, *s));
    ctx.note(format!(
        "big {}: {n} entries, equal, cut short and edited at {} places (both ends, the middle, around every power of two), rebuilt and cloned: {} pairs",
        T::NAME,
        places.len(),
        items.len()
    ));
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    let x = |q: usize, th: usize| if t { th } else { q };
    small::<MapC<Avl>, Avl>(ctx, x(5, 6), 2, x(4, 5));
    small::<MapC<Bt<1>>, Bt<1>>(ctx, x(5, 6), 2, x(4, 5));
    small::<MapC<Bt<2>>, Bt<2>>(ctx, x(6, 7), 2, x(5, 6));
    small::<MapC<AvlS>, Avl>(ctx, x(6, 7), 1, x(5, 7));
    small::<MapC<BtS<1>>, Bt<1>>(ctx, x(7, 8), 1, x(6, 8));
    small::<MapC<BtS<2>>, Bt<2>>(ctx, x(7, 9), 1, x(6, 8));
    floats::<MapC<lcc::AvlMap<i64, f64>>>(ctx, x(3, 4) as i64);
    floats::<MapC<lcc::btree::BTreeMap<i64, f64, 1>>>(ctx, x(3, 4) as i64);
    floats::<MapC<lcc::btree::BTreeMap<i64, f64, 2>>>(ctx, x(3, 4) as i64);
    stacks::<MapC<lcc::Stack<Key>>>(ctx, x(5, 6), 2);
    stacks::<MapC<lcc::Stack<Key>>>(ctx, x(3, 4), 3);
    stacks::<MapC<lcc::Stack<f64>>>(ctx, x(3, 4), 4);
    for n in if t { vec![40, 120] } else { vec![40] } {
        large::<MapC<Avl>>(ctx, n);
        large::<MapC<Bt<1>>>(ctx, n);
        large::<MapC<Bt<2>>>(ctx, n);
        large::<MapC<Bt<5>>>(ctx, 2 * n);
        large::<MapC<AvlS>>(ctx, n);
        large::<MapC<BtS<1>>>(ctx, n);
        large::<MapC<BtS<5>>>(ctx, 2 * n);
    }
    for n in if t { vec![150, 300, 1100, 2100, 4200] } else { vec![150, 300, 1100] } {
        big::<MapC<Avl>>(ctx, n);
        big::<MapC<Bt<1>>>(ctx, n);
        big::<MapC<Bt<2>>>(ctx, n);
        big::<MapC<Bt<5>>>(ctx, n);
        big::<MapC<Bt<16>>>(ctx, n);
        big::<MapC<AvlS>>(ctx, n);
        big::<MapC<BtS<1>>>(ctx, n);
        big::<MapC<BtS<5>>>(ctx, n);
        big::<MapC<BtS<16>>>(ctx, n);
        if n < 3000 {
            big::<MapC<lcc::Stack<Key>>>(ctx, n);
        }
    }
}

pub fn replay(case: &str) -> Result<(), String> {
    let _ = take_fault();
    let p: Vec<&str> = case.splitn(4, ' ').collect();
    ensure!(p.len() == 4 && p[0] == "eq", "bad case");
    let (l, r) = p[3].split_once('|').ok_or("bad case")?;
    let (l, r, s) = (parse_b(l)?, parse_b(r)?, p[2] == "1");
    let mut n = 0;
    match p[1] {
        "avl" => pair::<MapC<Avl>>(&l, &r, s, &mut n),
        "bt1" => pair::<MapC<Bt<1>>>(&l, &r, s, &mut n),
        "bt2" => pair::<MapC<Bt<2>>>(&l, &r, s, &mut n),
        "bt5" => pair::<MapC<Bt<5>>>(&l, &r, s, &mut n),
        "bt16" => pair::<MapC<Bt<16>>>(&l, &r, s, &mut n),
        "avlset" => pair::<MapC<AvlS>>(&l, &r, s, &mut n),
        "bts1" => pair::<MapC<BtS<1>>>(&l, &r, s, &mut n),
        "bts2" => pair::<MapC<BtS<2>>>(&l, &r, s, &mut n),
        "bts5" => pair::<MapC<BtS<5>>>(&l, &r, s, &mut n),
        "bts16" => pair::<MapC<BtS<16>>>(&l, &r, s, &mut n),
        "favl" => pair::<MapC<lcc::AvlMap<i64, f64>>>(&l, &r, s, &mut n),
        "fbt1" => pair::<MapC<lcc::btree::BTreeMap<i64, f64, 1>>>(&l, &r, s, &mut n),
        "fbt2" => pair::<MapC<lcc::btree::BTreeMap<i64, f64, 2>>>(&l, &r, s, &mut n),
        "stack" => pair::<MapC<lcc::Stack<Key>>>(&l, &r, s, &mut n),
        "fstack" => pair::<MapC<lcc::Stack<f64>>>(&l, &r, s, &mut n),
        _ => Err("bad case".into()),
    }
}
