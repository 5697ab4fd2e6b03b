//! A family of map handles driven in lock step with reference models.

use crate::elem::*;
use crate::subj::*;
use std::ops::Bound;

/// key, key tag, value
pub type Ent = (i64, u32, u32);

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Model(pub Vec<Ent>);

impl Model {
    pub fn find(&self, k: i64) -> Result<usize, usize> {
        self.0.binary_search_by(|e| e.0.cmp(&k))
    }
    pub fn get(&self, k: i64) -> Option<&Ent> {
        self.find(k).ok().map(|i| &self.0[i])
    }
    pub fn insert(&mut self, e: Ent) -> Option<Ent> {
        match self.find(e.0) {
            Ok(i) => Some(std::mem::replace(&mut self.0[i], e)),
            Err(i) => {
                self.0.insert(i, e);
                None
            }
        }
    }
    pub fn remove(&mut self, k: i64) -> Option<Ent> {
        self.find(k).ok().map(|i| self.0.remove(i))
    }
    pub fn keys(&self) -> Vec<i64> {
        self.0.iter().map(|e| e.0).collect()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

macro_rules! opk {
    ($($v:ident = $s:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        pub enum OpK { $($v),* }
        impl OpK {
            pub fn name(self) -> &'static str { match self { $(OpK::$v => $s),* } }
            pub fn parse(s: &str) -> Option<OpK> { match s { $($s => Some(OpK::$v),)* _ => None } }
        }
    };
}
opk! {
    Ins = "ins", Rem = "rem", RemK = "remk", GetMut = "getmut", GetMutK = "getmutk",
    IterMut = "itermut", IterMutEnds = "itermutends", MutInto = "mutinto", Clear = "clear",
    Clone = "clone", DropH = "drop", Extend = "extend", Rebuild = "rebuild",
    IntoPart = "intopart", IntoShare = "intoshare", IterMutShare = "itermutshare",
    PopF = "popf", PopL = "popl", SplitOff = "splitoff", Append = "append",
    Retain = "retain", RangeMut = "rangemut", ValuesMut = "valuesmut",
    Entry = "entry", FirstEntry = "firstentry", LastEntry = "lastentry",
    RemEntry = "rementry", BulkOp = "bulk", Join = "join", ForEachMut = "foreachmut",
    ExtendRefs = "extendrefs", CloneFrom = "clonefrom", Assign = "assign",
    IntoKeys = "intokeys", IntoValues = "intovalues", IntoVec = "intovec",
    Look = "look", Swap = "swap", New = "new", FromSeq = "fromseq", AppendSelfClone = "appendclone",
}

/// One operation. `h` is the handle, `a`, `b`, `c` arguments.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Op {
    pub k: OpK,
    pub h: u8,
    pub a: i64,
    pub b: i64,
    pub c: u8,
}

pub fn op(k: OpK, h: usize, a: i64, b: i64) -> Op {
    Op { k, h: h as u8, a, b, c: 0 }
}

pub fn write_ops(ops: &[Op], out: &mut String) {
    use std::fmt::Write;
    for (i, o) in ops.iter().enumerate() {
        if i > 0 {
            out.push(';');
        }
        let _ = write!(out, "{} {} {} {} {}", o.k.name(), o.h, o.a, o.b, o.c);
    }
}

pub fn parse_ops(s: &str) -> Result<Vec<Op>, String> {
    let mut v = vec![];
    for t in s.split(';') {
        let t = t.trim();
        if t.is_empty() {
            continue;
        }
        let p: Vec<&str> = t.split_whitespace().collect();
        if p.len() != 5 {
            return Err(format!("bad op {t}"));
        }
        v.push(Op {
            k: OpK::parse(p[0]).ok_or(format!("bad op {t}"))?,
            h: p[1].parse().map_err(|_| "bad handle")?,
            a: p[2].parse().map_err(|_| "bad arg")?,
            b: p[3].parse().map_err(|_| "bad arg")?,
            c: p[4].parse().map_err(|_| "bad arg")?,
        });
    }
    Ok(v)
}

/// decode a bound: 0 unbounded, 1 included, 2 excluded
pub fn bd(kind: u8, k: i64) -> Bound<KQ> {
    match kind {
        0 => Bound::Unbounded,
        1 => Bound::Included(KQ(k)),
        _ => Bound::Excluded(KQ(k)),
    }
}

pub fn in_range(k: i64, lo: (u8, i64), hi: (u8, i64)) -> bool {
    (match lo.0 {
        0 => true,
        1 => k >= lo.1,
        _ => k > lo.1,
    }) && (match hi.0 {
        0 => true,
        1 => k <= hi.1,
        _ => k < hi.1,
    })
}

/// Is the range well formed (start <= end, not (x, x))?
pub fn valid_range(lo: (u8, i64), hi: (u8, i64)) -> bool {
    if lo.0 == 0 || hi.0 == 0 {
        return true;
    }
    lo.1 < hi.1 || (lo.1 == hi.1 && !(lo.0 == 2 && hi.0 == 2))
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Obs {
    /// length, iteration, invariants
    Light,
    /// and every lookup
    Full,
}

pub struct Fam<M: MapSub> {
    pub hs: Vec<Option<(M, Model)>>,
    pub tag: u32,
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

pub fn ent(k: &Key, v: &Val) -> Ent {
    k.check();
    v.check();
    (k.q.0, k.tag, v.v)
}

impl<M: MapSub> Fam<M> {
    /// A family with one empty map.
    pub fn new() -> Self {
        Fam { hs: vec![Some((M::new_(), Model::default()))], tag: 0 }
    }

    pub fn tag(&mut self) -> u32 {
        self.tag += 1;
        self.tag
    }

    pub fn m(&self, h: usize) -> &M {
        &self.hs[h].as_ref().unwrap().0
    }
    pub fn model(&self, h: usize) -> &Model {
        &self.hs[h].as_ref().unwrap().1
    }
    pub fn live(&self) -> Vec<usize> {
        (0..self.hs.len()).filter(|i| self.hs[*i].is_some()).collect()
    }

    fn take(&mut self, h: usize) -> (M, Model) {
        self.hs[h].take().unwrap()
    }

    /// Apply `o` to the real map(s) and to the model(s), comparing results.
    pub fn apply(&mut self, o: &Op) -> Result<(), String> {
        self.apply_(o).map_err(|e| format!("{} on handle {}: {e}", o.k.name(), o.h))?;
        take_fault()
    }

    fn apply_(&mut self, o: &Op) -> Result<(), String> {
        let h = o.h as usize;
        let t = self.tag();
        let t2 = self.tag();
        let t3 = self.tag();
        match o.k {
            OpK::Look => {
                // every kind of lookup of key a
                let (m, md) = self.hs[h].as_ref().unwrap();
                let want = md.get(o.a).copied();
                let g = m.get_q(&KQ(o.a)).map(|v| v.v);
                ensure!(g == want.map(|e| e.2), "get({}) is {g:?}, expected {want:?}", o.a);
                let g = m.get_k(&Key::new(o.a, 0)).map(|v| v.v);
                ensure!(g == want.map(|e| e.2), "get({}) is {g:?}, expected {want:?}", o.a);
                if M::RICH {
                    ensure!(m.contains_q(&KQ(o.a)) == want.is_some(), "contains_key({})", o.a);
                    let kv = m.get_kv_q(&KQ(o.a)).map(|(k, v)| ent(k, v));
                    ensure!(kv == want, "get_key_value({}) is {kv:?}, expected {want:?}", o.a);
                    for (lo, hi) in [((1, o.a), (0, 0)), ((0, 0), (2, o.a)), ((1, o.a), (1, o.a))] {
                        let got: Vec<Ent> = m.range_((bd(lo.0, lo.1), bd(hi.0, hi.1))).map(|(k, v)| ent(k, v)).collect();
                        let want: Vec<Ent> = md.0.iter().copied().filter(|e| in_range(e.0, lo, hi)).collect();
                        ensure!(got == want, "range({lo:?}, {hi:?}) yields {got:?}, expected {want:?}");
                    }
                    if M::KIND == Kind::Avl && want.is_some() {
                        ensure!(m.index_q(&KQ(o.a)).v == want.unwrap().2, "index [{}]", o.a);
                    }
                }
                return Ok(());
            }
            OpK::Clone => {
                let (m, md) = self.hs[h].as_ref().unwrap();
                let c = (m.clone(), md.clone());
                self.hs.push(Some(c));
                return Ok(());
            }
            OpK::CloneFrom => {
                // h.clone_from(a)
                let (m2, md2) = self.take(o.a as usize);
                let (m, md) = self.hs[h].as_mut().unwrap();
                m.clone_from(&m2);
                *md = md2.clone();
                self.hs[o.a as usize] = Some((m2, md2));
                return Ok(());
            }
            OpK::Assign => {
                // h = a.clone()
                let c = self.hs[o.a as usize].as_ref().unwrap().0.clone();
                let md = self.model(o.a as usize).clone();
                self.hs[h] = Some((c, md));
                return Ok(());
            }
            OpK::Swap => {
                let (x, y) = (self.take(h), self.take(o.a as usize));
                self.hs[h] = Some(y);
                self.hs[o.a as usize] = Some(x);
                return Ok(());
            }
            OpK::New => {
                self.hs.push(Some((M::new_(), Model::default())));
                return Ok(());
            }
            OpK::FromSeq => {
                // keys are the base-8 digits of a (b of them), times 10;
                // c: 0 collect, 1 extend the handle, 2 from an array of 3
                let mut v = vec![];
                let mut md = if o.c == 1 { self.model(h).clone() } else { Model::default() };
                let mut x = o.a;
                for i in 0..o.b {
                    let (k, t) = ((x & 7) * 10, t * 64 + i as u32);
                    x >>= 3;
                    v.push((Key::new(k, t), Val::new(t)));
                    md.insert((k, t, t));
                }
                let m = match o.c {
                    0 => M::from_vec(v),
                    1 => {
                        let mut m = self.take(h).0;
                        m.extend_(v);
                        m
                    }
                    _ => M::from_arr3(v.try_into().map_err(|_| "bad array").unwrap()),
                };
                self.hs[h] = Some((m, md));
                return Ok(());
            }
            OpK::AppendSelfClone => {
                // append a clone of handle a (the handle itself stays)
                let mut c = self.m(o.a as usize).clone();
                let cmd = self.model(o.a as usize).clone();
                let (m, md) = self.hs[h].as_mut().unwrap();
                m.append_(&mut c);
                ensure!(c.is_empty_() && c.len_() == 0, "append leaves its argument with len {}", c.len_());
                ensure!(c.iter_().next().is_none(), "append leaves entries in its argument");
                for e in cmd.0 {
                    md.insert(e);
                }
                return Ok(());
            }
            OpK::DropH => {
                self.hs[h] = None;
                return Ok(());
            }
            OpK::Rebuild => {
                let (m, md) = self.take(h);
                let mut v: Vec<(Key, Val)> = vec![];
                let mut it = m.into_iter_();
                for i in 0..=md.len() {
                    ensure!(it.len() == md.len() - i, "into_iter len {} with {} left", it.len(), md.len() - i);
                    match it.next() {
                        Some(e) => v.push(e),
                        None => break,
                    }
                    ensure!(v.len() <= md.len(), "into_iter yields too much");
                }
                drop(it);
                let got: Vec<Ent> = v.iter().map(|(k, v)| ent(k, v)).collect();
                ensure!(got == md.0, "into_iter yields {got:?}, expected {:?}", md.0);
                // rebuild from descending order, with an early duplicate
                v.reverse();
                let m = M::from_vec(v);
                self.hs[h] = Some((m, md));
                return Ok(());
            }
            OpK::IntoPart => {
                let (m, md) = self.take(h);
                let mut it = m.into_iter_();
                let n = md.len();
                let (mut f, mut b) = (0, n);
                for _ in 0..o.a {
                    let e = it.next();
                    if f < b {
                        let e = e.ok_or("into_iter ended early")?;
                        ensure!(ent(&e.0, &e.1) == md.0[f], "into_iter front item {f} is {:?}", ent(&e.0, &e.1));
                        f += 1;
                    } else {
                        ensure!(e.is_none(), "into_iter yields past the end");
                    }
                    ensure!(it.len() == b - f, "into_iter len");
                }
                for _ in 0..o.b {
                    let e = it.next_back();
                    if f < b {
                        let e = e.ok_or("into_iter ended early from the back")?;
                        b -= 1;
                        ensure!(ent(&e.0, &e.1) == md.0[b], "into_iter back item {b} is {:?}", ent(&e.0, &e.1));
                    } else {
                        ensure!(e.is_none(), "into_iter yields past the end");
                    }
                    ensure!(it.len() == b - f, "into_iter len");
                }
                drop(it);
                self.hs[h] = Some((M::new_(), Model::default()));
                return Ok(());
            }
            OpK::IntoShare => {
                // consume handle h by iteration: `a` items from the front and
                // `b` from the back, then touch the other handles, then go on
                let (m, md) = self.take(h);
                let n = md.len();
                let (mut f, mut b) = (0, n);
                let mut it = m.into_iter_();
                for phase in 0..2 {
                    if phase == 1 {
                        self.disturb(o.c & 3, t)?;
                    }
                    // then the rest from both ends, or one more from each
                    let (x, y) = match (phase, o.c >> 2 & 3) {
                        (0, _) => (o.a as usize, o.b as usize),
                        (_, 0) => (n, 0),
                        (_, 1) => (0, n),
                        (_, 2) => (1, 1),
                        _ => (0, 0),
                    };
                    for _ in 0..x {
                        if f < b {
                            let e = it.next().ok_or("into_iter ended early")?;
                            ensure!(ent(&e.0, &e.1) == md.0[f], "into_iter front item {f} is {:?}", ent(&e.0, &e.1));
                            f += 1;
                        }
                    }
                    for _ in 0..y {
                        if f < b {
                            let e = it.next_back().ok_or("into_iter ended early")?;
                            b -= 1;
                            ensure!(ent(&e.0, &e.1) == md.0[b], "into_iter back item {b} is {:?}", ent(&e.0, &e.1));
                        }
                    }
                    ensure!(it.len() == b - f, "into_iter len {} expected {}", it.len(), b - f);
                }
                drop(it);
                self.hs[h] = Some((M::new_(), Model::default()));
                return Ok(());
            }
            OpK::IterMutShare => {
                // as above, with iter_mut, writing every item
                let (mut m, mut md) = self.take(h);
                let n = md.len();
                let (mut f, mut b) = (0, n);
                {
                    let mut it = m.iter_mut_();
                    for phase in 0..2 {
                        if phase == 1 {
                            self.disturb(o.c & 3, t2)?;
                        }
                        let (x, y) = match (phase, o.c >> 2 & 3) {
                            (0, _) => (o.a as usize, o.b as usize),
                            (_, 0) => (n, 0),
                            (_, 1) => (0, n),
                            (_, 2) => (1, 1),
                            _ => (0, 0),
                        };
                        for i in 0..x + y {
                            if f == b {
                                break;
                            }
                            let (e, at) = if i < x {
                                f += 1;
                                (it.next(), f - 1)
                            } else {
                                b -= 1;
                                (it.next_back(), b)
                            };
                            let (k, v) = e.ok_or("iter_mut ended early")?;
                            ensure!(ent(k, v) == md.0[at], "iter_mut item {at} is {:?}", ent(k, v));
                            let nt = t3 * 4096 + at as u32;
                            *v = Val::new(nt);
                            md.0[at].2 = nt;
                        }
                        ensure!(it.len() == b - f, "iter_mut len {} expected {}", it.len(), b - f);
                    }
                }
                self.hs[h] = Some((m, md));
                return Ok(());
            }
            OpK::IntoKeys => {
                let (m, md) = self.take(h);
                let got: Vec<(i64, u32)> = m
                    .into_keys_()
                    .map(|k| {
                        k.check();
                        (k.q.0, k.tag)
                    })
                    .collect();
                let want: Vec<(i64, u32)> = md.0.iter().map(|e| (e.0, e.1)).collect();
                ensure!(got == want, "into_keys yields {got:?}, expected {want:?}");
                self.hs[h] = Some((M::new_(), Model::default()));
                return Ok(());
            }
            OpK::IntoValues => {
                let (m, md) = self.take(h);
                let got: Vec<u32> = m
                    .into_values_()
                    .map(|v| {
                        v.check();
                        v.v
                    })
                    .collect();
                let want: Vec<u32> = md.0.iter().map(|e| e.2).collect();
                ensure!(got == want, "into_values yields {got:?}, expected {want:?}");
                self.hs[h] = Some((M::new_(), Model::default()));
                return Ok(());
            }
            OpK::IntoVec => {
                let (m, md) = self.take(h);
                let v = m.into_vec();
                let got: Vec<Ent> = v.iter().map(|(k, v)| ent(k, v)).collect();
                ensure!(got == md.0, "Vec::from yields {got:?}, expected {:?}", md.0);
                self.hs[h] = Some((M::new_(), Model::default()));
                return Ok(());
            }
            OpK::SplitOff => {
                let (m, md) = self.hs[h].as_mut().unwrap();
                let hi = m.split_off_q(&KQ(o.a));
                let at = md.0.partition_point(|e| e.0 < o.a);
                let hi_md = Model(md.0.split_off(at));
                self.hs.push(Some((hi, hi_md)));
                return Ok(());
            }
            OpK::Append => {
                let (mut m2, mut md2) = self.take(o.a as usize);
                let (m, md) = self.hs[h].as_mut().unwrap();
                m.append_(&mut m2);
                for e in md2.0.drain(..) {
                    md.insert(e);
                }
                self.hs[o.a as usize] = Some((m2, md2));
                return Ok(());
            }
            OpK::BulkOp => {
                // new handle = bulk(clone of h, clone of a); c: 0 both cloned,
                // 1 consume left, 2 consume right, 3 both
                let bop = [Bulk::Union, Bulk::Intersect, Bulk::Diff, Bulk::SymDiff][o.b as usize & 3];
                let other = o.a as usize;
                let lmd = self.model(h).clone();
                let rmd = self.model(other).clone();
                let l = if o.c & 1 != 0 { self.take(h).0 } else { self.m(h).clone() };
                let r = if o.c & 2 != 0 && other != h { self.take(other).0 } else if other == h && o.c & 1 != 0 { l.clone() } else { self.m(other).clone() };
                let res = M::bulk(bop, l, r);
                let mut out = Model::default();
                for e in &lmd.0 {
                    let inr = rmd.get(e.0);
                    match bop {
                        Bulk::Union => {
                            out.insert(*inr.unwrap_or(e));
                        }
                        Bulk::Intersect => {
                            if inr.is_some() {
                                out.insert(*e);
                            }
                        }
                        Bulk::Diff | Bulk::SymDiff => {
                            if inr.is_none() {
                                out.insert(*e);
                            }
                        }
                    }
                }
                if matches!(bop, Bulk::Union | Bulk::SymDiff) {
                    for e in &rmd.0 {
                        if lmd.get(e.0).is_none() {
                            out.insert(*e);
                        }
                    }
                }
                self.hs.push(Some((res, out)));
                return Ok(());
            }
            OpK::Join => {
                // join(part of h below a, a, part of `b` handle above a)
                let (l, mut lmd) = self.take(h);
                let (r, rmd) = self.take(o.b as usize);
                let res = M::join_(l, Key::new(o.a, t), Val::new(t2), r);
                lmd.0.push((o.a, t, t2));
                lmd.0.extend(rmd.0);
                self.hs.push(Some((res, lmd)));
                return Ok(());
            }
            OpK::ExtendRefs => {
                let (m2, md2) = self.take(o.a as usize);
                let (m, md) = self.hs[h].as_mut().unwrap();
                m.extend_refs(&m2);
                for e in &md2.0 {
                    md.insert(*e);
                }
                self.hs[o.a as usize] = Some((m2, md2));
                return Ok(());
            }
            _ => (),
        }
        let (m, md) = self.hs[h].as_mut().ok_or("no such handle")?;
        match o.k {
            OpK::Ins => {
                let old = m.insert_(Key::new(o.a, t), Val::new(t2));
                let want = md.insert((o.a, t, t2));
                if let Some(v) = &old {
                    v.check();
                }
                ensure!(
                    old.as_ref().map(|v| v.v) == want.map(|e| e.2),
                    "insert {} returned {:?}, expected {:?}",
                    o.a,
                    old.as_ref().map(|v| v.v),
                    want.map(|e| e.2)
                );
            }
            OpK::Rem | OpK::RemK => {
                let old = if o.k == OpK::Rem { m.remove_q(&KQ(o.a)) } else { m.remove_k(&Key::new(o.a, 0)) };
                let want = md.remove(o.a);
                if let Some(v) = &old {
                    v.check();
                }
                ensure!(
                    old.as_ref().map(|v| v.v) == want.map(|e| e.2),
                    "remove {} returned {:?}, expected {:?}",
                    o.a,
                    old.as_ref().map(|v| v.v),
                    want.map(|e| e.2)
                );
            }
            OpK::RemEntry => {
                let old = m.remove_entry_q(&KQ(o.a)).map(|(k, v)| ent(&k, &v));
                let want = md.remove(o.a);
                ensure!(old == want, "remove_entry {} returned {old:?}, expected {want:?}", o.a);
            }
            OpK::GetMut | OpK::GetMutK => {
                let r = if o.k == OpK::GetMut { m.get_mut_q(&KQ(o.a)) } else { m.get_mut_k(&Key::new(o.a, 0)) };
                let w = md.find(o.a).ok();
                match (r, w) {
                    (Some(v), Some(i)) => {
                        v.check();
                        ensure!(v.v == md.0[i].2, "get_mut {} is {}, expected {}", o.a, v.v, md.0[i].2);
                        *v = Val::new(t);
                        md.0[i].2 = t;
                    }
                    (None, None) => (),
                    (r, w) => return Err(format!("get_mut {}: {:?} vs {:?}", o.a, r.is_some(), w.is_some())),
                }
            }
            OpK::IterMut | OpK::MutInto => {
                let mut i = 0;
                let it = if o.k == OpK::IterMut { m.iter_mut_() } else { m.mut_into_iter() };
                ensure!(it.len() == md.len(), "iter_mut len {} expected {}", it.len(), md.len());
                for (k, v) in it {
                    ensure!(i < md.len(), "iter_mut yields too much");
                    ensure!(ent(k, v) == md.0[i], "iter_mut item {i} is {:?}, expected {:?}", ent(k, v), md.0[i]);
                    let nt = t * 4096 + i as u32;
                    *v = Val::new(nt);
                    md.0[i].2 = nt;
                    i += 1;
                }
                ensure!(i == md.len(), "iter_mut yields {i} items, expected {}", md.len());
                self.tag = t2;
            }
            OpK::IterMutEnds => {
                let n = md.len();
                let (mut f, mut b) = (0, n);
                let mut it = m.iter_mut_();
                for _ in 0..o.a {
                    if f < b {
                        let (k, v) = it.next().ok_or("iter_mut ended early")?;
                        ensure!(ent(k, v) == md.0[f], "iter_mut front item {f} is {:?}", ent(k, v));
                        let nt = t * 4096 + f as u32;
                        *v = Val::new(nt);
                        md.0[f].2 = nt;
                        f += 1;
                    }
                }
                for _ in 0..o.b {
                    if f < b {
                        let (k, v) = it.next_back().ok_or("iter_mut ended early")?;
                        b -= 1;
                        ensure!(ent(k, v) == md.0[b], "iter_mut back item {b} is {:?}", ent(k, v));
                        let nt = t * 4096 + b as u32;
                        *v = Val::new(nt);
                        md.0[b].2 = nt;
                    }
                }
                ensure!(it.len() == b - f, "iter_mut len {} expected {}", it.len(), b - f);
            }
            OpK::ValuesMut => {
                let mut i = 0;
                for v in m.values_mut_() {
                    ensure!(i < md.len(), "values_mut yields too much");
                    v.check();
                    ensure!(v.v == md.0[i].2, "values_mut item {i}");
                    let nt = t * 4096 + i as u32;
                    *v = Val::new(nt);
                    md.0[i].2 = nt;
                    i += 1;
                }
                ensure!(i == md.len(), "values_mut yields {i} items, expected {}", md.len());
            }
            OpK::ForEachMut => {
                let mut seen = vec![];
                let mut i = 0;
                m.for_each_mut_(&mut |(k, v)| {
                    closure_event();
                    seen.push(ent(k, v));
                    *v = Val::new(t * 4096 + i);
                    i += 1;
                });
                ensure!(seen == md.0, "for_each_mut visits {seen:?}, expected {:?}", md.0);
                for (i, e) in md.0.iter_mut().enumerate() {
                    e.2 = t * 4096 + i as u32;
                }
            }
            OpK::Clear => {
                m.clear_();
                md.0.clear();
            }
            OpK::Extend => {
                // keys b, a, b again (last wins)
                let v = vec![
                    (Key::new(o.b, t), Val::new(t)),
                    (Key::new(o.a, t2), Val::new(t2)),
                    (Key::new(o.b, t3), Val::new(t3)),
                ];
                m.extend_(v);
                md.insert((o.b, t, t));
                md.insert((o.a, t2, t2));
                md.insert((o.b, t3, t3));
            }
            OpK::PopF | OpK::PopL => {
                let got = if o.k == OpK::PopF { m.pop_first_() } else { m.pop_last_() };
                let got = got.map(|(k, v)| ent(&k, &v));
                let want = if md.0.is_empty() {
                    None
                } else if o.k == OpK::PopF {
                    Some(md.0.remove(0))
                } else {
                    md.0.pop()
                };
                ensure!(got == want, "returned {got:?}, expected {want:?}");
            }
            OpK::Retain => {
                // keep rank i iff bit (i % 62) of a; also replace values of
                // visited elements with even rank
                let n = md.len();
                let mut visited = vec![];
                let model = md.clone();
                m.retain_(&mut |k, v| {
                    closure_event();
                    let e = ent(k, v);
                    visited.push(e);
                    let i = model.find(e.0).unwrap_or(0);
                    if i % 2 == 0 {
                        *v = Val::new(t * 4096 + i as u32);
                    }
                    o.a >> (i % 62) & 1 == 1
                });
                ensure!(
                    visited == model.0,
                    "retain visits {visited:?}, expected each entry once in ascending order {:?}",
                    model.0
                );
                let mut out = vec![];
                for i in 0..n {
                    if o.a >> (i % 62) & 1 == 1 {
                        let mut e = md.0[i];
                        if i % 2 == 0 {
                            e.2 = t * 4096 + i as u32;
                        }
                        out.push(e);
                    }
                }
                md.0 = out;
            }
            OpK::RangeMut => {
                let lo = (o.c / 3, o.a);
                let hi = (o.c % 3, o.b);
                let mut seen = vec![];
                {
                    let it = m.range_mut_((bd(lo.0, lo.1), bd(hi.0, hi.1)));
                    for (k, v) in it {
                        let e = ent(k, v);
                        seen.push(e);
                        ensure!(seen.len() <= md.len(), "range_mut yields too much");
                        *v = Val::new(t * 4096 + seen.len() as u32);
                    }
                }
                let want: Vec<Ent> = md.0.iter().copied().filter(|e| in_range(e.0, lo, hi)).collect();
                ensure!(seen == want, "range_mut yields {seen:?}, expected {want:?}");
                let mut n = 0;
                for e in md.0.iter_mut() {
                    if in_range(e.0, lo, hi) {
                        n += 1;
                        e.2 = t * 4096 + n;
                    }
                }
            }
            OpK::Entry => {
                let eop = ENTRY_OPS[o.b as usize % ENTRY_OPS.len()];
                let seen = m.entry_op(Key::new(o.a, t), eop, t2);
                model_entry(md, o.a, t, eop, t2, &seen)?;
            }
            OpK::FirstEntry | OpK::LastEntry => {
                let eop = ENTRY_OPS[o.b as usize % ENTRY_OPS.len()];
                let seen = m.end_entry_op(o.k == OpK::LastEntry, eop, t2);
                let at = if o.k == OpK::LastEntry { md.0.last() } else { md.0.first() };
                match (seen, at.copied()) {
                    (None, None) => (),
                    (Some(s), Some(e)) => model_entry(md, e.0, e.1, eop, t2, &s)?,
                    (s, e) => return Err(format!("entry present: {} expected {}", s.is_some(), e.is_some())),
                }
            }
            _ => return Err(format!("unhandled op {:?}", o.k)),
        }
        Ok(())
    }

    /// Something done to every handle that is not in use: 0 drop it, 1 replace
    /// every value, 2 clone it, 3 consume it by iteration.
    fn disturb(&mut self, how: u8, t: u32) -> Result<(), String> {
        for h in self.live() {
            match how {
                0 => self.hs[h] = None,
                1 => {
                    let (m, md) = self.hs[h].as_mut().unwrap();
                    for (i, (_, v)) in m.iter_mut_().enumerate() {
                        v.check();
                        *v = Val::new(t * 4096 + i as u32);
                        md.0[i].2 = t * 4096 + i as u32;
                    }
                }
                2 => {
                    let (m, md) = self.hs[h].as_ref().unwrap();
                    let c = (m.clone(), md.clone());
                    self.hs.push(Some(c));
                }
                _ => {
                    let (m, md) = self.take(h);
                    let got: Vec<Ent> = m.into_iter_().map(|(k, v)| ent(&k, &v)).collect();
                    ensure!(got == md.0, "into_iter of handle {h} yields {got:?}, expected {:?}", md.0);
                }
            }
        }
        Ok(())
    }

    /// Compare handle `h` with its model.
    pub fn observe_one(&self, h: usize, obs: Obs) -> Result<(), String> {
        let (m, md) = match &self.hs[h] {
            None => return Ok(()),
            Some(x) => x,
        };
        observe(m, md, obs).map_err(|e| format!("handle {h}: {e}"))
    }

    pub fn observe(&self, obs: Obs) -> Result<(), String> {
        for h in 0..self.hs.len() {
            self.observe_one(h, obs)?;
        }
        take_fault()
    }

    /// Hook-free canonical state: for every handle and entry, which keys a
    /// lookup compares with (which fixes the shape of the tree), and which
    /// entries live in the same memory as entries of other handles.
    pub fn fingerprint(&self) -> Vec<u16> {
        let mut all: Vec<i64> = vec![];
        for (_, md) in self.hs.iter().flatten() {
            all.extend(md.0.iter().map(|e| e.0));
        }
        all.sort_unstable();
        all.dedup();
        let rank = |k: i64| all.partition_point(|x| *x < k) as u16;
        let mut out = Vec::with_capacity(64);
        let mut addrs: Vec<usize> = vec![];
        let multi = self.hs.iter().flatten().count() > 1;
        for x in self.hs.iter() {
            let (m, md) = match x {
                None => continue,
                Some(x) => x,
            };
            out.push(60001);
            out.push(md.len() as u16);
            let mut prev: Option<usize> = None;
            for e in &md.0 {
                out.push(60002);
                out.push(rank(e.0));
                reg().cmp_log = Some(Vec::with_capacity(32));
                reg().cmp_target = e.0;
                let v = m.get_q(&KQ(e.0));
                let log = reg().cmp_log.take().unwrap();
                for k in &log {
                    out.push(rank(*k));
                }
                match v {
                    None => out.push(60003),
                    Some(v) => {
                        let a = v as *const Val as usize;
                        // same node as the previous entry?
                        if M::KIND != Kind::Avl {
                            let stride = if M::KIND == Kind::BTree {
                                std::mem::size_of::<(Key, Val)>()
                            } else {
                                std::mem::size_of::<Val>()
                            };
                            out.push(if prev == Some(a.wrapping_sub(stride)) { 60004 } else { 60005 });
                            prev = Some(a);
                        }
                        if multi {
                            let id = match addrs.iter().position(|x| *x == a) {
                                Some(i) => i,
                                None => {
                                    addrs.push(a);
                                    addrs.len() - 1
                                }
                            };
                            out.push(id as u16);
                        }
                    }
                }
            }
        }
        out
    }
}

pub fn model_entry(
    md: &mut Model,
    key: i64,
    ktag: u32,
    eop: EntryOp,
    new: u32,
    seen: &EntrySeen,
) -> Result<(), String> {
    let had = md.get(key).copied();
    let mut want = EntrySeen::default();
    let mk = |md: &mut Model, v: u32| {
        md.insert((key, ktag, v));
    };
    let keyed = (key, ktag);
    // the value put where there was none, and the number of defaults made
    let (fresh, made) = match eop {
        EntryOp::OrInsert | EntryOp::OrInsertW | EntryOp::AndModifyOrInsert | EntryOp::KeyOrInsert => (Some(new), 0),
        EntryOp::OrInsertWith
        | EntryOp::OrInsertWithW
        | EntryOp::OrInsertWithKey
        | EntryOp::OrInsertWithKeyW
        | EntryOp::ModifyTwiceOrInsertWith
        | EntryOp::ModifyOrInsertWithKey => (Some(new), 1),
        EntryOp::OrDefault | EntryOp::OrDefaultW | EntryOp::ModifyOrDefault => (Some(DEFAULT_VAL), 1),
        EntryOp::AndModify | EntryOp::Key => (None, 0),
    };
    let modifies = match eop {
        EntryOp::AndModify | EntryOp::AndModifyOrInsert | EntryOp::ModifyOrDefault | EntryOp::ModifyOrInsertWithKey => 1,
        EntryOp::ModifyTwiceOrInsertWith => 2,
        _ => 0,
    };
    if let Some(e) = had {
        want.modified = modifies;
        if modifies > 0 {
            md.insert((e.0, e.1, new));
        }
    } else if let Some(f) = fresh {
        want.made = made;
        mk(md, f);
        if matches!(eop, EntryOp::OrInsertWithKey | EntryOp::OrInsertWithKeyW | EntryOp::ModifyOrInsertWithKey) {
            want.key = Some(keyed);
        }
    }
    if matches!(eop, EntryOp::Key | EntryOp::KeyOrInsert) {
        // for a present key, either the key given or the key stored
        want.key = Some(keyed);
        if let (Some(e), Some(k)) = (had, seen.key) {
            if k == (e.0, e.1) {
                want.key = Some(k);
            }
        }
    }
    if fresh.is_some() {
        want.slot = md.get(key).map(|e| e.2);
        if matches!(
            eop,
            EntryOp::OrInsertW | EntryOp::OrInsertWithW | EntryOp::OrInsertWithKeyW | EntryOp::OrDefaultW
        ) {
            let e = *md.get(key).unwrap();
            md.insert((e.0, e.1, new | WRITTEN));
        }
    }
    ensure!(*seen == want, "entry({key}).{eop:?}: observed {seen:?}, expected {want:?}");
    Ok(())
}

pub fn observe<M: MapSub>(m: &M, md: &Model, obs: Obs) -> Result<(), String> {
    ensure!(m.len_() == md.len(), "len() is {}, expected {}", m.len_(), md.len());
    ensure!(m.is_empty_() == md.0.is_empty(), "is_empty() is {}", m.is_empty_());
    let mut i = 0;
    {
        let it = m.iter_();
        ensure!(it.len() == md.len(), "iter().len() is {}, expected {}", it.len(), md.len());
        for (k, v) in it {
            let e = ent(k, v);
            ensure!(i < md.len(), "iter() yields more than {} items, next {e:?}", md.len());
            ensure!(e == md.0[i], "iter() item {i} is {e:?}, expected {:?}", md.0[i]);
            i += 1;
        }
    }
    ensure!(i == md.len(), "iter() yields {i} items, expected {}", md.len());
    m.check_().map_err(|e| format!("structural check failed: {e}"))?;
    if obs == Obs::Full {
        for (i, e) in md.0.iter().enumerate() {
            match m.get_q(&KQ(e.0)) {
                None => return Err(format!("get({}) is None", e.0)),
                Some(v) => {
                    v.check();
                    ensure!(v.v == e.2, "get({}) is {}, expected {}", e.0, v.v, e.2);
                }
            }
            // a gap key just below (and above the last)
            let miss = e.0 - 1;
            if i == 0 || md.0[i - 1].0 != miss {
                ensure!(m.get_q(&KQ(miss)).is_none(), "get({miss}) finds an absent key");
                if M::RICH {
                    ensure!(!m.contains_q(&KQ(miss)), "contains_key({miss}) finds an absent key");
                    ensure!(m.get_kv_q(&KQ(miss)).is_none(), "get_key_value({miss}) finds an absent key");
                }
            }
            if M::RICH {
                ensure!(m.contains_q(&KQ(e.0)), "contains_key({}) is false", e.0);
                let kv = m.get_kv_q(&KQ(e.0)).map(|(k, v)| ent(k, v));
                ensure!(kv == Some(*e), "get_key_value({}) is {kv:?}, expected {e:?}", e.0);
            }
        }
        let above = md.0.last().map_or(7, |e| e.0 + 1);
        ensure!(m.get_q(&KQ(above)).is_none(), "get({above}) finds an absent key");
        if M::RICH {
            ensure!(!m.contains_q(&KQ(above)), "contains_key({above}) finds an absent key");
            let f = m.first_kv().map(|(k, v)| ent(k, v));
            ensure!(f == md.0.first().copied(), "first_key_value() is {f:?}");
            let l = m.last_kv().map(|(k, v)| ent(k, v));
            ensure!(l == md.0.last().copied(), "last_key_value() is {l:?}");
        }
        if M::KIND == Kind::Avl {
            let mut seen = vec![];
            m.for_each_(&mut |(k, v)| seen.push(ent(k, v)));
            ensure!(seen == md.0, "for_each visits {seen:?}, expected {:?}", md.0);
            for e in &md.0 {
                ensure!(m.index_q(&KQ(e.0)).v == e.2, "index [{}]", e.0);
            }
        }
    }
    take_fault()
}

/// A complete execution: drive `ops` from one empty map, observing after each
/// of the last `obs_last` operations; then drop everything and check that
/// nothing is left.
pub fn run_history<M: MapSub>(ops: &[Op], obs_from: usize, obs: Obs, steps: &mut u64) -> Result<Fam<M>, String> {
    reg().reset();
    let mut f = Fam::<M>::new();
    for (i, o) in ops.iter().enumerate() {
        f.apply(o)?;
        if i >= obs_from {
            *steps += 1;
            f.observe(obs)?;
        }
    }
    Ok(f)
}

pub fn finish<M: MapSub>(f: Fam<M>) -> Result<(), String> {
    drop(f);
    take_fault()?;
    let l = reg().live;
    ensure!(l == 0, "{l} elements were never dropped");
    Ok(())
}
