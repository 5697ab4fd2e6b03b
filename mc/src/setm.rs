//! A family of set handles driven in lock step with reference models.

use crate::elem::*;
use crate::engine::*;
use crate::ensure;
use crate::machine::*;
use crate::shapes::*;
use crate::subj::*;
use std::collections::HashSet;

/// element, tag
pub type El = (i64, u32);

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct SModel(pub Vec<El>);

impl SModel {
    pub fn find(&self, k: i64) -> Result<usize, usize> {
        self.0.binary_search_by(|e| e.0.cmp(&k))
    }
    pub fn has(&self, k: i64) -> bool {
        self.find(k).is_ok()
    }
    pub fn insert(&mut self, e: El) -> Option<El> {
        match self.find(e.0) {
            Ok(i) => Some(std::mem::replace(&mut self.0[i], e)),
            Err(i) => {
                self.0.insert(i, e);
                None
            }
        }
    }
    pub fn remove(&mut self, k: i64) -> Option<El> {
        self.find(k).ok().map(|i| self.0.remove(i))
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn keys(&self) -> Vec<i64> {
        self.0.iter().map(|e| e.0).collect()
    }
}

pub fn el(k: &Key) -> El {
    k.check();
    (k.q.0, k.tag)
}

macro_rules! sopk {
    ($($v:ident = $s:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        pub enum SK { $($v),* }
        impl SK {
            pub fn name(self) -> &'static str { match self { $(SK::$v => $s),* } }
            pub fn parse(s: &str) -> Option<SK> { match s { $($s => Some(SK::$v),)* _ => None } }
        }
    };
}
sopk! {
    Ins = "ins", Replace = "replace", Take = "take", TakeK = "takek", Rem = "rem", RemK = "remk",
    PopF = "popf", PopL = "popl", Append = "append", AppendClone = "appendclone",
    SplitOff = "splitoff", Retain = "retain", Extend = "extend", ExtendRefs = "extendrefs",
    Clear = "clear", Clone = "clone", CloneFrom = "clonefrom", Assign = "assign",
    DropH = "drop", Look = "look", Swap = "swap", New = "new", Default = "default", FromSeq = "fromseq",
    Rebuild = "rebuild", IntoPart = "intopart", OpNew = "opnew", OpRef = "opref",
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct SOp {
    pub k: SK,
    pub h: u8,
    pub a: i64,
    pub b: i64,
    pub c: u8,
}
pub fn sop(k: SK, h: usize, a: i64, b: i64) -> SOp {
    SOp { k, h: h as u8, a, b, c: 0 }
}
pub fn write_sops(ops: &[SOp], out: &mut String) {
    use std::fmt::Write;
    for (i, o) in ops.iter().enumerate() {
        if i > 0 {
            out.push(';');
        }
        let _ = write!(out, "{} {} {} {} {}", o.k.name(), o.h, o.a, o.b, o.c);
    }
}
pub fn parse_sops(s: &str) -> Result<Vec<SOp>, String> {
    let mut v = vec![];
    for t in s.split(';') {
        let t = t.trim();
        if t.is_empty() {
            continue;
        }
        let p: Vec<&str> = t.split_whitespace().collect();
        if p.len() != 5 {
            return Err(format!("bad op {t}"));
        }
        v.push(SOp {
            k: SK::parse(p[0]).ok_or(format!("bad op {t}"))?,
            h: p[1].parse().map_err(|_| "bad handle")?,
            a: p[2].parse().map_err(|_| "bad arg")?,
            b: p[3].parse().map_err(|_| "bad arg")?,
            c: p[4].parse().map_err(|_| "bad arg")?,
        });
    }
    Ok(v)
}

/// Rename a map history (inserts and removes) into a set history.
pub fn to_sops(ops: &[Op]) -> Vec<SOp> {
    ops.iter()
        .map(|o| {
            let k = match o.k {
                OpK::Ins => SK::Ins,
                OpK::Rem => SK::Rem,
                _ => panic!("not a set operation"),
            };
            sop(k, o.h as usize, o.a, 0)
        })
        .collect()
}

/// The expected result of a set operation; None where either instance may be kept.
pub fn set_op(op: SetOp, l: &SModel, r: &SModel) -> SModel {
    let mut out = SModel::default();
    for e in &l.0 {
        let i = r.find(e.0);
        match op {
            SetOp::Union => {
                out.0.push(i.map_or(*e, |i| r.0[i]));
            }
            SetOp::Intersection => {
                if i.is_ok() {
                    out.0.push(*e);
                }
            }
            SetOp::Difference | SetOp::SymDiff => {
                if i.is_err() {
                    out.0.push(*e);
                }
            }
        }
    }
    if matches!(op, SetOp::Union | SetOp::SymDiff) {
        for e in &r.0 {
            if !l.has(e.0) {
                out.insert(*e);
            }
        }
    }
    out
}

pub struct SFam<S: SetSub> {
    pub hs: Vec<Option<(S, SModel)>>,
    pub tag: u32,
}

impl<S: SetSub> SFam<S> {
    pub fn new() -> Self {
        SFam { hs: vec![Some((S::new_(), SModel::default()))], tag: 0 }
    }
    pub fn tag(&mut self) -> u32 {
        self.tag += 1;
        self.tag
    }
    pub fn s(&self, h: usize) -> &S {
        &self.hs[h].as_ref().unwrap().0
    }
    pub fn model(&self, h: usize) -> &SModel {
        &self.hs[h].as_ref().unwrap().1
    }
    pub fn live(&self) -> Vec<usize> {
        (0..self.hs.len()).filter(|i| self.hs[*i].is_some()).collect()
    }
    fn take(&mut self, h: usize) -> (S, SModel) {
        self.hs[h].take().unwrap()
    }

    pub fn apply(&mut self, o: &SOp) -> Result<(), String> {
        self.apply_(o).map_err(|e| format!("{} on handle {}: {e}", o.k.name(), o.h))?;
        take_fault()
    }

    fn apply_(&mut self, o: &SOp) -> Result<(), String> {
        let h = o.h as usize;
        let oh = o.a as usize;
        let t = self.tag();
        let t2 = self.tag();
        let t3 = self.tag();
        match o.k {
            SK::Look => {
                // every kind of lookup of a, and comparisons with set b
                let (s, md) = self.hs[h].as_ref().unwrap();
                let want = md.find(o.a).ok().map(|i| md.0[i]);
                ensure!(s.contains_q(&KQ(o.a)) == want.is_some(), "contains({})", o.a);
                let g = s.get_q(&KQ(o.a)).map(el);
                ensure!(g == want, "get({}) is {g:?}, expected {want:?}", o.a);
                let g = s.get_k(&Key::new(o.a, 0)).map(el);
                ensure!(g == want, "get({}) is {g:?}, expected {want:?}", o.a);
                for (lo, hi) in [((1, o.a), (0, 0)), ((0, 0), (2, o.a)), ((1, o.a), (1, o.a))] {
                    let got: Vec<El> = s.range_((bd(lo.0, lo.1), bd(hi.0, hi.1))).map(el).collect();
                    let want: Vec<El> = md.0.iter().copied().filter(|e| in_range(e.0, lo, hi)).collect();
                    ensure!(got == want, "range({lo:?}, {hi:?}) yields {got:?}, expected {want:?}");
                }
                if let Some(Some((s2, md2))) = self.hs.get(o.b as usize) {
                    for op in SET_OPS {
                        let got: Vec<i64> = S::op_iter(op, s, s2).map(|k| el(k).0).collect();
                        let want = set_op(op, md, md2).keys();
                        ensure!(got == want, "{op:?} yields {got:?}, expected {want:?}");
                    }
                    let sub = md.0.iter().all(|e| md2.has(e.0));
                    ensure!(s.is_subset_(s2) == sub, "is_subset is not {sub}");
                    let sup = md2.0.iter().all(|e| md.has(e.0));
                    ensure!(s.is_superset_(s2) == sup, "is_superset is not {sup}");
                    let dis = md.0.iter().all(|e| !md2.has(e.0));
                    ensure!(s.is_disjoint_(s2) == dis, "is_disjoint is not {dis}");
                }
                return Ok(());
            }
            SK::Clone => {
                let c = (self.s(h).clone(), self.model(h).clone());
                self.hs.push(Some(c));
                return Ok(());
            }
            SK::CloneFrom => {
                let (s2, md2) = self.take(oh);
                let (s, md) = self.hs[h].as_mut().unwrap();
                s.clone_from(&s2);
                *md = md2.clone();
                self.hs[oh] = Some((s2, md2));
                return Ok(());
            }
            SK::Assign => {
                let c = (self.s(oh).clone(), self.model(oh).clone());
                self.hs[h] = Some(c);
                return Ok(());
            }
            SK::Swap => {
                let (x, y) = (self.take(h), self.take(oh));
                self.hs[h] = Some(y);
                self.hs[oh] = Some(x);
                return Ok(());
            }
            SK::New => {
                self.hs.push(Some((S::new_(), SModel::default())));
                return Ok(());
            }
            SK::Default => {
                self.hs.push(Some((S::default(), SModel::default())));
                return Ok(());
            }
            SK::DropH => {
                self.hs[h] = None;
                return Ok(());
            }
            SK::FromSeq => {
                let mut v = vec![];
                let mut md = if o.c == 1 { self.model(h).clone() } else { SModel::default() };
                let mut x = o.a;
                for i in 0..o.b {
                    let (k, t) = ((x & 7) * 10, t * 64 + i as u32);
                    x >>= 3;
                    v.push(Key::new(k, t));
                    md.insert((k, t));
                }
                let s = match o.c {
                    0 => S::from_vec(v),
                    1 => {
                        let mut s = self.take(h).0;
                        s.extend_(v);
                        s
                    }
                    3 => {
                        let mut s = S::default();
                        s.extend_refs(&v);
                        s
                    }
                    _ => S::from_arr3(v.try_into().map_err(|_| "bad array").unwrap()),
                };
                self.hs[h] = Some((s, md));
                return Ok(());
            }
            SK::Rebuild => {
                let (s, md) = self.take(h);
                let mut it = s.into_iter_();
                let mut v = vec![];
                for i in 0..=md.len() {
                    ensure!(it.len() == md.len() - i, "into_iter len {} with {} left", it.len(), md.len() - i);
                    match it.next() {
                        Some(e) => v.push(e),
                        None => break,
                    }
                    ensure!(v.len() <= md.len(), "into_iter yields too much");
                }
                drop(it);
                let got: Vec<El> = v.iter().map(el).collect();
                ensure!(got == md.0, "into_iter yields {got:?}, expected {:?}", md.0);
                v.reverse();
                self.hs[h] = Some((S::from_vec(v), md));
                return Ok(());
            }
            SK::IntoPart => {
                let (s, md) = self.take(h);
                let n = md.len();
                let (mut f, mut b) = (0, n);
                if S::AVL {
                    let mut it = s.into_iter_();
                    for _ in 0..o.a {
                        match it.next() {
                            Some(k) => {
                                ensure!(f < b && el(&k) == md.0[f], "into_iter item {f}");
                                f += 1;
                            }
                            None => ensure!(f == b, "into_iter ended early"),
                        }
                    }
                } else {
                    let mut it = s.into_iter_de().unwrap();
                    for _ in 0..o.a {
                        match it.next() {
                            Some(k) => {
                                ensure!(f < b && el(&k) == md.0[f], "into_iter item {f}");
                                f += 1;
                            }
                            None => ensure!(f == b, "into_iter ended early"),
                        }
                    }
                    for _ in 0..o.b {
                        match it.next_back() {
                            Some(k) => {
                                ensure!(f < b && el(&k) == md.0[b - 1], "into_iter back item {b}");
                                b -= 1;
                            }
                            None => ensure!(f == b, "into_iter ended early"),
                        }
                    }
                }
                self.hs[h] = Some((S::new_(), SModel::default()));
                return Ok(());
            }
            SK::SplitOff => {
                let (s, md) = self.hs[h].as_mut().unwrap();
                let hi = s.split_off_q(&KQ(o.a));
                let at = md.0.partition_point(|e| e.0 < o.a);
                let hi_md = SModel(md.0.split_off(at));
                self.hs.push(Some((hi, hi_md)));
                return Ok(());
            }
            SK::Append => {
                let (mut s2, mut md2) = self.take(oh);
                let (s, md) = self.hs[h].as_mut().unwrap();
                s.append_(&mut s2);
                for e in md2.0.drain(..) {
                    md.insert(e);
                }
                self.hs[oh] = Some((s2, md2));
                return Ok(());
            }
            SK::AppendClone => {
                let mut c = self.s(oh).clone();
                let cmd = self.model(oh).clone();
                let (s, md) = self.hs[h].as_mut().unwrap();
                s.append_(&mut c);
                ensure!(c.is_empty_() && c.len_() == 0, "append leaves its argument with len {}", c.len_());
                ensure!(c.iter_().next().is_none(), "append leaves elements in its argument");
                for e in cmd.0 {
                    md.insert(e);
                }
                return Ok(());
            }
            SK::ExtendRefs => {
                let (s2, md2) = self.take(oh);
                let v: Vec<Key> = s2.iter_().cloned().collect();
                let (s, md) = self.hs[h].as_mut().unwrap();
                s.extend_refs(&v);
                for e in &md2.0 {
                    md.insert(*e);
                }
                self.hs[oh] = Some((s2, md2));
                return Ok(());
            }
            SK::OpNew | SK::OpRef => {
                // c: bit 0 consume left, bit 1 consume right
                let sop = SET_OPS[o.b as usize & 3];
                let lmd = self.model(h).clone();
                let rmd = self.model(oh).clone();
                let res = if o.k == SK::OpRef {
                    S::op_ref(sop, self.s(h), self.s(oh))
                } else {
                    let l = if o.c & 1 != 0 { self.take(h).0 } else { self.s(h).clone() };
                    let r = if oh == h {
                        if o.c & 1 != 0 {
                            l.clone()
                        } else {
                            self.s(h).clone()
                        }
                    } else if o.c & 2 != 0 {
                        self.take(oh).0
                    } else {
                        self.s(oh).clone()
                    };
                    S::op_new(sop, l, r)
                };
                let mut want = set_op(sop, &lmd, &rmd);
                if sop == SetOp::Intersection && !S::AVL {
                    // either operand's instance may be kept; adopt what is there
                    for k in res.iter_() {
                        if let Ok(i) = want.find(k.q.0) {
                            let (x, y) = (el(k).1, rmd.0[rmd.find(k.q.0).unwrap()].1);
                            if x == y {
                                want.0[i].1 = y;
                            }
                        }
                    }
                }
                self.hs.push(Some((res, want)));
                return Ok(());
            }
            _ => (),
        }
        let (s, md) = self.hs[h].as_mut().ok_or("no such handle")?;
        match o.k {
            SK::Ins => {
                let got = s.insert_(Key::new(o.a, t));
                let want = md.insert((o.a, t)).is_none();
                ensure!(got == want, "insert {} returned {got}", o.a);
            }
            SK::Replace => {
                let got = s.replace_(Key::new(o.a, t)).map(|k| el(&k));
                let want = md.insert((o.a, t));
                ensure!(got == want, "replace {} returned {got:?}, expected {want:?}", o.a);
            }
            SK::Take | SK::TakeK => {
                let got = if o.k == SK::Take { s.take_q(&KQ(o.a)) } else { s.take_k(&Key::new(o.a, 0)) };
                let got = got.map(|k| el(&k));
                let want = md.remove(o.a);
                ensure!(got == want, "take {} returned {got:?}, expected {want:?}", o.a);
            }
            SK::Rem | SK::RemK => {
                let got = if o.k == SK::Rem { s.remove_q(&KQ(o.a)) } else { s.remove_k(&Key::new(o.a, 0)) };
                let want = md.remove(o.a).is_some();
                ensure!(got == want, "remove {} returned {got}", o.a);
            }
            SK::PopF | SK::PopL => {
                let got = if o.k == SK::PopF { s.pop_first_() } else { s.pop_last_() };
                let got = got.map(|k| el(&k));
                let want = if md.0.is_empty() {
                    None
                } else if o.k == SK::PopF {
                    Some(md.0.remove(0))
                } else {
                    md.0.pop()
                };
                ensure!(got == want, "returned {got:?}, expected {want:?}");
            }
            SK::Clear => {
                s.clear_();
                md.0.clear();
            }
            SK::Extend => {
                let v = vec![Key::new(o.b, t), Key::new(o.a, t2), Key::new(o.b, t3)];
                s.extend_(v);
                md.insert((o.b, t));
                md.insert((o.a, t2));
                md.insert((o.b, t3));
            }
            SK::Retain => {
                let model = md.clone();
                let mut visited = vec![];
                s.retain_(&mut |k| {
                    closure_event();
                    let e = el(k);
                    visited.push(e);
                    let i = model.find(e.0).unwrap_or(0);
                    o.a >> (i % 62) & 1 == 1
                });
                ensure!(
                    visited == model.0,
                    "retain visits {visited:?}, expected each element once in ascending order {:?}",
                    model.0
                );
                let mut i = 0;
                md.0.retain(|_| {
                    i += 1;
                    o.a >> ((i - 1) % 62) & 1 == 1
                });
            }
            _ => return Err(format!("unhandled op {:?}", o.k)),
        }
        Ok(())
    }

    pub fn observe(&self, obs: Obs) -> Result<(), String> {
        for (h, x) in self.hs.iter().enumerate() {
            if let Some((s, md)) = x {
                sobserve(s, md, obs).map_err(|e| format!("handle {h}: {e}"))?;
            }
        }
        take_fault()
    }

    /// see Fam::fingerprint
    pub fn fingerprint(&self) -> Vec<u16> {
        let mut all: Vec<i64> = vec![];
        for (_, md) in self.hs.iter().flatten() {
            all.extend(md.0.iter().map(|e| e.0));
        }
        all.sort_unstable();
        all.dedup();
        let rank = |k: i64| all.partition_point(|x| *x < k) as u16;
        let mut out = Vec::with_capacity(64);
        let mut addrs: Vec<usize> = vec![];
        let multi = self.hs.iter().flatten().count() > 1;
        for x in self.hs.iter() {
            let (s, md) = match x {
                None => continue,
                Some(x) => x,
            };
            out.push(60001);
            out.push(md.len() as u16);
            let mut prev = None;
            for e in &md.0 {
                out.push(60002);
                out.push(rank(e.0));
                reg().cmp_log = Some(Vec::with_capacity(32));
                reg().cmp_target = e.0;
                let v = s.get_q(&KQ(e.0));
                let log = reg().cmp_log.take().unwrap();
                for k in &log {
                    out.push(rank(*k));
                }
                if let Some(v) = v {
                    let a = v as *const Key as usize;
                    if !S::AVL {
                        let stride = std::mem::size_of::<(Key, ())>();
                        out.push(if prev == Some(a.wrapping_sub(stride)) { 60004 } else { 60005 });
                        prev = Some(a);
                    }
                    if multi {
                        let id = addrs.iter().position(|x| *x == a).unwrap_or_else(|| {
                            addrs.push(a);
                            addrs.len() - 1
                        });
                        out.push(id as u16);
                    }
                } else {
                    out.push(60003);
                }
            }
        }
        out
    }
}

pub fn sobserve<S: SetSub>(s: &S, md: &SModel, obs: Obs) -> Result<(), String> {
    ensure!(s.len_() == md.len(), "len() is {}, expected {}", s.len_(), md.len());
    ensure!(s.is_empty_() == md.0.is_empty(), "is_empty() is {}", s.is_empty_());
    let mut i = 0;
    {
        let it = s.iter_();
        ensure!(it.len() == md.len(), "iter().len() is {}, expected {}", it.len(), md.len());
        for k in it {
            let e = el(k);
            ensure!(i < md.len(), "iter() yields more than {} items, next {e:?}", md.len());
            ensure!(e == md.0[i], "iter() item {i} is {e:?}, expected {:?}", md.0[i]);
            i += 1;
        }
    }
    ensure!(i == md.len(), "iter() yields {i} items, expected {}", md.len());
    s.check_().map_err(|e| format!("structural check failed: {e}"))?;
    if obs == Obs::Full {
        for (i, e) in md.0.iter().enumerate() {
            let g = s.get_q(&KQ(e.0)).map(el);
            ensure!(g == Some(*e), "get({}) is {g:?}, expected {e:?}", e.0);
            let g = s.get_k(&Key::new(e.0, 0)).map(el);
            ensure!(g == Some(*e), "get({}) is {g:?}, expected {e:?}", e.0);
            ensure!(s.contains_q(&KQ(e.0)), "contains({}) is false", e.0);
            let miss = e.0 - 1;
            if i == 0 || md.0[i - 1].0 != miss {
                ensure!(s.get_q(&KQ(miss)).is_none(), "get({miss}) finds an absent element");
                ensure!(!s.contains_q(&KQ(miss)), "contains({miss}) finds an absent element");
            }
        }
        let above = md.0.last().map_or(7, |e| e.0 + 1);
        ensure!(!s.contains_q(&KQ(above)), "contains({above}) finds an absent element");
        let f = s.first_().map(el);
        ensure!(f == md.0.first().copied(), "first() is {f:?}");
        let l = s.last_().map(el);
        ensure!(l == md.0.last().copied(), "last() is {l:?}");
        // ranges: [k, ..), (.., k] and (a, b) of neighbours two apart
        let n = md.len();
        for i in 0..n {
            let k = md.0[i].0;
            let r: Vec<El> = s.range_((bd(1, k), bd(0, 0))).map(el).take(n + 1).collect();
            ensure!(r == md.0[i..], "range({k}..) yields {r:?}");
            let r: Vec<El> = s.range_((bd(0, 0), bd(1, k))).map(el).take(n + 1).collect();
            ensure!(r == md.0[..=i], "range(..={k}) yields {r:?}");
            if i + 2 < n {
                let j = md.0[i + 2].0;
                let r: Vec<El> = s.range_((bd(2, k), bd(2, j))).rev().map(el).take(n + 1).collect();
                ensure!(r == md.0[i + 1..i + 2], "range({k}<..<{j}) reversed yields {r:?}");
            }
            let r: Vec<El> = s.range_((bd(1, k), bd(2, k))).map(el).take(n + 1).collect();
            ensure!(r.is_empty(), "range({k}..{k}) yields {r:?}");
        }
    }
    take_fault()
}

pub fn run_shistory<S: SetSub>(ops: &[SOp], from: usize, obs: Obs, steps: &mut u64) -> Result<SFam<S>, String> {
    reg().reset();
    let mut f = SFam::<S>::new();
    for (i, o) in ops.iter().enumerate() {
        f.apply(o)?;
        if i >= from {
            *steps += 1;
            f.observe(obs)?;
        }
    }
    Ok(f)
}

pub fn sfinish<S: SetSub>(f: SFam<S>) -> Result<(), String> {
    drop(f);
    take_fault()?;
    let l = reg().live;
    ensure!(l == 0, "{l} elements were never dropped");
    Ok(())
}

pub fn run_set_case<S: SetSub>(slot: &mut Slot, ops: &[SOp], from: usize, obs: Obs) {
    slot.case(
        |s| {
            s.push_str("set ");
            s.push_str(S::NAME);
            s.push(' ');
            write_sops(ops, s);
        },
        |steps| run_shistory::<S>(ops, from, obs, steps).map(|_| ()),
    );
}

#[derive(Clone)]
pub struct SState {
    pub hist: Vec<SOp>,
    pub keys: Vec<i64>,
}

/// Breadth-first search over canonical set shapes (see shapes::bfs).
pub fn sbfs<S: SetSub>(
    ctx: &Ctx,
    label: &str,
    max_n: usize,
    max_states: usize,
    obs: Obs,
    ops: &(dyn Fn(&[i64]) -> Vec<SOp> + Sync),
) -> Vec<SState> {
    let mut seen: HashSet<u128> = HashSet::new();
    reg().reset();
    seen.insert(hash_fp(&SFam::<S>::new().fingerprint()));
    let init = SState { hist: vec![], keys: vec![] };
    let mut all = vec![init.clone()];
    let mut frontier = vec![init];
    let mut depth = 0;
    let mut complete = true;
    while !frontier.is_empty() && !ctx.stopped() {
        let next = ctx.par_map(&frontier, |slot, st: &SState| {
            let mut out: Vec<(u128, SOp, Vec<i64>)> = vec![];
            for o in ops(&st.keys) {
                if slot.ctx.stopped() {
                    break;
                }
                let r = slot.case(
                    |s| {
                        s.push_str("set ");
                        s.push_str(S::NAME);
                        s.push(' ');
                        write_sops(&st.hist, s);
                        if !st.hist.is_empty() {
                            s.push(';');
                        }
                        write_sops(&[o], s);
                    },
                    |steps| {
                        let mut f = run_shistory::<S>(&st.hist, usize::MAX, obs, steps)?;
                        f.apply(&o)?;
                        *steps += 1;
                        f.observe(obs)?;
                        if f.live() != [0] {
                            return Ok(None);
                        }
                        let keys = f.model(0).keys();
                        let fp = hash_fp(&f.fingerprint());
                        take_fault()?;
                        Ok(Some((fp, keys)))
                    },
                );
                if let Some(Some((fp, keys))) = r {
                    slot.outcome(fp as u64);
                    if keys.len() <= max_n {
                        out.push((fp, o, keys));
                    }
                }
            }
            out
        });
        let mut nf = vec![];
        for (i, r) in next.into_iter().enumerate() {
            for (fp, o, keys) in r.into_iter().flatten() {
                if seen.len() >= max_states {
                    complete = false;
                    break;
                }
                if seen.insert(fp) {
                    let mut hist = frontier[i].hist.clone();
                    hist.push(o);
                    nf.push(SState { hist, keys });
                }
            }
        }
        all.extend(nf.iter().cloned());
        frontier = nf;
        depth += 1;
    }
    ctx.add_states(all.len() as u64);
    ctx.note(format!(
        "{label} {}: {} canonical states with at most {max_n} elements, {}, depth {depth}",
        S::NAME,
        all.len(),
        if complete && !ctx.stopped() { "search complete (fixpoint)" } else { "state cap reached" }
    ));
    all
}

pub fn sbasic(max_n: usize) -> impl Fn(&[i64]) -> Vec<SOp> + Sync {
    move |keys| {
        let mut v = vec![];
        if keys.len() < max_n {
            for g in 0..=keys.len() {
                v.push(sop(SK::Ins, 0, gap_key(keys, g), 0));
            }
        }
        for k in keys {
            v.push(sop(SK::Rem, 0, *k, 0));
        }
        v
    }
}
pub fn sshapes<S: SetSub>(ctx: &Ctx, max_n: usize) -> Vec<SState> {
    sbfs::<S>(ctx, "shapes", max_n, 1 << 20, Obs::Light, &sbasic(max_n))
}

/// Rename the final keys of a history.
pub fn sremap(hist: &[SOp], keys: &[i64], targets: &[i64], h: usize) -> Vec<SOp> {
    let ops: Vec<Op> = hist
        .iter()
        .map(|o| op(if o.k == SK::Ins { OpK::Ins } else { OpK::Rem }, 0, o.a, 0))
        .collect();
    to_sops(&remap(&State { hist: ops, keys: keys.to_vec() }, targets, h))
}

/// replay "set <name> <ops>"
pub fn replay_set(case: &str) -> Result<(), String> {
    let rest = case.strip_prefix("set ").ok_or("bad case")?;
    let (name, ops) = rest.split_once(' ').ok_or("bad case")?;
    let ops = parse_sops(ops)?;
    fn go<S: SetSub>(ops: &[SOp]) -> Result<(), String> {
        let mut n = 0;
        run_shistory::<S>(ops, 0, Obs::Full, &mut n).map(|_| ())
    }
    crate::for_set!(name, go, &ops)
}
