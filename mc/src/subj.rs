//! The structures under test behind uniform traits.

use crate::elem::*;
use lazy_clone_collections as lcc;
use std::ops::Bound;

/// The methods of an iterator that consume it, for trait objects: a type may
/// provide its own version of each of them.
pub trait Whole: Iterator {
    fn w_count(self: Box<Self>) -> usize;
    fn w_last(self: Box<Self>) -> Option<Self::Item>;
    fn w_fold(self: Box<Self>, f: &mut dyn FnMut(Self::Item));
    fn w_min(self: Box<Self>) -> Option<Self::Item>;
    fn w_max(self: Box<Self>) -> Option<Self::Item>;
    fn w_sorted(self: Box<Self>) -> bool;
}
impl<I: Iterator> Whole for I
where
    I::Item: Ord,
{
    fn w_count(self: Box<Self>) -> usize {
        (*self).count()
    }
    fn w_last(self: Box<Self>) -> Option<Self::Item> {
        (*self).last()
    }
    fn w_fold(self: Box<Self>, f: &mut dyn FnMut(Self::Item)) {
        (*self).fold((), |(), x| f(x))
    }
    fn w_min(self: Box<Self>) -> Option<Self::Item> {
        (*self).min()
    }
    fn w_max(self: Box<Self>) -> Option<Self::Item> {
        (*self).max()
    }
    fn w_sorted(self: Box<Self>) -> bool {
        (*self).is_sorted()
    }
}
pub trait WholeDe: Whole + DoubleEndedIterator {
    fn w_rfold(self: Box<Self>, f: &mut dyn FnMut(Self::Item));
}
impl<I: DoubleEndedIterator> WholeDe for I
where
    I::Item: Ord,
{
    fn w_rfold(self: Box<Self>, f: &mut dyn FnMut(Self::Item)) {
        (*self).rfold((), |(), x| f(x))
    }
}
pub trait Dei: WholeDe + ExactSizeIterator {}
impl<T: WholeDe + ExactSizeIterator> Dei for T {}
pub trait Fwd: Whole + ExactSizeIterator {}
impl<T: Whole + ExactSizeIterator> Fwd for T {}

pub type BoxIt<'a, T> = Box<dyn Dei<Item = T> + 'a>;
pub type BoxDe<'a, T> = Box<dyn WholeDe<Item = T> + 'a>;
pub type BoxFw<'a, T> = Box<dyn Fwd<Item = T> + 'a>;
pub type Bd = (Bound<KQ>, Bound<KQ>);
pub type Kd = (Bound<Key>, Bound<Key>);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Avl,
    BTree,
    Fixed,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bulk {
    Union,
    Intersect,
    Diff,
    SymDiff,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EntryOp {
    OrInsert,
    OrInsertWith,
    OrInsertWithKey,
    OrDefault,
    AndModify,
    AndModifyOrInsert,
    Key,
    /// the same, writing through the returned reference
    OrInsertW,
    OrInsertWithW,
    OrInsertWithKeyW,
    OrDefaultW,
    /// modifier twice, then a lazy default
    ModifyTwiceOrInsertWith,
    ModifyOrDefault,
    ModifyOrInsertWithKey,
    /// key() first, then or_insert
    KeyOrInsert,
}
/// what is written through a returned reference
pub const WRITTEN: u32 = 0x4000_0000;
pub const ENTRY_OPS: [EntryOp; 15] = [
    EntryOp::OrInsert,
    EntryOp::OrInsertWith,
    EntryOp::OrInsertWithKey,
    EntryOp::OrDefault,
    EntryOp::AndModify,
    EntryOp::AndModifyOrInsert,
    EntryOp::Key,
    EntryOp::OrInsertW,
    EntryOp::OrInsertWithW,
    EntryOp::OrInsertWithKeyW,
    EntryOp::OrDefaultW,
    EntryOp::ModifyTwiceOrInsertWith,
    EntryOp::ModifyOrDefault,
    EntryOp::ModifyOrInsertWithKey,
    EntryOp::KeyOrInsert,
];

/// What an entry operation was seen to do.
#[derive(Debug, PartialEq, Eq, Default)]
pub struct EntrySeen {
    /// value in the returned reference (before overwriting), if one is returned
    pub slot: Option<u32>,
    /// number of times the default was produced
    pub made: u32,
    /// number of times the modifier ran
    pub modified: u32,
    /// key passed to the closure / returned by key()
    pub key: Option<(i64, u32)>,
}

pub trait MapSub: Sized + Clone + 'static {
    const NAME: &'static str;
    const KIND: Kind;
    /// has the rich interface (everything but the fixed map)
    const RICH: bool = true;
    /// least and greatest node occupancy
    const MINOCC: usize;
    const MAXOCC: usize;

    fn new_() -> Self;
    fn insert_(&mut self, k: Key, v: Val) -> Option<Val>;
    fn remove_q(&mut self, k: &KQ) -> Option<Val>;
    fn remove_k(&mut self, k: &Key) -> Option<Val>;
    fn get_q(&self, k: &KQ) -> Option<&Val>;
    fn get_k(&self, k: &Key) -> Option<&Val>;
    fn get_mut_q(&mut self, k: &KQ) -> Option<&mut Val>;
    fn get_mut_k(&mut self, k: &Key) -> Option<&mut Val>;
    fn len_(&self) -> usize;
    fn is_empty_(&self) -> bool;
    fn clear_(&mut self);
    fn iter_(&self) -> BoxIt<'_, (&Key, &Val)>;
    fn iter_mut_(&mut self) -> BoxIt<'_, (&Key, &mut Val)>;
    fn into_iter_(self) -> BoxIt<'static, (Key, Val)>;
    fn extend_(&mut self, v: Vec<(Key, Val)>);
    fn from_vec(v: Vec<(Key, Val)>) -> Self;
    fn check_(&self) -> Result<(), String>;

    // ---- rich interface
    fn contains_q(&self, _k: &KQ) -> bool {
        unimplemented!()
    }
    fn get_kv_q(&self, _k: &KQ) -> Option<(&Key, &Val)> {
        unimplemented!()
    }
    fn first_kv(&self) -> Option<(&Key, &Val)> {
        unimplemented!()
    }
    fn last_kv(&self) -> Option<(&Key, &Val)> {
        unimplemented!()
    }
    fn pop_first_(&mut self) -> Option<(Key, Val)> {
        unimplemented!()
    }
    fn pop_last_(&mut self) -> Option<(Key, Val)> {
        unimplemented!()
    }
    fn append_(&mut self, _o: &mut Self) {
        unimplemented!()
    }
    fn split_off_q(&mut self, _k: &KQ) -> Self {
        unimplemented!()
    }
    fn retain_(&mut self, _f: &mut dyn FnMut(&Key, &mut Val) -> bool) {
        unimplemented!()
    }
    fn range_(&self, _r: Bd) -> BoxDe<'_, (&Key, &Val)> {
        unimplemented!()
    }
    fn range_mut_(&mut self, _r: Bd) -> BoxDe<'_, (&Key, &mut Val)> {
        unimplemented!()
    }
    fn keys_(&self) -> BoxIt<'_, &Key> {
        unimplemented!()
    }
    fn values_(&self) -> BoxIt<'_, &Val> {
        unimplemented!()
    }
    fn values_mut_(&mut self) -> BoxIt<'_, &mut Val> {
        unimplemented!()
    }
    fn into_keys_(self) -> BoxIt<'static, Key> {
        unimplemented!()
    }
    fn into_values_(self) -> BoxIt<'static, Val> {
        unimplemented!()
    }
    /// entry(key) operation; new or modified value is `new`
    fn entry_op(&mut self, _k: Key, _op: EntryOp, _new: u32) -> EntrySeen {
        unimplemented!()
    }
    /// first_entry()/last_entry()
    fn end_entry_op(&mut self, _last: bool, _op: EntryOp, _new: u32) -> Option<EntrySeen> {
        unimplemented!()
    }
    fn from_arr3(_a: [(Key, Val); 3]) -> Self {
        unimplemented!()
    }
    fn cmp_(&self, _o: &Self) -> std::cmp::Ordering {
        unimplemented!()
    }
    fn partial_cmp_(&self, _o: &Self) -> Option<std::cmp::Ordering> {
        unimplemented!()
    }
    fn eq_(&self, _o: &Self) -> bool {
        unimplemented!()
    }
    fn debug_(&self) -> String {
        unimplemented!()
    }
    /// IntoIterator for &map / &mut map
    fn ref_into_iter(&self) -> BoxIt<'_, (&Key, &Val)> {
        unimplemented!()
    }
    fn mut_into_iter(&mut self) -> BoxIt<'_, (&Key, &mut Val)> {
        unimplemented!()
    }

    // ---- the same lookups by the key itself
    fn contains_k(&self, _k: &Key) -> bool {
        unimplemented!()
    }
    fn get_kv_k(&self, _k: &Key) -> Option<(&Key, &Val)> {
        unimplemented!()
    }
    fn split_off_k(&mut self, _k: &Key) -> Self {
        unimplemented!()
    }
    fn range_k(&self, _r: Kd) -> BoxDe<'_, (&Key, &Val)> {
        unimplemented!()
    }
    fn range_mut_k(&mut self, _r: Kd) -> BoxDe<'_, (&Key, &mut Val)> {
        unimplemented!()
    }
    fn remove_entry_k(&mut self, _k: &Key) -> Option<(Key, Val)> {
        unimplemented!()
    }
    fn index_k(&self, _k: &Key) -> &Val {
        unimplemented!()
    }

    // ---- AvlMap only
    fn remove_entry_q(&mut self, _k: &KQ) -> Option<(Key, Val)> {
        unimplemented!()
    }
    fn bulk(_op: Bulk, _l: Self, _r: Self) -> Self {
        unimplemented!()
    }
    fn join_(_l: Self, _k: Key, _v: Val, _r: Self) -> Self {
        unimplemented!()
    }
    fn for_each_(&self, _f: &mut dyn FnMut((&Key, &Val))) {
        unimplemented!()
    }
    fn for_each_mut_(&mut self, _f: &mut dyn FnMut((&Key, &mut Val))) {
        unimplemented!()
    }
    fn index_q(&self, _k: &KQ) -> &Val {
        unimplemented!()
    }
    fn extend_refs(&mut self, _o: &Self) {
        unimplemented!()
    }
    fn hash_(&self) -> u64 {
        unimplemented!()
    }
    // ---- BTreeMap only
    fn into_vec(self) -> Vec<(Key, Val)> {
        unimplemented!()
    }
}

pub fn run_entry<M: lcc::Map<Key = Key, Value = Val>>(
    e: lcc::Entry<'_, M>,
    op: EntryOp,
    new: u32,
) -> EntrySeen {
    let mut seen = EntrySeen::default();
    let mut made = 0;
    let mut modified = 0;
    let mut key = None;
    let d0 = reg().defaults;
    let write = |r: &mut Val| {
        r.check();
        *r = Val::new(new | WRITTEN);
    };
    let slot = |r: &mut Val| {
        r.check();
        Some(r.v)
    };
    let mut with = || {
        closure_event();
        made += 1;
        Val::new(new)
    };
    match op {
        EntryOp::OrInsert => seen.slot = slot(e.or_insert(Val::new(new))),
        EntryOp::OrInsertW => {
            let r = e.or_insert(Val::new(new));
            seen.slot = slot(r);
            write(r);
        }
        EntryOp::OrInsertWith => seen.slot = slot(e.or_insert_with(&mut with)),
        EntryOp::OrInsertWithW => {
            let r = e.or_insert_with(&mut with);
            seen.slot = slot(r);
            write(r);
        }
        EntryOp::OrInsertWithKey | EntryOp::OrInsertWithKeyW => {
            let r = e.or_insert_with_key(|k| {
                k.check();
                key = Some((k.q.0, k.tag));
                with()
            });
            seen.slot = slot(r);
            if op == EntryOp::OrInsertWithKeyW {
                write(r);
            }
        }
        EntryOp::OrDefault => seen.slot = slot(e.or_default()),
        EntryOp::OrDefaultW => {
            let r = e.or_default();
            seen.slot = slot(r);
            write(r);
        }
        EntryOp::AndModify => {
            let _ = e.and_modify(|v| {
                closure_event();
                modified += 1;
                v.check();
                *v = Val::new(new);
            });
        }
        EntryOp::AndModifyOrInsert => {
            let r = e
                .and_modify(|v| {
                    closure_event();
                    modified += 1;
                    *v = Val::new(new);
                })
                .or_insert(Val::new(new));
            seen.slot = slot(r);
            // write through the returned reference as well
            *r = Val::new(new);
        }
        EntryOp::ModifyTwiceOrInsertWith => {
            let mut first = 0;
            let r = e
                .and_modify(|v| {
                    closure_event();
                    first += 1;
                    v.check();
                    *v = Val::new(new ^ 1);
                })
                .and_modify(|v| {
                    closure_event();
                    v.check();
                    modified += 1;
                    if v.v == new ^ 1 {
                        *v = Val::new(new);
                    }
                })
                .or_insert_with(&mut with);
            seen.slot = slot(r);
            modified += first;
        }
        EntryOp::ModifyOrDefault => {
            let r = e
                .and_modify(|v| {
                    closure_event();
                    modified += 1;
                    v.check();
                    *v = Val::new(new);
                })
                .or_default();
            seen.slot = slot(r);
        }
        EntryOp::ModifyOrInsertWithKey => {
            let r = e
                .and_modify(|v| {
                    closure_event();
                    modified += 1;
                    v.check();
                    *v = Val::new(new);
                })
                .or_insert_with_key(|k| {
                    k.check();
                    key = Some((k.q.0, k.tag));
                    with()
                });
            seen.slot = slot(r);
        }
        EntryOp::Key => {
            let k = e.key();
            k.check();
            key = Some((k.q.0, k.tag));
        }
        EntryOp::KeyOrInsert => {
            let k = e.key();
            k.check();
            key = Some((k.q.0, k.tag));
            seen.slot = slot(e.or_insert(Val::new(new)));
        }
    }
    seen.made = made + (reg().defaults - d0) as u32;
    seen.modified = modified;
    seen.key = key;
    seen
}

macro_rules! rich_impl {
    () => {
        fn new_() -> Self {
            Self::new()
        }
        fn insert_(&mut self, k: Key, v: Val) -> Option<Val> {
            self.insert(k, v)
        }
        fn remove_q(&mut self, k: &KQ) -> Option<Val> {
            self.remove(k)
        }
        fn remove_k(&mut self, k: &Key) -> Option<Val> {
            self.remove(k)
        }
        fn get_q(&self, k: &KQ) -> Option<&Val> {
            self.get(k)
        }
        fn get_k(&self, k: &Key) -> Option<&Val> {
            self.get(k)
        }
        fn get_mut_q(&mut self, k: &KQ) -> Option<&mut Val> {
            self.get_mut(k)
        }
        fn get_mut_k(&mut self, k: &Key) -> Option<&mut Val> {
            self.get_mut(k)
        }
        fn len_(&self) -> usize {
            self.len()
        }
        fn is_empty_(&self) -> bool {
            self.is_empty()
        }
        fn clear_(&mut self) {
            self.clear()
        }
        fn iter_(&self) -> BoxIt<'_, (&Key, &Val)> {
            Box::new(self.iter())
        }
        fn iter_mut_(&mut self) -> BoxIt<'_, (&Key, &mut Val)> {
            Box::new(self.iter_mut())
        }
        fn into_iter_(self) -> BoxIt<'static, (Key, Val)> {
            Box::new(self.into_iter())
        }
        fn extend_(&mut self, v: Vec<(Key, Val)>) {
            self.extend(v)
        }
        fn from_vec(v: Vec<(Key, Val)>) -> Self {
            v.into_iter().collect()
        }
    };
}

macro_rules! rich_only_impl {
    () => {
        fn check_(&self) -> Result<(), String> {
            lcc::Map::check(self)
        }
        fn contains_q(&self, k: &KQ) -> bool {
            self.contains_key(k)
        }
        fn get_kv_q(&self, k: &KQ) -> Option<(&Key, &Val)> {
            self.get_key_value(k)
        }
        fn contains_k(&self, k: &Key) -> bool {
            self.contains_key(k)
        }
        fn get_kv_k(&self, k: &Key) -> Option<(&Key, &Val)> {
            self.get_key_value(k)
        }
        fn split_off_k(&mut self, k: &Key) -> Self {
            self.split_off(k)
        }
        fn range_k(&self, r: Kd) -> BoxDe<'_, (&Key, &Val)> {
            Box::new(self.range::<Key, Kd>(r))
        }
        fn range_mut_k(&mut self, r: Kd) -> BoxDe<'_, (&Key, &mut Val)> {
            Box::new(self.range_mut::<Key, Kd>(r))
        }
        fn first_kv(&self) -> Option<(&Key, &Val)> {
            self.first_key_value()
        }
        fn last_kv(&self) -> Option<(&Key, &Val)> {
            self.last_key_value()
        }
        fn pop_first_(&mut self) -> Option<(Key, Val)> {
            self.pop_first()
        }
        fn pop_last_(&mut self) -> Option<(Key, Val)> {
            self.pop_last()
        }
        fn append_(&mut self, o: &mut Self) {
            self.append(o)
        }
        fn split_off_q(&mut self, k: &KQ) -> Self {
            self.split_off(k)
        }
        fn retain_(&mut self, f: &mut dyn FnMut(&Key, &mut Val) -> bool) {
            self.retain(|k, v| f(k, v))
        }
        fn range_(&self, r: Bd) -> BoxDe<'_, (&Key, &Val)> {
            Box::new(self.range::<KQ, Bd>(r))
        }
        fn range_mut_(&mut self, r: Bd) -> BoxDe<'_, (&Key, &mut Val)> {
            Box::new(self.range_mut::<KQ, Bd>(r))
        }
        fn keys_(&self) -> BoxIt<'_, &Key> {
            Box::new(self.keys())
        }
        fn values_(&self) -> BoxIt<'_, &Val> {
            Box::new(self.values())
        }
        fn values_mut_(&mut self) -> BoxIt<'_, &mut Val> {
            Box::new(self.values_mut())
        }
        fn into_keys_(self) -> BoxIt<'static, Key> {
            Box::new(self.into_keys())
        }
        fn into_values_(self) -> BoxIt<'static, Val> {
            Box::new(self.into_values())
        }
        fn entry_op(&mut self, k: Key, op: EntryOp, new: u32) -> EntrySeen {
            run_entry(self.entry(k), op, new)
        }
        fn end_entry_op(&mut self, last: bool, op: EntryOp, new: u32) -> Option<EntrySeen> {
            let e = if last { self.last_entry() } else { self.first_entry() };
            e.map(|e| run_entry(e, op, new))
        }
        fn from_arr3(a: [(Key, Val); 3]) -> Self {
            Self::from(a)
        }
        fn cmp_(&self, o: &Self) -> std::cmp::Ordering {
            Ord::cmp(self, o)
        }
        fn partial_cmp_(&self, o: &Self) -> Option<std::cmp::Ordering> {
            PartialOrd::partial_cmp(self, o)
        }
        fn eq_(&self, o: &Self) -> bool {
            self == o
        }
        fn debug_(&self) -> String {
            format!("{:?}", self)
        }
        fn ref_into_iter(&self) -> BoxIt<'_, (&Key, &Val)> {
            Box::new(IntoIterator::into_iter(self))
        }
        fn mut_into_iter(&mut self) -> BoxIt<'_, (&Key, &mut Val)> {
            Box::new(IntoIterator::into_iter(self))
        }
    };
}

pub type Avl = lcc::AvlMap<Key, Val>;
pub type Bt<const N: usize> = lcc::btree::BTreeMap<Key, Val, N>;
pub type Fixed = lcc::btree::fixed::BTreeMap<Key, Val>;

impl MapSub for Avl {
    const NAME: &'static str = "avl";
    const KIND: Kind = Kind::Avl;
    const MINOCC: usize = 1;
    const MAXOCC: usize = 1;
    rich_impl!();
    rich_only_impl!();
    fn remove_entry_q(&mut self, k: &KQ) -> Option<(Key, Val)> {
        self.remove_entry(k)
    }
    fn remove_entry_k(&mut self, k: &Key) -> Option<(Key, Val)> {
        self.remove_entry(k)
    }
    fn index_k(&self, k: &Key) -> &Val {
        &self[k]
    }
    fn bulk(op: Bulk, l: Self, r: Self) -> Self {
        match op {
            Bulk::Union => Self::new_union(l, r),
            Bulk::Intersect => Self::new_intersect(l, r),
            Bulk::Diff => Self::new_diff(l, r),
            Bulk::SymDiff => Self::new_sym_diff(l, r),
        }
    }
    fn join_(l: Self, k: Key, v: Val, r: Self) -> Self {
        Self::new_join(l, k, v, r)
    }
    fn for_each_(&self, f: &mut dyn FnMut((&Key, &Val))) {
        self.for_each(|e| f(e))
    }
    fn for_each_mut_(&mut self, f: &mut dyn FnMut((&Key, &mut Val))) {
        self.for_each_mut(|e| f(e))
    }
    fn index_q(&self, k: &KQ) -> &Val {
        &self[k]
    }
    fn extend_refs(&mut self, o: &Self) {
        self.extend(o.iter())
    }
    fn hash_(&self) -> u64 {
        hash_of(self)
    }
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

/// FNV-1a over the exact byte sequence fed to the hasher.
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        // the boundaries between calls count as well
        self.0 = (self.0 ^ (b.len() as u64 + 257)).wrapping_mul(0x100000001b3);
        for x in b {
            self.0 ^= *x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}

macro_rules! bt {
    ($n:literal, $name:literal) => {
        impl MapSub for Bt<$n> {
            const NAME: &'static str = $name;
            const KIND: Kind = Kind::BTree;
            const MINOCC: usize = $n;
            const MAXOCC: usize = 2 * $n + 1;
            rich_impl!();
            rich_only_impl!();
            fn into_vec(self) -> Vec<(Key, Val)> {
                self.into()
            }
        }
    };
}
bt!(1, "bt1");
bt!(2, "bt2");
bt!(3, "bt3");
bt!(5, "bt5");
bt!(16, "bt16");

impl MapSub for Fixed {
    const NAME: &'static str = "fixed";
    const KIND: Kind = Kind::Fixed;
    const RICH: bool = false;
    const MINOCC: usize = 5;
    const MAXOCC: usize = 11;
    rich_impl!();
    fn check_(&self) -> Result<(), String> {
        Ok(())
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SetOp {
    Union,
    Intersection,
    Difference,
    SymDiff,
}
pub const SET_OPS: [SetOp; 4] =
    [SetOp::Union, SetOp::Intersection, SetOp::Difference, SetOp::SymDiff];

pub trait SetSub: Sized + Clone + Default + 'static {
    const NAME: &'static str;
    const AVL: bool;
    fn new_() -> Self;
    fn insert_(&mut self, k: Key) -> bool;
    fn replace_(&mut self, k: Key) -> Option<Key>;
    fn take_q(&mut self, k: &KQ) -> Option<Key>;
    fn take_k(&mut self, k: &Key) -> Option<Key>;
    fn remove_q(&mut self, k: &KQ) -> bool;
    fn remove_k(&mut self, k: &Key) -> bool;
    fn get_q(&self, k: &KQ) -> Option<&Key>;
    fn get_k(&self, k: &Key) -> Option<&Key>;
    fn contains_q(&self, k: &KQ) -> bool;
    fn contains_k(&self, k: &Key) -> bool;
    fn split_off_k(&mut self, k: &Key) -> Self;
    fn range_k(&self, r: Kd) -> BoxDe<'_, &Key>;
    fn first_(&self) -> Option<&Key>;
    fn last_(&self) -> Option<&Key>;
    fn len_(&self) -> usize;
    fn is_empty_(&self) -> bool;
    fn clear_(&mut self);
    fn pop_first_(&mut self) -> Option<Key>;
    fn pop_last_(&mut self) -> Option<Key>;
    fn append_(&mut self, o: &mut Self);
    fn split_off_q(&mut self, k: &KQ) -> Self;
    fn retain_(&mut self, f: &mut dyn FnMut(&Key) -> bool);
    fn range_(&self, r: Bd) -> BoxDe<'_, &Key>;
    fn iter_(&self) -> BoxFw<'_, &Key>;
    fn into_iter_(self) -> BoxFw<'static, Key>;
    /// only where the iterators are double-ended
    fn iter_de(&self) -> Option<BoxIt<'_, &Key>>;
    fn into_iter_de(self) -> Option<BoxIt<'static, Key>>;
    fn extend_(&mut self, v: Vec<Key>);
    fn extend_refs(&mut self, v: &[Key]);
    fn from_vec(v: Vec<Key>) -> Self;
    fn from_arr3(v: [Key; 3]) -> Self;
    /// lazily evaluated set operation
    fn op_iter<'a>(op: SetOp, l: &'a Self, r: &'a Self) -> Box<dyn Whole<Item = &'a Key> + 'a>;
    /// constructor new_union & co.
    fn op_new(op: SetOp, l: Self, r: Self) -> Self;
    /// operator | & - ^ on references
    fn op_ref(op: SetOp, l: &Self, r: &Self) -> Self;
    fn is_subset_(&self, o: &Self) -> bool;
    fn is_superset_(&self, o: &Self) -> bool;
    fn is_disjoint_(&self, o: &Self) -> bool;
    fn check_(&self) -> Result<(), String>;
    fn cmp_(&self, o: &Self) -> std::cmp::Ordering;
    fn partial_cmp_(&self, o: &Self) -> Option<std::cmp::Ordering>;
    fn eq_(&self, o: &Self) -> bool;
    fn hash_(&self) -> u64;
    fn debug_(&self) -> String;
}

macro_rules! set_impl {
    () => {
        fn new_() -> Self {
            Self::new()
        }
        fn insert_(&mut self, k: Key) -> bool {
            self.insert(k)
        }
        fn replace_(&mut self, k: Key) -> Option<Key> {
            self.replace(k)
        }
        fn take_q(&mut self, k: &KQ) -> Option<Key> {
            self.take(k)
        }
        fn take_k(&mut self, k: &Key) -> Option<Key> {
            self.take(k)
        }
        fn remove_q(&mut self, k: &KQ) -> bool {
            self.remove(k)
        }
        fn remove_k(&mut self, k: &Key) -> bool {
            self.remove(k)
        }
        fn get_q(&self, k: &KQ) -> Option<&Key> {
            self.get(k)
        }
        fn get_k(&self, k: &Key) -> Option<&Key> {
            self.get(k)
        }
        fn contains_q(&self, k: &KQ) -> bool {
            self.contains(k)
        }
        fn contains_k(&self, k: &Key) -> bool {
            self.contains(k)
        }
        fn split_off_k(&mut self, k: &Key) -> Self {
            self.split_off(k)
        }
        fn range_k(&self, r: Kd) -> BoxDe<'_, &Key> {
            Box::new(self.range::<Key, Kd>(r))
        }
        fn first_(&self) -> Option<&Key> {
            self.first()
        }
        fn last_(&self) -> Option<&Key> {
            self.last()
        }
        fn len_(&self) -> usize {
            self.len()
        }
        fn is_empty_(&self) -> bool {
            self.is_empty()
        }
        fn clear_(&mut self) {
            self.clear()
        }
        fn pop_first_(&mut self) -> Option<Key> {
            self.pop_first()
        }
        fn pop_last_(&mut self) -> Option<Key> {
            self.pop_last()
        }
        fn append_(&mut self, o: &mut Self) {
            self.append(o)
        }
        fn split_off_q(&mut self, k: &KQ) -> Self {
            self.split_off(k)
        }
        fn retain_(&mut self, f: &mut dyn FnMut(&Key) -> bool) {
            self.retain(|k| f(k))
        }
        fn range_(&self, r: Bd) -> BoxDe<'_, &Key> {
            Box::new(self.range::<KQ, Bd>(r))
        }
        fn iter_(&self) -> BoxFw<'_, &Key> {
            Box::new(self.iter())
        }
        fn into_iter_(self) -> BoxFw<'static, Key> {
            Box::new(self.into_iter())
        }
        fn extend_(&mut self, v: Vec<Key>) {
            self.extend(v)
        }
        fn extend_refs(&mut self, v: &[Key]) {
            self.extend(v.iter())
        }
        fn from_vec(v: Vec<Key>) -> Self {
            v.into_iter().collect()
        }
        fn from_arr3(v: [Key; 3]) -> Self {
            Self::from(v)
        }
        fn op_iter<'a>(
            op: SetOp,
            l: &'a Self,
            r: &'a Self,
        ) -> Box<dyn Whole<Item = &'a Key> + 'a> {
            match op {
                SetOp::Union => Box::new(l.union(r)),
                SetOp::Intersection => Box::new(l.intersection(r)),
                SetOp::Difference => Box::new(l.difference(r)),
                SetOp::SymDiff => Box::new(l.symmetric_difference(r)),
            }
        }
        fn op_new(op: SetOp, l: Self, r: Self) -> Self {
            match op {
                SetOp::Union => Self::new_union(l, r),
                SetOp::Intersection => Self::new_intersection(l, r),
                SetOp::Difference => Self::new_diff(l, r),
                SetOp::SymDiff => Self::new_sym_diff(l, r),
            }
        }
        fn op_ref(op: SetOp, l: &Self, r: &Self) -> Self {
            match op {
                SetOp::Union => l | r,
                SetOp::Intersection => l & r,
                SetOp::Difference => l - r,
                SetOp::SymDiff => l ^ r,
            }
        }
        fn is_subset_(&self, o: &Self) -> bool {
            self.is_subset(o)
        }
        fn is_superset_(&self, o: &Self) -> bool {
            self.is_superset(o)
        }
        fn is_disjoint_(&self, o: &Self) -> bool {
            self.is_disjoint(o)
        }
        fn check_(&self) -> Result<(), String> {
            lcc::Set::check(self)
        }
        fn cmp_(&self, o: &Self) -> std::cmp::Ordering {
            Ord::cmp(self, o)
        }
        fn partial_cmp_(&self, o: &Self) -> Option<std::cmp::Ordering> {
            PartialOrd::partial_cmp(self, o)
        }
        fn eq_(&self, o: &Self) -> bool {
            self == o
        }
        fn hash_(&self) -> u64 {
            hash_of(self)
        }
        fn debug_(&self) -> String {
            format!("{:?}", self)
        }
    };
}

pub type AvlS = lcc::AvlSet<Key>;
pub type BtS<const N: usize> = lcc::btree::btree_set::BTreeSet<Key, N>;

impl SetSub for AvlS {
    const NAME: &'static str = "avlset";
    const AVL: bool = true;
    set_impl!();
    fn iter_de(&self) -> Option<BoxIt<'_, &Key>> {
        None
    }
    fn into_iter_de(self) -> Option<BoxIt<'static, Key>> {
        None
    }
}
macro_rules! bts {
    ($n:literal, $name:literal) => {
        impl SetSub for BtS<$n> {
            const NAME: &'static str = $name;
            const AVL: bool = false;
            set_impl!();
            fn iter_de(&self) -> Option<BoxIt<'_, &Key>> {
                Some(Box::new(self.iter()))
            }
            fn into_iter_de(self) -> Option<BoxIt<'static, Key>> {
                Some(Box::new(self.into_iter()))
            }
        }
    };
}
bts!(1, "bts1");
bts!(2, "bts2");
bts!(5, "bts5");
bts!(16, "bts16");

/// Call `$f::<M>($args)` for the map type named `$name`.
#[macro_export]
macro_rules! for_map {
    ($name:expr, $f:ident, $($a:expr),*) => {
        match $name {
            "avl" => $f::<$crate::subj::Avl>($($a),*),
            "bt1" => $f::<$crate::subj::Bt<1>>($($a),*),
            "bt2" => $f::<$crate::subj::Bt<2>>($($a),*),
            "bt3" => $f::<$crate::subj::Bt<3>>($($a),*),
            "bt5" => $f::<$crate::subj::Bt<5>>($($a),*),
            "bt16" => $f::<$crate::subj::Bt<16>>($($a),*),
            "fixed" => $f::<$crate::subj::Fixed>($($a),*),
            "narrow" => $f::<$crate::narrow::Narrow>($($a),*),
            other => panic!("unknown map {other}"),
        }
    };
}
#[macro_export]
macro_rules! for_set {
    ($name:expr, $f:ident, $($a:expr),*) => {
        match $name {
            "avlset" => $f::<$crate::subj::AvlS>($($a),*),
            "bts1" => $f::<$crate::subj::BtS<1>>($($a),*),
            "bts2" => $f::<$crate::subj::BtS<2>>($($a),*),
            "bts5" => $f::<$crate::subj::BtS<5>>($($a),*),
            "bts16" => $f::<$crate::subj::BtS<16>>($($a),*),
            other => panic!("unknown set {other}"),
        }
    };
}
pub const MAPS: [&str; 6] = ["avl", "bt1", "bt2", "bt3", "bt5", "fixed"];
pub const SETS: [&str; 4] = ["avlset", "bts1", "bts2", "bts5"];
