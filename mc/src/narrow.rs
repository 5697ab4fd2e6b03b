//! The fixed B-tree with a key no larger than a word.  It searches such keys
//! by other code than larger ones.  The key is a ticket for a [`Key`] kept in
//! a table: a ticket read from memory that holds none, or handed in twice, is
//! recognised like a bad `Key` is.

use crate::elem::*;
use crate::subj::*;
use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::cmp::Ordering;

struct Slot {
    gen: u32,
    key: Option<Key>,
}

struct Table {
    // boxed: keys stay where they are
    #[allow(clippy::vec_box)]
    slots: Vec<Box<Slot>>,
    free: Vec<u32>,
}

const GEN0: u32 = 0x9e37_79b1;

thread_local! {
    static TABLE: UnsafeCell<Table> = const { UnsafeCell::new(Table { slots: vec![], free: vec![] }) };
}

#[allow(clippy::mut_from_ref)]
fn table() -> &'static mut Table {
    // each execution stays on its thread, and nothing here calls out
    TABLE.with(|t| unsafe { &mut *t.get() })
}

pub struct Ticket {
    slot: u32,
    gen: u32,
}

const _: () = assert!(std::mem::size_of::<Ticket>() <= std::mem::size_of::<usize>());

impl Ticket {
    fn new(k: Key) -> Ticket {
        let t = table();
        let slot = t.free.pop().unwrap_or_else(|| {
            uncounted(|| {
                t.slots.push(Box::new(Slot { gen: GEN0, key: None }));
                t.free.reserve(t.slots.len());
            });
            t.slots.len() as u32 - 1
        });
        let s = &mut t.slots[slot as usize];
        s.key = Some(k);
        Ticket { slot, gen: s.gen }
    }

    fn find(&self, what: &str) -> Option<&'static mut Slot> {
        match table().slots.get_mut(self.slot as usize) {
            Some(s) if s.gen == self.gen && s.key.is_some() => Some(s),
            Some(s) if self.gen >= GEN0 && self.gen < s.gen => {
                reg().set_fault(format!("{what} of an element that was already dropped"));
                None
            }
            _ => {
                reg().set_fault(format!("{what} of memory that holds no element (uninitialised or freed)"));
                None
            }
        }
    }

    fn key(&self, what: &str) -> &Key {
        match self.find(what) {
            Some(s) => s.key.as_ref().unwrap(),
            None => &NO_KEY,
        }
    }

    fn take(&mut self, what: &str) -> Option<Key> {
        let s = self.find(what)?;
        s.gen += 1;
        table().free.push(self.slot);
        s.key.take()
    }

    fn into_key(mut self) -> Key {
        let k = self.take("read");
        std::mem::forget(self);
        k.unwrap_or_else(|| Key::new(i64::MIN, 0))
    }
}

impl Clone for Ticket {
    fn clone(&self) -> Ticket {
        Ticket::new(self.key("clone").clone())
    }
}
impl Drop for Ticket {
    fn drop(&mut self) {
        drop(self.take("drop"));
    }
}
impl PartialEq for Ticket {
    fn eq(&self, o: &Ticket) -> bool {
        self.key("comparison") == o.key("comparison")
    }
}
impl Eq for Ticket {}
impl PartialOrd for Ticket {
    fn partial_cmp(&self, o: &Ticket) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ticket {
    fn cmp(&self, o: &Ticket) -> Ordering {
        self.key("comparison").cmp(o.key("comparison"))
    }
}
impl Borrow<KQ> for Ticket {
    fn borrow(&self) -> &KQ {
        self.key("borrow").borrow()
    }
}
impl Borrow<Key> for Ticket {
    fn borrow(&self) -> &Key {
        self.key("borrow")
    }
}

#[derive(Clone)]
pub struct Narrow(lazy_clone_collections::btree::fixed::BTreeMap<Ticket, Val>);

impl MapSub for Narrow {
    const NAME: &'static str = "narrow";
    const KIND: Kind = Kind::Fixed;
    const RICH: bool = false;
    const MINOCC: usize = 5;
    const MAXOCC: usize = 11;

    fn new_() -> Self {
        Narrow(lazy_clone_collections::btree::fixed::BTreeMap::new())
    }
    fn insert_(&mut self, k: Key, v: Val) -> Option<Val> {
        self.0.insert(Ticket::new(k), v)
    }
    fn remove_q(&mut self, k: &KQ) -> Option<Val> {
        self.0.remove(k)
    }
    fn remove_k(&mut self, k: &Key) -> Option<Val> {
        self.0.remove(k)
    }
    fn get_q(&self, k: &KQ) -> Option<&Val> {
        self.0.get(k)
    }
    fn get_k(&self, k: &Key) -> Option<&Val> {
        self.0.get(k)
    }
    fn get_mut_q(&mut self, k: &KQ) -> Option<&mut Val> {
        self.0.get_mut(k)
    }
    fn get_mut_k(&mut self, k: &Key) -> Option<&mut Val> {
        self.0.get_mut(k)
    }
    fn len_(&self) -> usize {
        self.0.len()
    }
    fn is_empty_(&self) -> bool {
        self.0.is_empty()
    }
    fn clear_(&mut self) {
        self.0.clear()
    }
    fn iter_(&self) -> BoxIt<'_, (&Key, &Val)> {
        Box::new(self.0.iter().map(|(k, v)| (k.key("read"), v)))
    }
    fn iter_mut_(&mut self) -> BoxIt<'_, (&Key, &mut Val)> {
        Box::new(self.0.iter_mut().map(|(k, v)| (k.key("read"), v)))
    }
    fn into_iter_(self) -> BoxIt<'static, (Key, Val)> {
        Box::new(self.0.into_iter().map(|(k, v)| (k.into_key(), v)))
    }
    fn extend_(&mut self, v: Vec<(Key, Val)>) {
        self.0.extend(v.into_iter().map(|(k, v)| (Ticket::new(k), v)))
    }
    fn from_vec(v: Vec<(Key, Val)>) -> Self {
        Narrow(v.into_iter().map(|(k, v)| (Ticket::new(k), v)).collect())
    }
    fn check_(&self) -> Result<(), String> {
        Ok(())
    }
}
