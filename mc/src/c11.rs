//! C11: serialization and deserialization from arbitrary entry streams.

use crate::elem::*;
use crate::engine::*;
use crate::ensure;
use crate::machine::*;
use crate::setm::*;
use crate::shapes::*;
use crate::subj::*;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, MapAccess, Visitor};
use serde::forward_to_deserialize_any;
use serde::ser::{self, Impossible, Serialize, Serializer};
use std::fmt;

fn pack(k: i64, tag: u32) -> u128 {
    ((k as i128 - i64::MIN as i128) as u128) << 32 | tag as u128
}
fn unpack(x: u128) -> (i64, u32) {
    (((x >> 32) as i128 + i64::MIN as i128) as i64, x as u32)
}

impl Serialize for Key {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.check();
        s.serialize_u128(pack(self.q.0, self.tag))
    }
}
impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.check();
        s.serialize_u128(self.v as u128)
    }
}
struct U128;
impl<'de> Visitor<'de> for U128 {
    type Value = u128;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("u128")
    }
    fn visit_u128<E>(self, x: u128) -> Result<u128, E> {
        Ok(x)
    }
}
impl<'de> Deserialize<'de> for Key {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Key, D::Error> {
        let (k, t) = unpack(d.deserialize_u128(U128)?);
        Ok(Key::new(k, t))
    }
}
impl<'de> Deserialize<'de> for Val {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Val, D::Error> {
        Ok(Val::new(d.deserialize_u128(U128)? as u32))
    }
}

#[derive(Debug, PartialEq)]
pub struct Er(pub String);
impl fmt::Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Er {}
impl de::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Er {
        Er(m.to_string())
    }
}
impl ser::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Er {
        Er(m.to_string())
    }
}

/// One stream: entries, size hint, and where it fails (0 never; 2i+1 at the
/// key of entry i, 2i+2 at its value).
struct Src<'a> {
    es: &'a [Ent],
    hint: Option<usize>,
    fail: usize,
    pos: usize,
    set: bool,
}
const FAIL: &str = "stream failed";

struct Num(u128);
impl<'de> Deserializer<'de> for Num {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_u128(self.0)
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Unit;
impl<'de> Deserializer<'de> for Unit {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_unit()
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

impl<'de, 'a> Deserializer<'de> for Src<'a> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_map(self)
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de, 'a> MapAccess<'de> for Src<'a> {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Er> {
        if self.pos >= self.es.len() {
            return if self.fail == 2 * self.es.len() + 1 { Err(Er(FAIL.into())) } else { Ok(None) };
        }
        if self.fail == 2 * self.pos + 1 {
            return Err(Er(FAIL.into()));
        }
        let e = self.es[self.pos];
        s.deserialize(Num(pack(e.0, e.1))).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, Er> {
        if self.fail == 2 * self.pos + 2 {
            return Err(Er(FAIL.into()));
        }
        let e = self.es[self.pos];
        self.pos += 1;
        if self.set {
            s.deserialize(Unit)
        } else {
            s.deserialize(Num(e.2 as u128))
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint.map(|h| if h > usize::MAX / 2 { h } else { h.saturating_sub(self.pos) })
    }
}

/// `{ "map": <stream> }`
struct Outer<'a>(Option<Src<'a>>);
impl<'de, 'a> Deserializer<'de> for Outer<'a> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_map(self)
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Name;
impl<'de> Deserializer<'de> for Name {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_str("map")
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de, 'a> MapAccess<'de> for Outer<'a> {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Er> {
        if self.0.is_some() {
            s.deserialize(Name).map(Some)
        } else {
            Ok(None)
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, Er> {
        s.deserialize(self.0.take().unwrap())
    }
}

// ---- serialization: record what is emitted

#[derive(Default, Debug, PartialEq)]
struct Rec {
    len: Option<usize>,
    out: Vec<(u128, Option<u128>)>,
    depth: u32,
}
struct Top<'a>(&'a mut Rec);
struct NumS;
macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<Self::Ok, Er> { Err(Er(concat!("unexpected ", stringify!($f)).into())) })* };
}
impl Serializer for NumS {
    type Ok = Option<u128>;
    type Error = Er;
    type SerializeSeq = Impossible<Self::Ok, Er>;
    type SerializeTuple = Impossible<Self::Ok, Er>;
    type SerializeTupleStruct = Impossible<Self::Ok, Er>;
    type SerializeTupleVariant = Impossible<Self::Ok, Er>;
    type SerializeMap = Impossible<Self::Ok, Er>;
    type SerializeStruct = Impossible<Self::Ok, Er>;
    type SerializeStructVariant = Impossible<Self::Ok, Er>;
    fn serialize_u128(self, x: u128) -> Result<Option<u128>, Er> {
        Ok(Some(x))
    }
    fn serialize_unit(self) -> Result<Option<u128>, Er> {
        Ok(None)
    }
    no! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, Er> {
        Err(Er("some".into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Self::Ok, Er> {
        Err(Er("newtype".into()))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, Er> {
        Err(Er("newtype".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Er> {
        Err(Er("seq".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Er> {
        Err(Er("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Er> {
        Err(Er("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Er> {
        Err(Er("struct".into()))
    }
}

struct MapS<'a> {
    rec: &'a mut Rec,
    key: Option<u128>,
}
impl<'a> ser::SerializeMap for MapS<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Er> {
        self.key = k.serialize(NumS)?;
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        let v = v.serialize(NumS)?;
        let k = self.key.take().ok_or(Er("value without key".into()))?;
        self.rec.out.push((k, v));
        Ok(())
    }
    fn end(self) -> Result<(), Er> {
        Ok(())
    }
}
struct StructS<'a>(&'a mut Rec);
impl<'a> ser::SerializeStruct for StructS<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), Er> {
        if n != "map" {
            return Err(Er(format!("unexpected field {n}")));
        }
        v.serialize(Top(self.0))
    }
    fn end(self) -> Result<(), Er> {
        Ok(())
    }
}
/// sets might also be emitted as plain sequences
struct SeqS<'a>(&'a mut Rec);
impl<'a> ser::SerializeSeq for SeqS<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        let k = v.serialize(NumS)?.ok_or(Er("unit element".into()))?;
        self.0.out.push((k, None));
        Ok(())
    }
    fn end(self) -> Result<(), Er> {
        Ok(())
    }
}
impl<'a> Serializer for Top<'a> {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = SeqS<'a>;
    type SerializeTuple = Impossible<(), Er>;
    type SerializeTupleStruct = Impossible<(), Er>;
    type SerializeTupleVariant = Impossible<(), Er>;
    type SerializeMap = MapS<'a>;
    type SerializeStruct = StructS<'a>;
    type SerializeStructVariant = Impossible<(), Er>;
    no! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Er> {
        Err(Er("some".into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Er> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Er> {
        Err(Er("newtype".into()))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<SeqS<'a>, Er> {
        self.0.len = n;
        self.0.depth += 1;
        Ok(SeqS(self.0))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<MapS<'a>, Er> {
        self.0.len = n;
        self.0.depth += 1;
        Ok(MapS { rec: self.0, key: None })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<StructS<'a>, Er> {
        Ok(StructS(self.0))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Er> {
        Err(Er("struct".into()))
    }
}

// ---- the checks

pub trait DeMap: MapSub + Serialize + for<'de> Deserialize<'de> {}
impl<T: MapSub + Serialize + for<'de> Deserialize<'de>> DeMap for T {}
pub trait DeSet: SetSub + Serialize + for<'de> Deserialize<'de> {}
impl<T: SetSub + Serialize + for<'de> Deserialize<'de>> DeSet for T {}

pub fn de_map<M: DeMap>(es: &[Ent], hint: Option<usize>) -> Result<M, String> {
    M::deserialize(Src { es, hint, fail: 0, pos: 0, set: false }).map_err(|e| format!("deserialization fails: {e}"))
}

/// use the map: look everything up, update, remove everything
fn use_map<M: MapSub>(mut m: M, md: &Model) -> Result<(), String> {
    let c = m.clone();
    for e in &md.0 {
        ensure!(m.remove_q(&KQ(e.0)).map(|v| v.v) == Some(e.2), "remove({}) after deserialization", e.0);
        ensure!(m.get_q(&KQ(e.0)).is_none(), "get({}) after remove", e.0);
    }
    ensure!(m.is_empty_(), "not empty after removing every key");
    observe(&c, md, Obs::Light)?;
    let mut c = c;
    for e in &md.0 {
        ensure!(c.insert_(Key::new(e.0 + 1, 9), Val::new(9)).is_none(), "insert after deserialization");
    }
    ensure!(c.len_() == 2 * md.len(), "len after inserting");
    c.check_()?;
    Ok(())
}

fn stream<M: DeMap>(es: &[Ent], hint: Option<usize>, fail: usize, steps: &mut u64) -> Result<(), String> {
    reg().reset();
    let before = alloc_balance();
    *steps += es.len() as u64 + 1;
    let r = M::deserialize(Src { es, hint, fail, pos: 0, set: false });
    if fail > 0 {
        match r {
            Err(e) => ensure!(e.0 == FAIL, "the stream's error came back as {e:?}"),
            Ok(_) => {
                // an error after the entries the hint promised may go unread
                // only when no further item was requested
                return Err("the stream's error was not returned".into());
            }
        }
    } else {
        let m = r.map_err(|e| format!("deserialization fails: {e}"))?;
        let mut md = Model::default();
        es.iter().for_each(|e| {
            md.insert(*e);
        });
        observe(&m, &md, Obs::Full)?;
        use_map(m, &md)?;
    }
    take_fault()?;
    ensure!(reg().live == 0, "{} elements were never dropped", reg().live);
    let d = alloc_balance() - before;
    ensure!(d == 0, "{d} memory blocks leak");
    Ok(())
}

fn sstream<S: DeSet>(es: &[Ent], hint: Option<usize>, fail: usize, steps: &mut u64) -> Result<(), String> {
    reg().reset();
    *steps += es.len() as u64 + 1;
    let r = S::deserialize(Outer(Some(Src { es, hint, fail, pos: 0, set: true })));
    if fail > 0 {
        match r {
            Err(e) => ensure!(e.0 == FAIL, "the stream's error came back as {e:?}"),
            Ok(_) => return Err("the stream's error was not returned".into()),
        }
    } else {
        let s = r.map_err(|e| format!("deserialization fails: {e}"))?;
        let mut md = SModel::default();
        es.iter().for_each(|e| {
            md.insert((e.0, e.1));
        });
        sobserve(&s, &md, Obs::Full)?;
    }
    take_fault()?;
    ensure!(reg().live == 0, "{} elements were never dropped", reg().live);
    Ok(())
}

fn write_stream(name: &str, es: &[Ent], hint: Option<usize>, fail: usize, s: &mut String) {
    use fmt::Write;
    let _ = write!(s, "stream {name} {} {fail} ", hint.map_or("-".to_string(), |h| h.to_string()));
    for (i, e) in es.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, e.0);
    }
}

fn number(keys: &[i64]) -> Vec<Ent> {
    keys.iter().enumerate().map(|(i, k)| (*k, i as u32 + 1, i as u32 + 1000)).collect()
}

fn mcase<M: DeMap>(slot: &mut Slot, es: &[Ent], hint: Option<usize>, fail: usize) {
    slot.case(|s| write_stream(M::NAME, es, hint, fail, s), |n| stream::<M>(es, hint, fail, n));
}
fn scase<S: DeSet>(slot: &mut Slot, es: &[Ent], hint: Option<usize>, fail: usize) {
    slot.case(|s| write_stream(S::NAME, es, hint, fail, s), |n| sstream::<S>(es, hint, fail, n));
}

fn hints(n: usize) -> Vec<Option<usize>> {
    let mut v = vec![None];
    for h in 0..=n + 4 {
        v.push(Some(h));
    }
    for h in [2 * n + 1, 3 * n + 2, 100, 1 << 20, 1 << 32, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX] {
        v.push(Some(h));
    }
    v
}

fn small(ctx: &Ctx, nk: usize, max_len: usize, which: &(dyn Fn(&mut Slot, &[Ent], Option<usize>, usize) + Sync), name: &str) {
    let mut items: Vec<Vec<i64>> = vec![];
    for len in 0..=max_len {
        for x in 0..nk.pow(len as u32) {
            let mut y = x;
            items.push(
                (0..len)
                    .map(|_| {
                        let k = (y % nk) as i64 * 10;
                        y /= nk;
                        k
                    })
                    .collect(),
            );
        }
    }
    ctx.add_states(items.len() as u64);
    ctx.par_for(&items, |slot, keys| {
        let es = number(keys);
        for h in hints(es.len()) {
            for fail in 0..=2 * es.len() + 1 {
                if slot.ctx.stopped() {
                    return;
                }
                which(slot, &es, h, fail);
            }
        }
    });
    ctx.note(format!(
        "streams {name}: all {} streams of at most {max_len} entries over {nk} keys x hints (absent, 0..=n+4, 2n+1, 3n+2, 100, 2^20, 2^32, around usize::MAX/2 and usize::MAX) x an error at every position",
        items.len()
    ));
}

fn perturbed(n: usize) -> Vec<Vec<i64>> {
    let base: Vec<i64> = (0..n as i64).map(|i| i * 10).collect();
    let mut v = vec![base.clone()];
    let mut r = base.clone();
    r.reverse();
    v.push(r);
    for i in 0..n.saturating_sub(1) {
        let mut b = base.clone();
        b.swap(i, i + 1);
        v.push(b);
        let mut b = base.clone();
        b[i + 1] = b[i]; // adjacent duplicate
        v.push(b);
        let mut b = base.clone();
        b.insert(i + 1, base[0]); // duplicate of the first key, out of order
        v.push(b);
        let mut b = base.clone();
        b[i] = base[n - 1]; // duplicate of the last key, early
        v.push(b);
    }
    v
}

fn longer<M: DeMap>(ctx: &Ctx, sizes: &[usize], wide: usize) {
    let mut items = vec![];
    for &n in sizes {
        for k in perturbed(n) {
            items.push(k);
        }
    }
    ctx.par_for(&items, |slot, keys| {
        let es = number(keys);
        let n = es.len();
        let mut hs: Vec<Option<usize>> = vec![None, Some(usize::MAX), Some(usize::MAX / 2), Some(3 * n), Some(1 << 20)];
        let lo = n.saturating_sub(wide);
        for h in lo..=n + wide {
            hs.push(Some(h));
        }
        hs.push(Some(n / 2));
        hs.push(Some(n / 3));
        hs.push(Some(2 * n));
        for h in hs {
            if slot.ctx.stopped() {
                return;
            }
            mcase::<M>(slot, &es, h, 0);
            mcase::<M>(slot, &es, h, n);
        }
    });
    ctx.note(format!(
        "longer streams {}: sizes {sizes:?}, sorted, reversed, and with a swap or duplicate at every position, hints within {wide} of the length and far off",
        M::NAME
    ));
}

/// serialize, check what is emitted, deserialize, compare
fn round_map<M: DeMap>(hist: &[Op], steps: &mut u64) -> Result<(), String> {
    let f = run_history::<M>(hist, usize::MAX, Obs::Light, steps)?;
    *steps += 1;
    for (m, md) in f.hs.iter().flatten() {
        let mut rec = Rec::default();
        m.serialize(Top(&mut rec)).map_err(|e| format!("serialization fails: {e}"))?;
        let want: Vec<(u128, Option<u128>)> = md.0.iter().map(|e| (pack(e.0, e.1), Some(e.2 as u128))).collect();
        ensure!(rec.out == want, "serialization emits {:?}, expected {:?}", rec.out.iter().map(|x| unpack(x.0).0).collect::<Vec<_>>(), md.keys());
        ensure!(rec.len == Some(md.len()), "serialization announces length {:?}, expected {}", rec.len, md.len());
        let es: Vec<Ent> = rec.out.iter().map(|(k, v)| (unpack(*k).0, unpack(*k).1, v.unwrap() as u32)).collect();
        let back = de_map::<M>(&es, rec.len)?;
        observe(&back, md, Obs::Full)?;
        ensure!(back.eq_(m), "the deserialized map differs from the original");
        use_map(back, md)?;
        observe(m, md, Obs::Light)?;
    }
    take_fault()
}
fn round_set<S: DeSet>(hist: &[SOp], steps: &mut u64) -> Result<(), String> {
    let f = run_shistory::<S>(hist, usize::MAX, Obs::Light, steps)?;
    *steps += 1;
    let (s, md) = f.hs[0].as_ref().unwrap();
    let mut rec = Rec::default();
    s.serialize(Top(&mut rec)).map_err(|e| format!("serialization fails: {e}"))?;
    let got: Vec<u128> = rec.out.iter().map(|x| x.0).collect();
    let want: Vec<u128> = md.0.iter().map(|e| pack(e.0, e.1)).collect();
    ensure!(got == want, "serialization emits other elements");
    ensure!(rec.len == Some(md.len()), "serialization announces length {:?}, expected {}", rec.len, md.len());
    let es: Vec<Ent> = md.0.iter().map(|e| (e.0, e.1, 0)).collect();
    let back = S::deserialize(Outer(Some(Src { es: &es, hint: rec.len, fail: 0, pos: 0, set: true })))
        .map_err(|e| format!("deserialization fails: {e}"))?;
    sobserve(&back, md, Obs::Full)?;
    ensure!(back.eq_(s), "the deserialized set differs from the original");
    take_fault()
}

fn rounds<M: DeMap>(ctx: &Ctx, n: usize, sizes: &[usize]) {
    let mut st: Vec<Vec<Op>> = shapes::<M>(ctx, n, 1 << 18).into_iter().map(|s| s.hist).collect();
    for p in PATTERNS {
        for &n in sizes {
            st.push(seed(p, n).hist);
        }
    }
    ctx.par_for(&st, |slot, h| {
        slot.case(
            |s| {
                s.push_str(&format!("round {} ", M::NAME));
                write_ops(h, s);
            },
            |steps| round_map::<M>(h, steps),
        );
    });
    ctx.note(format!("round trips {}: every shape of at most {n} entries and patterns at {sizes:?}", M::NAME));
}
fn srounds<S: DeSet>(ctx: &Ctx, n: usize, sizes: &[usize]) {
    let mut st: Vec<Vec<SOp>> = sshapes::<S>(ctx, n).into_iter().map(|s| s.hist).collect();
    for p in PATTERNS {
        for &n in sizes {
            st.push(to_sops(&seed(p, n).hist));
        }
    }
    ctx.par_for(&st, |slot, h| {
        slot.case(
            |s| {
                s.push_str(&format!("sround {} ", S::NAME));
                write_sops(h, s);
            },
            |steps| round_set::<S>(h, steps),
        );
    });
}

pub fn explore(ctx: &Ctx) {
    let t = ctx.thorough();
    let x = |q: usize, th: usize| if t { th } else { q };
    small(ctx, 3, x(4, 6), &|s, e, h, f| mcase::<Avl>(s, e, h, f), "avl");
    small(ctx, 4, x(4, 5), &|s, e, h, f| mcase::<Avl>(s, e, h, f), "avl");
    small(ctx, 3, x(5, 7), &|s, e, h, f| mcase::<Bt<1>>(s, e, h, f), "bt1");
    small(ctx, 4, x(4, 6), &|s, e, h, f| mcase::<Bt<1>>(s, e, h, f), "bt1");
    small(ctx, 3, x(4, 6), &|s, e, h, f| mcase::<Bt<2>>(s, e, h, f), "bt2");
    small(ctx, 3, x(4, 5), &|s, e, h, f| mcase::<Bt<5>>(s, e, h, f), "bt5");
    small(ctx, 3, x(4, 5), &|s, e, h, f| scase::<AvlS>(s, e, h, f), "avlset");
    small(ctx, 3, x(4, 5), &|s, e, h, f| scase::<BtS<1>>(s, e, h, f), "bts1");
    let sizes: Vec<usize> = (5..=x(40, 90)).collect();
    let mut s2 = sizes.clone();
    s2.push(x(100, 300));
    longer::<Avl>(ctx, &s2, x(6, 12));
    longer::<Bt<1>>(ctx, &s2, x(6, 12));
    longer::<Bt<2>>(ctx, &s2, x(6, 12));
    longer::<Bt<3>>(ctx, &s2, x(6, 12));
    let mut s5: Vec<usize> = (5..=x(60, 170)).collect();
    s5.push(x(150, 400));
    longer::<Bt<5>>(ctx, &s5, x(6, 12));
    longer::<Bt<16>>(ctx, &s5, x(6, 12));
    rounds::<Avl>(ctx, x(9, 11), &[40, 200]);
    rounds::<Bt<1>>(ctx, x(10, 12), &[40, 200]);
    rounds::<Bt<2>>(ctx, x(12, 14), &[40, 200]);
    rounds::<Bt<5>>(ctx, x(14, 20), &[40, 200, 900]);
    rounds::<Bt<16>>(ctx, x(8, 20), &[40, 200, 900]);
    srounds::<AvlS>(ctx, x(8, 10), &[40, 200]);
    srounds::<BtS<1>>(ctx, x(8, 10), &[40, 200]);
    srounds::<BtS<5>>(ctx, x(14, 20), &[40, 200]);
}

pub fn replay(case: &str) -> Result<(), String> {
    let _ = take_fault();
    let (word, rest) = case.split_once(' ').ok_or("bad case")?;
    match word {
        "stream" => {
            let p: Vec<&str> = rest.splitn(4, ' ').collect();
            let h = if p[1] == "-" { None } else { Some(p[1].parse().map_err(|_| "bad case")?) };
            let fail = p[2].parse().map_err(|_| "bad case")?;
            let keys: Vec<i64> = p.get(3).unwrap_or(&"").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let es = number(&keys);
            let n = &mut 0;
            match p[0] {
                "avl" => stream::<Avl>(&es, h, fail, n),
                "bt1" => stream::<Bt<1>>(&es, h, fail, n),
                "bt2" => stream::<Bt<2>>(&es, h, fail, n),
                "bt3" => stream::<Bt<3>>(&es, h, fail, n),
                "bt5" => stream::<Bt<5>>(&es, h, fail, n),
                "bt16" => stream::<Bt<16>>(&es, h, fail, n),
                "avlset" => sstream::<AvlS>(&es, h, fail, n),
                "bts1" => sstream::<BtS<1>>(&es, h, fail, n),
                _ => Err("bad case".into()),
            }
        }
        "round" => {
            let (name, ops) = rest.split_once(' ').ok_or("bad case")?;
            let ops = parse_ops(ops)?;
            match name {
                "avl" => round_map::<Avl>(&ops, &mut 0),
                "bt1" => round_map::<Bt<1>>(&ops, &mut 0),
                "bt2" => round_map::<Bt<2>>(&ops, &mut 0),
                "bt5" => round_map::<Bt<5>>(&ops, &mut 0),
            "bt16" => round_map::<Bt<16>>(&ops, &mut 0),
                _ => Err("bad case".into()),
            }
        }
        "sround" => {
            let (name, ops) = rest.split_once(' ').ok_or("bad case")?;
            let ops = parse_sops(ops)?;
            match name {
                "avlset" => round_set::<AvlS>(&ops, &mut 0),
                "bts1" => round_set::<BtS<1>>(&ops, &mut 0),
                "bts5" => round_set::<BtS<5>>(&ops, &mut 0),
                _ => Err("bad case".into()),
            }
        }
        "map" => crate::c01::replay(case),
        "set" => replay_set(case),
        _ => Err("bad case".into()),
    }
}
