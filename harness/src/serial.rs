//! Types covering serde's data model.
use crate::common::*;
use core::fmt;
use serde::de::{DeserializeOwned, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, Serializer};
use serde::{Deserialize, Serialize};
use core::sync::atomic::{AtomicU8, Ordering::Relaxed};
use std::collections::BTreeMap;

/// Both ways of serializing; hands the value read back to `eq`.
#[inline(never)]
pub fn trip<T: Serialize + DeserializeOwned>(v: &T, eq: &dyn Fn(&T) -> bool) {
    let back: T = if choice(2) == 0 {
        let b = need_ok!(to_bytes(v), "serializing fails");
        need_ok!(from_bytes(&b), "deserializing fails")
    } else {
        let s = need_ok!(to_bytes_with_shared_keys(v), "serializing with shared keys fails");
        let r = need_ok!(from_bytes(&need!(s.data(), "data")), "deserializing with shared keys fails");
        cover(50);
        r
    };
    check!(eq(&back), "another value");
}
/// Equality; numbers bit for bit except that a NaN may be another NaN.
pub trait Same { fn same(&self, o: &Self) -> bool; }
macro_rules! same_by_eq { ($($t:ty)*) => { $(impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } })* } }
same_by_eq! { bool i8 i16 i32 i64 u8 u16 u32 u64 char }
impl Same for () { fn same(&self, _: &Self) -> bool { true } }
impl Same for f32 { fn same(&self, o: &Self) -> bool { if self.is_nan() { o.is_nan() } else { self.to_bits() == o.to_bits() } } }
impl Same for f64 { fn same(&self, o: &Self) -> bool { if self.is_nan() { o.is_nan() } else { self.to_bits() == o.to_bits() } } }
impl Same for String { fn same(&self, o: &Self) -> bool { same(self.as_bytes(), o.as_bytes()) } }
impl<T: Same> Same for Vec<T> { fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) } }
impl<T: Same> Same for Option<T> { fn same(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false } } }
impl<T: Same> Same for Box<T> { fn same(&self, o: &Self) -> bool { (**self).same(&**o) } }
impl<A: Same, B: Same> Same for (A, B) { fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) } }
impl<A: Same, B: Same, C: Same> Same for (A, B, C) { fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) } }

#[derive(Serialize, Deserialize)]
pub struct Unit;
impl Same for Unit { fn same(&self, _: &Self) -> bool { true } }
#[derive(Serialize, Deserialize)]
pub struct New<T>(pub T);
impl<T: Same> Same for New<T> { fn same(&self, o: &Self) -> bool { self.0.same(&o.0) } }
#[derive(Serialize, Deserialize)]
pub struct Pair<A, B>(pub A, pub B);
impl<A: Same, B: Same> Same for Pair<A, B> { fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) } }
#[derive(Serialize, Deserialize)]
pub struct Three<A, B, C> {
    pub v: A,
    pub other_field: B,
    #[serde(rename = "a name that is no key")]
    pub c: C,
}
impl<A: Same, B: Same, C: Same> Same for Three<A, B, C> { fn same(&self, o: &Self) -> bool { self.v.same(&o.v) && self.other_field.same(&o.other_field) && self.c.same(&o.c) } }
#[derive(Serialize, Deserialize)]
pub enum Any<A, B> { Unit, N(A), Two(A, B), Fields { v: A, other_field: B }, Nothing(), Empty {}, AVeryLongVariantName(B) }
impl<A: Same, B: Same> Same for Any<A, B> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Any::Unit, Any::Unit) | (Any::Nothing(), Any::Nothing()) | (Any::Empty {}, Any::Empty {}) => true,
            (Any::N(a), Any::N(b)) => a.same(b),
            (Any::Two(a, b), Any::Two(c, d)) => a.same(c) && b.same(d),
            (Any::Fields { v: a, other_field: b }, Any::Fields { v: c, other_field: d }) => a.same(c) && b.same(d),
            (Any::AVeryLongVariantName(a), Any::AVeryLongVariantName(b)) => a.same(b),
            _ => false,
        }
    }
}
/// serialize_bytes
pub struct Blob(pub Vec<u8>);
impl Same for Blob { fn same(&self, o: &Self) -> bool { same(&self.0, &o.0) } }
impl Serialize for Blob { fn serialize<S: Serializer>(&self, s: S) -> core::result::Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } }
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: Deserializer<'de>>(d: D) -> core::result::Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Blob;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("bytes") }
            fn visit_bytes<E>(self, v: &[u8]) -> core::result::Result<Blob, E> { Ok(Blob(v.to_vec())) }
        }
        if choice(2) == 0 { d.deserialize_bytes(V) } else { d.deserialize_byte_buf(V) }
    }
}
/// A sequence whose length is not announced.
pub struct Seq<T>(pub Vec<T>);
impl<T: Same> Same for Seq<T> { fn same(&self, o: &Self) -> bool { self.0.same(&o.0) } }
impl<T: Serialize> Serialize for Seq<T> {
    fn serialize<S: Serializer>(&self, s: S) -> core::result::Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(None)?;
        for x in &self.0 { q.serialize_element(x)? }
        q.end()
    }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Seq<T> { fn deserialize<D: Deserializer<'de>>(d: D) -> core::result::Result<Self, D::Error> { Vec::deserialize(d).map(Seq) } }
/// A map in the order given, its pairs serialized in one call or two.
pub struct Pairs<K, V>(pub Vec<(K, V)>, pub bool);
impl<K: Same, V: Same> Same for Pairs<K, V> {
    fn same(&self, o: &Self) -> bool { self.0.len() == o.0.len() && self.0.iter().all(|(k, v)| o.0.iter().any(|(l, w)| k.same(l) && v.same(w))) }
}
impl<K: Serialize, V: Serialize> Serialize for Pairs<K, V> {
    fn serialize<S: Serializer>(&self, s: S) -> core::result::Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(if self.1 { Some(self.0.len()) } else { None })?;
        for (k, v) in &self.0 { if self.1 { m.serialize_entry(k, v)? } else { m.serialize_key(k)?; m.serialize_value(v)? } }
        m.end()
    }
}
impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for Pairs<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> core::result::Result<Self, D::Error> {
        struct Vis<K, V>(core::marker::PhantomData<(K, V)>);
        impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Visitor<'de> for Vis<K, V> {
            type Value = Pairs<K, V>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("map") }
            fn visit_map<M: MapAccess<'de>>(self, mut m: M) -> core::result::Result<Self::Value, M::Error> {
                let mut r = Vec::new();
                let hint = m.size_hint();
                while let Some(e) = m.next_entry()? { r.push(e) }
                check!(hint.is_none() || hint == Some(r.len()), "size hint");
                Ok(Pairs(r, true))
            }
        }
        d.deserialize_map(Vis(core::marker::PhantomData))
    }
}

/// A scalar of any type; the type to deserialize is KIND.
pub enum Scalar { I8(i8), U8(u8), I16(i16), U16(u16), I32(i32), U32(u32), I64(i64), U64(u64), F32(f32), F64(f64), Bool(bool), Char(char), Nothing(()), Unit(Unit), Str(String), Bytes(Blob) }
pub static KIND: AtomicU8 = AtomicU8::new(0);
macro_rules! scalar {
    ($($n:literal $v:ident $t:ty,)*) => {
        impl Scalar {
            pub fn kind(&self) -> u8 { match self { $(Scalar::$v(_) => $n,)* } }
        }
        impl Same for Scalar { fn same(&self, o: &Self) -> bool { match (self, o) { $((Scalar::$v(a), Scalar::$v(b)) => a.same(b),)* _ => false } } }
        impl Serialize for Scalar { fn serialize<S: Serializer>(&self, s: S) -> core::result::Result<S::Ok, S::Error> { match self { $(Scalar::$v(x) => x.serialize(s),)* } } }
        impl<'de> Deserialize<'de> for Scalar {
            fn deserialize<D: Deserializer<'de>>(d: D) -> core::result::Result<Self, D::Error> {
                match KIND.load(Relaxed) { $($n => <$t>::deserialize(d).map(Scalar::$v),)* _ => fail("kind") }
            }
        }
    };
}
scalar! { 0 I8 i8, 1 U8 u8, 2 I16 i16, 3 U16 u16, 4 I32 i32, 5 U32 u32, 6 I64 i64, 7 U64 u64, 8 F32 f32, 9 F64 f64, 10 Bool bool, 11 Char char, 12 Nothing (), 13 Unit Unit, 14 Str String, 15 Bytes Blob, }

/// `v` in all places a value can have in a document.
pub fn shapes(v: Scalar) {
    type T = Scalar;
    KIND.store(v.kind(), Relaxed);
    cover(30 + v.kind() as u32);
    let n = choice(14);
    let near = 7u8;
    cover(10 + n as u32);
    fn go<T: Serialize + DeserializeOwned + Same>(v: T) { trip(&v, &|w| v.same(w)) }
    match n {
        0 => go(vec![v]),
        1 => go((near, v, Unit)),
        2 => go(Three { v: near, other_field: v, c: Some(Unit) }),
        3 => go(Three { v: (), other_field: Unit, c: v }),
        4 => go(Any::<u8, T>::AVeryLongVariantName(v)),
        5 => go(Any::<T, u8>::N(v)),
        6 => go(Any::<u8, T>::Two(near, v)),
        7 => go(Any::<u8, T>::Fields { v: near, other_field: v }),
        8 => go(Pair(v, None::<u8>)),
        9 => go(Seq(vec![New(v)])),
        10 => go(New(vec![New(New(v))])),
        11 => go(Pairs(vec![(String::from("k"), v)], choice(2) == 0)),
        12 => {
            let mut m = BTreeMap::new();
            m.insert(String::from("the key"), v);
            trip(&m, &|w| w.len() == 1 && w.iter().all(|(k, x)| same(k.as_bytes(), b"the key") && x.same(&m["the key"])));
        }
        _ => go([Some(v), None].into_iter().collect::<Vec<_>>()),
    }
}
pub fn any_integer() -> Scalar {
    match choice(8) {
        0 => Scalar::I8(any_signed(1) as i8),
        1 => Scalar::U8(u8v()),
        2 => Scalar::I16(any_signed(2) as i16),
        3 => Scalar::U16(any_unsigned(2) as u16),
        4 => Scalar::I32(any_signed(4) as i32),
        5 => Scalar::U32(any_unsigned(4) as u32),
        6 => Scalar::I64(any_i64()),
        _ => Scalar::U64(any_u64()),
    }
}
pub fn any_other() -> Scalar {
    match choice(6) {
        0 => Scalar::F32(f32::from_bits(u32v())),
        1 => Scalar::F64(f64::from_bits(u64v())),
        2 => Scalar::Bool(u8v() & 1 == 1),
        3 => Scalar::Char(any_char()),
        4 => Scalar::Nothing(()),
        _ => Scalar::Unit(Unit),
    }
}
pub fn any_text(n: u64) -> Scalar {
    let n = choice(n) as usize;
    if choice(2) == 0 { Scalar::Str(ascii(n)) } else { Scalar::Bytes(Blob(bytes(n))) }
}
