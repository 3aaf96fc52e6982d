//! C20: what can't be represented or doesn't match is refused.
use crate::common::*;
use crate::hist::*;
use crate::mirror::class;
use crate::serial::*;
use fleece::error::SerializeError;
use serde::de::{Deserialize, DeserializeOwned};
use serde::ser::{Serialize, SerializeMap, Serializer};
use std::sync::Arc;

#[inline(never)]
fn serialize<T: Serialize>(v: &T) -> core::result::Result<(), fleece::Error> {
    if choice(2) == 0 { to_bytes(v).map(|_| ()) } else { to_bytes_with_shared_keys(v).map(|_| ()) }
}
fn no_collection<T: Serialize>(v: &T) {
    match serialize(v) {
        Err(fleece::Error::Serialize(SerializeError::ValueNotCollection)) => cover(1),
        Err(_) => fail("another error"),
        Ok(_) => fail("a scalar becomes a document"),
    }
}
fn bad_key<K: Serialize>(k: K) {
    let v = Pairs(vec![(k, 5u8)], choice(2) == 0);
    let r = match choice(4) {
        0 => serialize(&v),
        1 => serialize(&(3u8, v)),
        2 => serialize(&Any::<u8, _>::Fields { v: 7, other_field: v }),
        _ => serialize(&Pairs(vec![(String::from("good"), v)], true)),
    };
    match r {
        Err(fleece::Error::Serialize(SerializeError::KeyNotString(_))) => cover(1),
        Err(_) => fail("another error"),
        Ok(_) => fail("a key which isn't a string is accepted"),
    }
}

/// What a value is as a `T`, if it is one.
trait Judge: Sized { fn judge(v: &Value) -> Option<Self>; }
fn integer(v: &Value) -> Option<i128> {
    match v.value_type() {
        ValueType::UnsignedInt => Some(v.to_unsigned_int() as i128),
        ValueType::Short | ValueType::Int => Some(v.to_int() as i128),
        _ => None,
    }
}
macro_rules! judge_int { ($($t:ident)*) => { $(impl Judge for $t {
    fn judge(v: &Value) -> Option<Self> {
        // compared in the width at hand, which is easier to solve
        match v.value_type() {
            ValueType::UnsignedInt => $t::try_from(v.to_unsigned_int()).ok(),
            ValueType::Short | ValueType::Int => $t::try_from(v.to_int()).ok(),
            _ => None,
        }
    }
})* } }
judge_int! { i8 u8 i16 u16 i32 u32 i64 u64 }
impl Judge for bool { fn judge(v: &Value) -> Option<Self> { if class(&v.value_type()) == 2 { Some(v.to_bool()) } else { None } } }
impl Judge for f64 {
    fn judge(v: &Value) -> Option<Self> {
        match v.value_type() {
            ValueType::UnsignedInt => Some(v.to_unsigned_int() as f64),
            ValueType::Short | ValueType::Int => Some(v.to_int() as f64),
            ValueType::Float | ValueType::Double32 | ValueType::Double64 => Some(v.to_double()),
            _ => None,
        }
    }
}
impl Judge for f32 {
    fn judge(v: &Value) -> Option<Self> {
        match v.value_type() {
            ValueType::UnsignedInt => Some(v.to_unsigned_int() as f32),
            ValueType::Short | ValueType::Int => Some(v.to_int() as f32),
            ValueType::Float => Some(v.to_float()),
            ValueType::Double32 | ValueType::Double64 => Some(v.to_double() as f32),
            _ => None,
        }
    }
}
impl Judge for String {
    fn judge(v: &Value) -> Option<Self> {
        match v.value_type() {
            ValueType::String => Some(v.to_str().into()),
            // serde takes UTF-8 for a string
            ValueType::Data => core::str::from_utf8(v.to_data()).ok().map(Into::into),
            _ => None,
        }
    }
}
impl Judge for char {
    fn judge(v: &Value) -> Option<Self> {
        if v.value_type() != ValueType::String { return None }
        let mut c = v.to_str().chars();
        match (c.next(), c.next()) { (Some(x), None) => Some(x), _ => None }
    }
}
impl Judge for Blob { fn judge(v: &Value) -> Option<Self> { if v.value_type() == ValueType::Data { Some(Blob(v.to_data().into())) } else { None } } }
impl Judge for () { fn judge(v: &Value) -> Option<Self> { if v.value_type() == ValueType::Undefined { Some(()) } else { None } } }
impl Judge for Unit { fn judge(v: &Value) -> Option<Self> { <()>::judge(v).map(|_| Unit) } }
impl<T: Judge> Judge for New<T> { fn judge(v: &Value) -> Option<Self> { T::judge(v).map(New) } }
impl<T: Judge> Judge for Option<T> { fn judge(v: &Value) -> Option<Self> { if v.value_type() == ValueType::Null { Some(None) } else { T::judge(v).map(Some) } } }
impl<T: Judge> Judge for Vec<T> { fn judge(v: &Value) -> Option<Self> { let a = v.as_array()?; (0..a.len()).map(|i| T::judge(a.get(i)?)).collect() } }
// serde ignores what there is beyond the elements of a tuple
impl<A: Judge, B: Judge> Judge for (A, B) { fn judge(v: &Value) -> Option<Self> { let a = v.as_array()?; Some((A::judge(a.get(0)?)?, B::judge(a.get(1)?)?)) } }
impl<A: Judge, B: Judge> Judge for Pair<A, B> { fn judge(v: &Value) -> Option<Self> { <(A, B)>::judge(v).map(|(a, b)| Pair(a, b)) } }
impl<V: Judge> Judge for Pairs<String, V> {
    fn judge(v: &Value) -> Option<Self> {
        let d = v.as_dict()?;
        let mut r = Vec::new();
        for (k, x) in d { r.push((k.into(), V::judge(x)?)) }
        // keys without a meaning end the iteration
        if r.len() == d.len() { Some(Pairs(r, true)) } else { None }
    }
}
impl<A: Judge, B: Judge, C: Judge> Judge for Three<A, B, Option<C>> {
    fn judge(v: &Value) -> Option<Self> {
        let d = v.as_dict()?;
        Some(Three { v: A::judge(d.get("v")?)?, other_field: B::judge(d.get("other_field")?)?, c: match d.get("a name that is no key") { None => None, Some(x) => Option::judge(x)? } })
    }
}
impl<A: Judge, B: Judge> Judge for Any<A, B> {
    fn judge(v: &Value) -> Option<Self> {
        let a = v.as_array()?;
        let first = a.get(0)?;
        // serde also takes a variant's index for its name
        const NAMES: [&str; 7] = ["Unit", "N", "Two", "Fields", "Nothing", "Empty", "AVeryLongVariantName"];
        let i = match first.value_type() {
            ValueType::String => NAMES.iter().position(|n| same(n.as_bytes(), first.to_str().as_bytes()))?,
            ValueType::Data => NAMES.iter().position(|n| same(n.as_bytes(), first.to_data()))?,
            ValueType::UnsignedInt => first.to_unsigned_int() as usize,
            _ => return None,
        };
        if i == 0 { return if a.len() == 1 { Some(Any::Unit) } else { None } }
        let x = a.get(1)?;
        match i {
            1 => A::judge(x).map(Any::N),
            6 => B::judge(x).map(Any::AVeryLongVariantName),
            2 => { if x.as_array()?.len() != 2 { return None } <(A, B)>::judge(x).map(|(a, b)| Any::Two(a, b)) }
            4 => { if x.as_array()?.len() == 0 { Some(Any::Nothing()) } else { None } }
            3 => { let d = x.as_dict()?; if d.len() != 2 { return None } Some(Any::Fields { v: A::judge(d.get("v")?)?, other_field: B::judge(d.get("other_field")?)? }) }
            5 => { if x.as_dict()?.len() == 0 { Some(Any::Empty {}) } else { None } }
            _ => None,
        }
    }
}
#[inline(never)]
fn judged<T: Judge + Same + DeserializeOwned>(b: &[u8], v: &Value) {
    let r: core::result::Result<T, _> = from_bytes(b);
    // what isn't a string reads as an empty key, but isn't one
    if let Some(d) = v.as_dict() { if d.into_iter().any(|(k, _)| k.is_empty()) { return } }
    match (T::judge(v), r) {
        (Some(x), Ok(y)) => { check!(x.same(&y), "another value than the document's"); cover(3) }
        (None, Err(_)) => cover(4),
        (Some(_), Err(_)) => fail("what matches is refused"),
        (None, Ok(_)) => fail("what doesn't match is accepted"),
    }
}
/// The document as each of many types.
fn as_any_type(b: &[u8], v: &Value, collections: bool) {
    match choice(if collections { 25 } else { 17 }) {
        0 => judged::<i8>(b, v),
        1 => judged::<u8>(b, v),
        2 => judged::<i16>(b, v),
        3 => judged::<u16>(b, v),
        4 => judged::<i32>(b, v),
        5 => judged::<u32>(b, v),
        6 => judged::<i64>(b, v),
        7 => judged::<u64>(b, v),
        8 => judged::<f32>(b, v),
        9 => judged::<f64>(b, v),
        10 => judged::<bool>(b, v),
        11 => judged::<char>(b, v),
        12 => judged::<()>(b, v),
        13 => judged::<New<Unit>>(b, v),
        14 => judged::<String>(b, v),
        15 => judged::<Blob>(b, v),
        16 => judged::<Option<u8>>(b, v),
        17 => judged::<Vec<u8>>(b, v),
        18 => judged::<(u8, Option<bool>)>(b, v),
        19 => judged::<Pair<Unit, String>>(b, v),
        20 => judged::<Pairs<String, u16>>(b, v),
        21 => judged::<Any<u8, Option<u16>>>(b, v),
        22 => judged::<Vec<New<Option<i8>>>>(b, v),
        23 => judged::<Option<Vec<Vec<bool>>>>(b, v),
        _ => judged::<Pairs<String, Option<String>>>(b, v),
    }
}
/// Serializes a map in another order than keys and values alternately.
struct Wrong(u64);
impl Serialize for Wrong {
    fn serialize<S: Serializer>(&self, s: S) -> core::result::Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(2))?;
        match self.0 {
            0 => { m.serialize_key("a")?; m.serialize_key("b")?; m.serialize_value(&1u8)? }
            1 => m.serialize_value(&1u8)?,
            2 => { m.serialize_key("a")?; m.serialize_value(&1u8)?; m.serialize_value(&2u8)? }
            _ => m.serialize_key("a")?,
        }
        m.end()
    }
}
/// Some value or other, in a dict or an array.
fn some_value(e: &mut Encoder, kinds: u64) {
    match choice(kinds) {
        0 => need_ok!(e.write_value(u8v()), "write_value"),
        1 => need_ok!(e.write_value(NullValue), "write_value"),
        2 => need_ok!(e.write_value("v"), "write_value"),
        3 => { let n = choice(4); need_ok!(e.begin_array(2), "begin_array"); for i in 0..n { need_ok!(e.write_value(i), "write_value") } need_ok!(e.end_array(), "end_array") }
        4 => some_dict(e),
        5 => { need_ok!(e.begin_array(2), "begin_array"); need_ok!(e.write_value(1u8), "write_value"); need_ok!(e.write_value("w"), "write_value"); need_ok!(e.end_array(), "end_array") }
        6 => need_ok!(e.write_value(u16v()), "write_value"),
        _ => need_ok!(e.write_value(true), "write_value"),
    }
}
fn some_dict(e: &mut Encoder) {
    need_ok!(e.begin_dict(), "begin_dict");
    for k in ["v", "other_field", "x"] {
        match choice(3) {
            0 => continue,
            1 => { need_ok!(e.write_key(k), "write_key"); need_ok!(e.write_value(u8v()), "write_value") }
            _ => { need_ok!(e.write_key(k), "write_key"); need_ok!(e.write_value("w"), "write_value") }
        }
    }
    need_ok!(e.end_dict(), "end_dict");
}
fn finished<T: Judge + Same + DeserializeOwned>(e: Encoder) {
    let s = e.finish_scoped();
    let root = need!(s.root(), "the document does not decode");
    judged::<T>(&need!(s.data(), "data"), &root);
}
harnesses! {
    fn h_c20_scalars() {
        let s = match choice(3) { 0 => any_integer(), 1 => any_other(), _ => any_text(param(0)) };
        match choice(4) {
            0 => no_collection(&s),
            1 => no_collection(&New(s)),
            2 => no_collection(&Some(s)),
            _ => no_collection(&None::<Vec<u8>>),
        }
    }
    fn h_c20_keys() {
        match choice(12) {
            0 => bad_key(any_integer()),
            1 => { let s = any_other(); if !matches!(s, Scalar::Char(_)) { bad_key(s) } }
            2 => bad_key(Blob(bytes(2))),
            3 => bad_key(None::<String>),
            4 => bad_key(Any::<u8, String>::Unit),
            5 => bad_key(Any::<u8, String>::N(1)),
            6 => bad_key(Any::<u8, String>::Two(1, String::new())),
            7 => bad_key(Any::<u8, String>::Fields { v: 1, other_field: String::new() }),
            8 => bad_key((String::new(), 4u8)),
            9 => bad_key(vec!["a"]),
            10 => bad_key(Pair("a", "b")),
            _ => bad_key(Pairs(vec![("a", "b")], false)),
        }
    }
    /// a Serialize that doesn't keep to the rules
    fn h_c20_order() {
        let w = Wrong(choice(4));
        let r = match choice(2) { 0 => serialize(&w), _ => serialize(&vec![w]) };
        check!(r.is_err(), "keys and values in disorder are accepted");
        cover(1);
    }
    /// [longest / 2]  any bytes at all, as every type
    fn h_c20_any() {
        let b = bytes(choice(param(0)) as usize);
        match Value::from_bytes(&b) {
            Err(_) => { check!(from_bytes::<u8>(&b).is_err() && from_bytes::<Option<Vec<u8>>>(&b).is_err() && from_bytes::<Any<u8, u8>>(&b).is_err(), "an invalid document is deserialized"); cover(2) }
            Ok(v) => as_any_type(&b, v, true),
        }
    }
    /// [longest / 2]  any scalar behind a pointer
    fn h_c20_pointed() {
        let n = 2 + 2 * choice(param(0)) as usize;
        let mut b = bytes(n);
        b.extend_from_slice(&[0x80, (n / 2) as u8]);
        if let Ok(v) = Value::from_bytes(&b) { if class(&v.value_type()) < 7 { as_any_type(&b, v, false) } }
    }
    /// arrays that could be enums  [kinds of value]
    fn h_c20_enums() {
        let mut e = Encoder::new();
        if choice(2) == 1 { e.set_shared_keys(SharedKeys::new()) }
        need_ok!(e.begin_array(3), "begin_array");
        let n = choice(4);
        if n > 0 {
            match choice(11) {
                7 => need_ok!(e.write_value("None of them"), "write_value"),
                8 => need_ok!(e.write_value(u8v()), "write_value"),
                9 => some_value(&mut e, param(0)),
                10 => need_ok!(e.write_value(array::<4>().as_slice()), "write_value"),
                i => need_ok!(e.write_value(["Unit", "N", "Two", "Fields", "Nothing", "Empty", "AVeryLongVariantName"][i as usize]), "write_value"),
            }
        }
        if n > 1 { some_value(&mut e, param(0)) }
        if n > 2 { need_ok!(e.write_value(NullValue), "write_value") }
        need_ok!(e.end_array(), "end_array");
        finished::<Any<u8, Option<u16>>>(e);
    }
    /// dicts that could be structs  [kinds of value]
    fn h_c20_structs() {
        let mut e = Encoder::new();
        if choice(2) == 1 { e.set_shared_keys(SharedKeys::new()) }
        need_ok!(e.begin_dict(), "begin_dict");
        for k in ["v", "other_field", "a name that is no key", "unknown"] {
            if choice(2) == 1 { need_ok!(e.write_key(k), "write_key"); some_value(&mut e, param(0)) }
        }
        need_ok!(e.end_dict(), "end_dict");
        finished::<Three<u8, u16, Option<u8>>>(e);
    }
    /// every document of some calls, as every type  [operations, set of operations, with shared keys]
    fn h_c20_history() {
        let mut m = Model::new();
        let mut e = Encoder::new();
        if param(2) == 1 { e.set_shared_keys(SharedKeys::new()) }
        for i in 0..param(0) {
            let o = any_op(param(1), i as u8);
            assume(m.apply(o));
            if !call(&mut e, o) { fail("a call that is in order fails") }
        }
        if m.nodes.is_empty() { return }
        let s = e.finish_scoped();
        let root = need!(s.root(), "the document does not decode");
        as_any_type(&need!(s.data(), "data"), &root, true);
        cover(5);
    }
}
