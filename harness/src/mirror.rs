//! Comparing values, and mutable collections with what they were copied from.
use crate::common::*;

/// 0 null, 1 undefined, 2 bool, 3 integer, 4 float, 5 string, 6 data, 7 array, 8 dict
pub fn class(t: &ValueType) -> u8 {
    match t {
        ValueType::Null => 0,
        ValueType::Undefined => 1,
        ValueType::False | ValueType::True => 2,
        ValueType::Short | ValueType::Int | ValueType::UnsignedInt => 3,
        ValueType::Float | ValueType::Double32 | ValueType::Double64 => 4,
        ValueType::String => 5,
        ValueType::Data => 6,
        ValueType::Array => 7,
        ValueType::Dict => 8,
        ValueType::Pointer => 9,
    }
}
/// A scalar reads the same.  `exact`: down to the value type.
pub fn same_scalar(a: &Value, b: &Value, exact: bool) {
    let (ta, tb) = (a.value_type(), b.value_type());
    check!(class(&ta) == class(&tb), "another kind of value");
    if exact { check!(ta == tb, "another value type") }
    check!((ta == ValueType::Float) == (tb == ValueType::Float), "a float is not a double");
    match class(&ta) {
        0 | 1 => {}
        2 => check!(a.to_bool() == b.to_bool(), "another boolean"),
        3 => {
            check!(a.to_int() == b.to_int() && a.to_unsigned_int() == b.to_unsigned_int(), "another integer");
            // the sign survives, too
            check!((ta == ValueType::UnsignedInt || a.to_int() >= 0) == (tb == ValueType::UnsignedInt || b.to_int() >= 0), "another integer");
        }
        4 => {
            let (x, y) = (a.to_double(), b.to_double());
            check!(x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()), "another number");
        }
        5 => check!(same(a.to_str().as_bytes(), b.to_str().as_bytes()), "another string"),
        6 => check!(same(a.to_data(), b.to_data()), "other data"),
        _ => fail("not a scalar"),
    }
}
pub fn same_value(a: &Value, b: &Value, exact: bool) {
    check!(class(&a.value_type()) == class(&b.value_type()), "another kind of value");
    match (a.as_array(), b.as_array()) {
        (Some(x), Some(y)) => return same_array(x, y, exact),
        (None, None) => {}
        _ => fail("array or not"),
    }
    match (a.as_dict(), b.as_dict()) {
        (Some(x), Some(y)) => same_dict(x, y, exact),
        (None, None) => same_scalar(a, b, exact),
        _ => fail("dict or not"),
    }
}
pub fn same_array(a: &Array, b: &Array, exact: bool) {
    check!(a.len() == b.len(), "another number of elements");
    for i in 0..a.len() { same_value(need!(a.get(i), "element"), need!(b.get(i), "element"), exact) }
}
/// Every pair of a by iteration, looked up in b.
pub fn same_dict(a: &Dict, b: &Dict, exact: bool) {
    check!(a.len() == b.len(), "another number of keys");
    let mut n = 0;
    for (k, v) in a { n += 1; same_value(v, need!(b.get(k), "a key is missing"), exact) }
    check!(n == a.len(), "iteration of a dict");
    let mut n = 0;
    for (k, _) in b { n += 1; check!(a.get(k).is_some(), "a key that was not there") }
    check!(n == b.len(), "iteration of a dict");
}
pub fn copy_of_array(m: &MutableArray, a: &Array, exact: bool) {
    check!(m.len() == a.len() && m.is_empty() == a.is_empty(), "length of the copy");
    for i in 0..a.len() {
        let v = need!(a.get(i), "element");
        copy_of(m.get(i), m.get_array(i), m.get_dict(i), v, exact);
    }
    check!(m.get(a.len()).is_none() && m.get_array(a.len()).is_none() && m.get_dict(a.len()).is_none(), "an element beyond the end");
    let mut i = 0;
    for r in m {
        check!(r.is_value() == r.value().is_some() && r.is_array() == r.array().is_some() && r.is_dict() == r.dict().is_some(), "kind of a reference");
        copy_of(r.value(), r.array(), r.dict(), need!(a.get(i), "element"), exact);
        i += 1;
    }
    check!(i == a.len(), "iteration of the copy");
}
pub fn copy_of_dict(m: &MutableDict, d: &Dict, exact: bool) {
    check!(m.len() == d.len() && m.is_empty() == d.is_empty(), "number of keys of the copy");
    let mut n = 0;
    for (k, v) in d {
        n += 1;
        check!(m.contains_key(k), "the copy lacks a key");
        copy_of(m.get(k), m.get_array(k), m.get_dict(k), v, exact);
    }
    check!(n == d.len(), "iteration of the source");
    let mut n = 0;
    for (k, r) in m {
        n += 1;
        check!(r.is_value() == r.value().is_some() && r.is_array() == r.array().is_some() && r.is_dict() == r.dict().is_some(), "kind of a reference");
        copy_of(r.value(), r.array(), r.dict(), need!(d.get(k), "the copy has a key of its own"), exact);
    }
    check!(n == m.len(), "iteration of the copy");
}
fn copy_of(v: Option<&Value>, a: Option<&MutableArray>, d: Option<&MutableDict>, source: &Value, exact: bool) {
    match class(&source.value_type()) {
        7 => { check!(v.is_none() && d.is_none(), "kind of element"); copy_of_array(need!(a, "kind of element"), need!(source.as_array(), "array"), exact) }
        8 => { check!(v.is_none() && a.is_none(), "kind of element"); copy_of_dict(need!(d, "kind of element"), need!(source.as_dict(), "dict"), exact) }
        _ => { check!(a.is_none() && d.is_none(), "kind of element"); same_scalar(need!(v, "element"), source, exact) }
    }
}
