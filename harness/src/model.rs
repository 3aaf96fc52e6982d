//! What a mutable collection should contain.
use crate::common::*;

#[derive(Clone)]
pub enum Item { Small(u8), Big(u8), Text(usize, u8), Double(u64), Array(Vec<Item>), Dict(Vec<(Vec<u8>, Item)>) }

pub const TEXTS: [usize; 8] = [2, 15, 20, 14, 13, 16, 0, 1];
pub fn text(n: usize, x: u8) -> String {
    let mut v = vec![b'a' + (x & 15); n];
    if n > 1 { v[n - 1] = b'A' + (x >> 4) }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn big(x: u8) -> u32 { 0x01_0000 + x as u32 }
/// One of `kinds` (a bitmask) scalars: 0 small integer, 1 large integer, 2 double, 3.. texts of TEXTS
pub fn scalar(kinds: u64) -> Item {
    let mut n = choice(kinds.count_ones() as u64);
    let mut k = 0;
    loop {
        if kinds >> k & 1 == 1 { if n == 0 { break } n -= 1 }
        k += 1;
    }
    let x = u8v();
    match k { 0 => Item::Small(x), 1 => Item::Big(x), 2 => Item::Double((0x4008_1234_5678_9a00 | x as u64) & !0), k => Item::Text(TEXTS[k - 3], x) }
}
/// v reads as the scalar.
pub fn is_scalar(v: &Value, it: &Item) {
    match it {
        Item::Small(x) => check!(v.value_type() == ValueType::Short && v.to_unsigned_int() == *x as u64, "a small integer"),
        Item::Big(x) => check!(v.value_type() == ValueType::UnsignedInt && v.to_unsigned_int() == big(*x) as u64, "a large integer"),
        Item::Double(b) => check!(v.value_type() == ValueType::Double64 && v.to_double().to_bits() == *b, "a double"),
        Item::Text(n, x) => check!(v.value_type() == ValueType::String && same(v.to_str().as_bytes(), text(*n, *x).as_bytes()), "a string"),
        _ => fail("a scalar instead of a collection"),
    }
}
pub fn is_item(v: Option<&Value>, a: Option<&MutableArray>, d: Option<&MutableDict>, it: &Item) {
    match it {
        Item::Array(l) => { check!(v.is_none() && d.is_none(), "kind of element"); is_array(need!(a, "an array"), l) }
        Item::Dict(l) => { check!(v.is_none() && a.is_none(), "kind of element"); is_dict(need!(d, "a dict"), l) }
        _ => { check!(a.is_none() && d.is_none(), "kind of element"); is_scalar(need!(v, "an element is missing"), it) }
    }
}
pub fn is_array(m: &MutableArray, l: &[Item]) {
    check!(m.len() == l.len() && m.is_empty() == l.is_empty(), "length");
    for (i, it) in l.iter().enumerate() { is_item(m.get(i), m.get_array(i), m.get_dict(i), it) }
    for i in [l.len(), usize::MAX] { check!(m.get(i).is_none() && m.get_array(i).is_none() && m.get_dict(i).is_none(), "an element beyond the end") }
    let mut it = m.iter();
    for i in 0..=l.len() {
        let (lo, hi) = it.size_hint();
        check!(lo <= l.len() - i && hi.map_or(true, |h| h >= l.len() - i), "size hint");
        match it.next() {
            None => check!(i == l.len(), "iteration ends early"),
            Some(r) => {
                check!(i < l.len(), "iteration doesn't end");
                check!(r.is_value() == r.value().is_some() && r.is_array() == r.array().is_some() && r.is_dict() == r.dict().is_some(), "kind of a reference");
                is_item(r.value(), r.array(), r.dict(), &l[i]);
            }
        }
    }
}
fn key(k: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(k) } }
pub fn position(l: &[(Vec<u8>, Item)], k: &[u8]) -> Option<usize> { l.iter().position(|x| same(&x.0, k)) }
pub fn is_dict(m: &MutableDict, l: &[(Vec<u8>, Item)]) {
    check!(m.len() == l.len() && m.is_empty() == l.is_empty(), "number of keys");
    for (k, it) in l {
        let k = key(k);
        check!(m.contains_key(k), "a key is missing");
        is_item(m.get(k), m.get_array(k), m.get_dict(k), it);
    }
    let mut seen = vec![false; l.len()];
    let mut n = 0;
    let mut it = m.iter();
    loop {
        let (lo, hi) = it.size_hint();
        check!(lo <= l.len() - n && hi.map_or(true, |h| h >= l.len() - n), "size hint");
        let Some((k, r)) = it.next() else { break };
        check!(n < l.len(), "iteration doesn't end");
        n += 1;
        let i = need!(position(l, k.as_bytes()), "iteration gives a key that isn't there");
        check!(!seen[i], "iteration repeats a key");
        seen[i] = true;
        is_item(r.value(), r.array(), r.dict(), &l[i].1);
    }
    check!(n == l.len(), "iteration leaves a key out");
}
/// The model of a list after `set`, `push` and so on.
pub fn put(l: &mut Vec<(Vec<u8>, Item)>, k: Vec<u8>, it: Item) {
    match position(l, &k) { Some(i) => l[i].1 = it, None => l.push((k, it)) }
}
