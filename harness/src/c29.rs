//! C29: formatting ends, stays in bounds, and shows what is there.
//! (Engine: the formatting machinery is executed in harnesses whose name contains "_debug".)
use crate::common::*;
use crate::mirror::*;
use core::fmt::{self, Write};
use std::sync::Arc;

struct Sink { out: Vec<u8> }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result { self.out.extend_from_slice(s.as_bytes()); Ok(()) }
}
fn shown<T: fmt::Debug + ?Sized>(v: &T) -> Vec<u8> {
    let mut s = Sink { out: Vec::new() };
    check!(write!(s, "{:?}", v).is_ok(), "formatting fails");
    s.out
}
fn pretty<T: fmt::Debug + ?Sized>(v: &T) -> Vec<u8> {
    let mut s = Sink { out: Vec::new() };
    check!(write!(s, "{:#?}", v).is_ok(), "formatting fails");
    s.out
}
fn text<T: fmt::Display + ?Sized>(v: &T) -> Vec<u8> {
    let mut s = Sink { out: Vec::new() };
    check!(write!(s, "{}", v).is_ok(), "formatting fails");
    s.out
}
/// modulo 2^64
fn decimal(b: &[u8]) -> Option<u64> {
    let (neg, d) = match b.first() { Some(b'-') => (true, &b[1..]), _ => (false, b) };
    if d.is_empty() || d.len() > 20 || (d.len() > 1 && d[0] == b'0') { return None }
    let mut x = 0u64;
    for c in d { if !c.is_ascii_digit() { return None } x = x.wrapping_mul(10).wrapping_add((*c - b'0') as u64); }
    Some(if neg { x.wrapping_neg() } else { x })
}
fn name(t: &ValueType) -> &'static str {
    match t {
        ValueType::Null => "Null", ValueType::Undefined => "Undefined", ValueType::False => "False", ValueType::True => "True",
        ValueType::Short => "Short", ValueType::Int => "Int", ValueType::UnsignedInt => "UnsignedInt",
        ValueType::Float => "Float", ValueType::Double32 => "Double32", ValueType::Double64 => "Double64",
        ValueType::String => "String", ValueType::Data => "Data", ValueType::Array => "Array", ValueType::Dict => "Dict", ValueType::Pointer => "Pointer",
    }
}
/// What stands between the parentheses behind the kind.
fn inner<'a>(s: &'a [u8], t: &ValueType) -> &'a [u8] {
    let n = name(t).as_bytes();
    check!(s.len() >= n.len() + 2 && same(&s[..n.len()], n) && s[n.len()] == b'(' && s[s.len() - 1] == b')', "the kind of a value shown");
    &s[n.len() + 1..s.len() - 1]
}
fn digits(out: &mut Vec<u8>, x: i64) {
    if x < 0 { out.push(b'-') }
    let mut x = x.unsigned_abs(); let mut d = Vec::new();
    loop { d.push(b'0' + (x % 10) as u8); x /= 10; if x == 0 { break } }
    d.reverse(); out.extend_from_slice(&d);
}
/// How a value of small integers, plain strings and collections of those reads.
fn expect(out: &mut Vec<u8>, v: &Value) {
    out.extend_from_slice(name(&v.value_type()).as_bytes());
    out.push(b'(');
    match v.value_type() {
        ValueType::Null => out.extend_from_slice(b"\"Null\""),
        ValueType::True => out.extend_from_slice(b"\"True\""),
        ValueType::Short => digits(out, v.to_short() as i64),
        ValueType::Int => digits(out, v.to_int()),
        ValueType::String => { out.push(b'"'); out.extend_from_slice(v.to_str().as_bytes()); out.push(b'"') }
        ValueType::Array => expect_array(out, need!(v.as_array(), "array")),
        ValueType::Dict => expect_dict(out, need!(v.as_dict(), "dict")),
        _ => fail("not written"),
    }
    out.push(b')');
}
fn expect_array(out: &mut Vec<u8>, a: &Array) {
    out.push(b'[');
    for i in 0..a.len() { if i > 0 { out.extend_from_slice(b", ") } expect(out, need!(a.get(i), "element")) }
    out.push(b']');
}
fn expect_dict(out: &mut Vec<u8>, d: &Dict) {
    out.push(b'{');
    let mut first = true;
    for (k, v) in d { if !first { out.extend_from_slice(b", ") } first = false; out.push(b'"'); out.extend_from_slice(k.as_bytes()); out.extend_from_slice(b"\": "); expect(out, v) }
    out.push(b'}');
}
/// Is every string in v plain ASCII?
fn plain(v: &Value) -> bool {
    if let Some(a) = v.as_array() { return a.iter().all(plain) }
    if let Some(d) = v.as_dict() { return d.into_iter().all(|(k, v)| k.is_ascii() && plain(v)) }
    v.value_type() != ValueType::String || v.to_str().is_ascii()
}
fn within(whole: &[u8], part: &[u8]) -> bool { whole.windows(part.len()).any(|w| w == part) }
fn table() -> SharedKeys { let mut t = SharedKeys::new(); t.encode_and_insert("key2"); t }
const KEYS: [&str; 4] = ["key2", "a", "a longer key, not shared", ""];
fn element(e: &mut Encoder, depth: u64) {
    match choice(if depth > 0 { 7 } else { 5 }) {
        0 => need_ok!(e.write_value(7i16), "write_value"),
        1 => need_ok!(e.write_value(-70000i64), "write_value"),
        2 => need_ok!(e.write_value("text"), "write_value"),
        3 => need_ok!(e.write_value(&fleece::encoder::NullValue), "write_value"),
        4 => need_ok!(e.write_value(true), "write_value"),
        5 => { need_ok!(e.begin_array(0), "begin_array"); for _ in 0..choice(3) { element(e, depth - 1) } need_ok!(e.end_array(), "end_array") }
        _ => { need_ok!(e.begin_dict(), "begin_dict"); for i in 0..choice(3) { need_ok!(e.write_key(KEYS[i as usize]), "write_key"); element(e, depth - 1) } need_ok!(e.end_dict(), "end_dict") }
    }
}
fn alone<T: Encodable>(v: T) -> Vec<u8> {
    let mut e = Encoder::new();
    need_ok!(e.begin_array(0), "begin_array");
    need_ok!(e.write_value(v), "write_value");
    need_ok!(e.end_array(), "end_array");
    e.finish()
}
fn only(b: &[u8]) -> &Value { &need_ok!(Array::from_bytes(b), "the document does not decode")[0] }
harnesses! {
    /// numbers  [bits]
    fn h_c29_debug_integer() {
        let small = u16v() as i16;
        let b = match choice(4) {
            0 => alone(small),
            1 => alone(i64::MIN + (small as u8 & 15) as i64),
            2 => alone(u64::MAX - (small as u8 & 15) as u64),
            _ => alone((small as i64) << 16),
        };
        let v = only(&b);
        let t = v.value_type();
        let s = shown(v);
        let x = need!(decimal(inner(&s, &t)), "no number is shown");
        match t {
            ValueType::UnsignedInt => { check!(x == v.to_unsigned_int(), "another number is shown"); cover(1) }
            ValueType::Int => { check!(x == v.to_int() as u64, "another number is shown"); cover(2) }
            ValueType::Short => { check!(x == v.to_short() as i64 as u64, "another number is shown"); cover(3) }
            _ => fail("kind"),
        }
        let negative = inner(&s, &t)[0] == b'-';
        check!(negative == (t != ValueType::UnsignedInt && v.to_int() < 0), "the sign of a number shown");
    }
    /// the other scalars  [length of texts]
    fn h_c29_debug_scalar() {
        let n = choice(param(0) + 1) as usize;
        let (b, content) = match choice(8) {
            0 => { let s = ascii(n); (alone(s.as_str()), shown(s.as_str())) }
            1 => { let x = bytes(n); (alone(&*x), shown(&*x)) }
            2 => (alone(true), b"\"True\"".to_vec()),
            3 => (alone(false), b"\"False\"".to_vec()),
            4 => (alone(fleece::encoder::NullValue), b"\"Null\"".to_vec()),
            5 => (alone(fleece::encoder::UndefinedValue), b"\"Undefined\"".to_vec()),
            6 => { let f = [0.5f32, -0.25, 1e10, f32::MAX, f32::NAN, f32::INFINITY, -0.0, f32::MIN_POSITIVE, 0.1][choice(9) as usize]; (alone(f), shown(&(f as f64))) }
            _ => { let f = [0.1f64, -1.0e300, 5e-324, f64::MAX, f64::NAN, f64::NEG_INFINITY, 0.5][choice(7) as usize]; (alone(f), shown(&f)) }
        };
        let v = only(&b);
        let s = shown(v);
        // a double may have been written as a float or an integer of the same value
        match v.value_type() {
            ValueType::Short | ValueType::Int | ValueType::UnsignedInt => cover(1),
            t => { check!(same(inner(&s, &t), &content), "another content is shown"); cover(2) }
        }
        check!(pretty(v).len() > s.len(), "the indented form");
    }
    /// whatever validation accepts  [bytes before the root]
    fn h_c29_debug_accepted() {
        let n = param(0) as usize;
        let mut b = bytes(n);
        let off = 1 + choice(n as u64 / 2) as u8;
        b.push(0x80); b.push(off);
        match Value::from_bytes(&b) {
            Ok(v) => {
                // other characters are escaped, or not, by tables
                assume(plain(v));
                let s = shown(v);
                let i = inner(&s, &v.value_type());
                check!(!i.is_empty(), "nothing is shown");
                cover(1);
                if let Some(a) = v.as_array() { check!(i[0] == b'[' && i[i.len() - 1] == b']', "an array"); if a.len() > 0 { cover(2) } }
                if let Some(d) = v.as_dict() { check!(i[0] == b'{' && i[i.len() - 1] == b'}', "a dict"); if d.len() > 0 { cover(3) } }
            }
            Err(e) => { check!(!text(&e).is_empty() && !shown(&e).is_empty(), "an error says nothing"); cover(4) }
        }
    }
    /// collections  [depth, elements]
    fn h_c29_debug_collection() {
        let mut e = Encoder::new();
        let sk = choice(2) == 1;
        if sk { e.set_shared_keys(table()); cover(1) }
        let dict = choice(2) == 1;
        if dict { need_ok!(e.begin_dict(), "begin_dict") } else { need_ok!(e.begin_array(0), "begin_array") }
        for i in 0..choice(param(1) + 1) { if dict { need_ok!(e.write_key(KEYS[i as usize]), "write_key") } element(&mut e, if i == 0 { param(0) } else { 0 }) }
        if dict { need_ok!(e.end_dict(), "end_dict") } else { need_ok!(e.end_array(), "end_array") }
        let s = e.finish_scoped();
        let root = need!(s.root(), "the document does not decode");
        let mut x = Vec::new();
        expect(&mut x, &root);
        let y = shown(root.value());
        check!(x == y, "a collection shown");
        match (root.as_array(), root.as_dict()) {
            (Some(a), _) => check!(same(&shown(a), inner(&x, &ValueType::Array)), "an array shown"),
            (_, Some(d)) => check!(same(&shown(d), inner(&x, &ValueType::Dict)), "a dict shown"),
            _ => fail("kind"),
        }
        {
            check!(pretty(root.value()).len() >= x.len(), "the indented form");
            check!(within(&shown(&root), &x), "an owned value shown");
            check!(!shown(&*s).is_empty(), "a scope shown");
            if let Some(k) = s.shared_keys() { check!(same(&shown(&**k), b"SharedKeys {\"key2\": 0}"), "shared keys shown") }
            if dict {
                let o = need!(root.to_dict(), "dict");
                check!(within(&shown(&o), inner(&x, &ValueType::Dict)) && !shown(&o.to_mutable()).is_empty(), "an owned dict shown");
            } else {
                let o = need!(root.to_array(), "array");
                check!(within(&shown(&o), inner(&x, &ValueType::Array)) && !shown(&o.to_mutable()).is_empty(), "an owned array shown");
            }
            cover(3);
        }
    }
}
