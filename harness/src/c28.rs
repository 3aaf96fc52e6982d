//! C28: all ways of reading one collection agree.
use crate::common::*;
use crate::hist::*;
use crate::mirror::*;
use core::borrow::Borrow;
use fleece::alloced::{Alloced, AllocedArray, AllocedDict};
use core::cmp::Ordering;

fn at<T: ?Sized>(v: &T) -> usize { v as *const T as *const u8 as usize }
fn table() -> SharedKeys { let mut t = SharedKeys::new(); t.encode_and_insert("bb"); t }
const KEYS: [&str; 6] = ["bb", "a", "a longer key, not shared", "", "é", "key3"];

fn element(e: &mut Encoder) {
    match choice(5) {
        0 => need_ok!(e.write_value(u8v()), "write_value"),
        1 => need_ok!(e.write_value(0x01_0000 | u16v() as u32), "write_value"),
        2 => need_ok!(e.write_value(ascii(3).as_str()), "write_value"),
        3 => { need_ok!(e.begin_array(0), "begin_array"); need_ok!(e.write_value(u8v()), "write_value"); need_ok!(e.end_array(), "end_array") }
        _ => { need_ok!(e.begin_dict(), "begin_dict"); need_ok!(e.end_dict(), "end_dict") }
    }
}
fn digits(s: &mut String, i: u64) {
    if i >= 10 { digits(s, i / 10) }
    s.push((b'0' + (i % 10) as u8) as char);
}
fn array_document(most: u64) -> Encoder {
    let mut e = Encoder::new();
    need_ok!(e.begin_array(0), "begin_array");
    if choice(2) == 1 { far_value(&mut e); cover(1) }
    for _ in 0..choice(most + 1) { element(&mut e) }
    need_ok!(e.end_array(), "end_array");
    e
}
/// keys[..n], written backwards if so chosen
fn dict_document(most: u64, keys: &mut Vec<&'static str>) -> Encoder {
    let mut e = Encoder::new();
    if choice(2) == 1 { e.set_shared_keys(table()); cover(2) }
    need_ok!(e.begin_dict(), "begin_dict");
    if choice(2) == 1 { need_ok!(e.write_key("far"), "write_key"); far_value(&mut e); keys.push("far"); cover(3) }
    let n = choice(most + 1) as usize;
    let back = n > 1 && choice(2) == 1;
    for i in 0..n {
        let k = KEYS[if back { n - 1 - i } else { i }];
        keys.push(k);
        need_ok!(e.write_key(k), "write_key");
        element(&mut e);
    }
    need_ok!(e.end_dict(), "end_dict");
    e
}
fn views_of_array(a: &Array) {
    let n = a.len();
    check!(a.is_empty() == (n == 0), "is_empty");
    check!(a.iter().count() == n && a.iter().len() == n && a.into_iter().count() == n, "number of elements iterated over");
    check!(a.iter().last().map(at) == if n == 0 { None } else { a.get(n - 1).map(at) }, "last");
    let mut it = a.iter();
    for i in 0..n {
        let v = need!(a.get(i), "element");
        check!(at(&a[i]) == at(v) && a[i].len() == v.len(), "an index gives another element than get");
        let (lo, hi) = it.size_hint();
        check!(lo <= n - i && hi.map_or(true, |h| h >= n - i), "size hint");
        let w = need!(it.next(), "iteration ends early");
        check!(at(w) == at(v) && w.value_type() == v.value_type(), "iteration gives another element than get");
        check!(a.iter().nth(i).map(at) == Some(at(v)), "nth gives another element than get");
        let mut two = a.iter().skip(i);
        two.next();
        check!(two.next().map(at) == a.get(i + 1).map(at), "iteration after a skip gives another element than get");
        cover(4);
    }
    check!(it.next().is_none() && it.next().is_none() && a.iter().nth(n).is_none(), "iteration does not end");
    check!(it.size_hint().0 == 0, "size hint");
}
fn views_of_dict(d: &Dict, keys: &[&str], sk: Option<&SharedKeys>) {
    let n = d.len();
    check!(n == keys.len() && d.is_empty() == (n == 0), "number of keys");
    check!(d.iter().count() == n && d.into_iter().count() == n, "number of pairs iterated over");
    match d.first() {
        None => check!(n == 0, "first"),
        Some((k, v)) => {
            let (name, w) = need!(d.iter().next(), "iteration ends early");
            check!(at(v) == at(w), "first and iteration disagree");
            match k.value_type() {
                ValueType::String => check!(same(k.to_str().as_bytes(), name.as_bytes()), "first and iteration disagree"),
                ValueType::Short => {
                    let s = need!(need!(sk, "shared keys").decode(k.to_unsigned_short()), "a number that is no key");
                    check!(same(s.as_bytes(), name.as_bytes()), "first and iteration disagree");
                    cover(5);
                }
                _ => fail("kind of key"),
            }
        }
    }
    for k in keys {
        let v = need!(d.get(*k), "a key is missing");
        check!(at(&d[*k]) == at(v), "an index gives another value than get");
        check!(d.contains_key(*k), "contains_key and get disagree");
        check!(d.get(&String::from(*k)).map(at) == Some(at(v)), "get by another kind of string gives another value");
        if let Some(sk) = sk {
            check!(d.get_with_shared_keys(*k, sk).map(at) == Some(at(v)) && d.contains_key_with_shared_keys(*k, sk), "get_with_shared_keys and get disagree");
        }
        check!(d.iter().find(|(x, _)| same(x.as_bytes(), k.as_bytes())).map(|(_, w)| at(w)) == Some(at(v)), "iteration gives another value than get");
        cover(6);
    }
    let mut it = d.iter();
    for i in 0..n {
        let (lo, hi) = it.size_hint();
        check!(lo <= n - i && hi.map_or(true, |h| h >= n - i), "size hint");
        let (k, v) = need!(it.next(), "iteration ends early");
        check!(d.iter().nth(i).map(|(_, w)| at(w)) == Some(at(v)), "nth");
        check!(d.get(k).map(at) == Some(at(v)), "iteration gives another value than get");
    }
    check!(it.next().is_none() && it.next().is_none(), "iteration does not end");
    for k in ["no such key", "b", "bbb"] {
        if keys.iter().any(|x| same(x.as_bytes(), k.as_bytes())) { continue }
        check!(d.get(k).is_none() && !d.contains_key(k), "a key that was not written");
    }
}
/// Of every collection within v.
fn views(v: &Value) {
    check!(v.as_array().is_some() == (v.value_type() == ValueType::Array) && v.as_dict().is_some() == (v.value_type() == ValueType::Dict), "kind of collection");
    if let Some(a) = v.as_array() {
        check!(at(a) == at(v), "as_array gives another place");
        views_of_array(a);
        for x in a { views(x) }
    }
    if let Some(d) = v.as_dict() {
        check!(at(d) == at(v), "as_dict gives another place");
        let keys: Vec<&str> = d.iter().map(|(k, _)| k).collect();
        views_of_dict(d, &keys, None);
        for (_, x) in d { views(x) }
    }
}
fn owned<T: ?Sized>(o: &Alloced<T>, v: &T) {
    let r: &T = &**o;
    let b = <Alloced<T> as Borrow<T>>::borrow(o);
    let a = <Alloced<T> as AsRef<T>>::as_ref(o);
    check!(at(o.value()) == at(v) && at(r) == at(v) && at(b) == at(v) && at(a) == at(v), "a view of an owned value is at another place");
    let p = <Alloced<T> as Borrow<*const T>>::borrow(o);
    check!(*p as *const u8 as usize == at(v), "a view of an owned value is at another place");
    check!(core::mem::size_of_val(o.value()) == core::mem::size_of_val(v), "a view of an owned value is of another size");
}
fn order<T: ?Sized>(a: &Alloced<T>, b: &Alloced<T>, equal: bool) {
    check!((a == b) == equal && (b == a) == equal && (a != b) != equal, "equality of owned values");
    check!((a.cmp(b) == Ordering::Equal) == equal, "order and equality of owned values disagree");
    check!(a.cmp(b) == b.cmp(a).reverse(), "order of owned values");
    check!(a.partial_cmp(b) == Some(a.cmp(b)), "order of owned values");
    check!((a < b) == (a.cmp(b) == Ordering::Less) && (a >= b) == (a.cmp(b) != Ordering::Less), "order of owned values");
}
harnesses! {
    /// [elements at most]
    fn h_c28_array() {
        let b = array_document(param(0)).finish();
        let v = need_ok!(Value::from_bytes(&b), "the document does not decode");
        let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
        check!(v.as_array().map(at) == Some(at(a)) && v.as_dict().is_none(), "as_array gives another array");
        check!(Dict::from_bytes(&b).is_err() && Dict::clone_from_bytes(&b).is_err(), "an array is no dict");
        views_of_array(a);
        let m = MutableArray::from(a);
        for i in 0..m.len() { if let Some(v) = m.get(i) { check!(at(&m[i]) == at(v), "an index gives another element than get"); cover(7) } }
        copy_of_array(&m, a, true);
        copy_of_array(&a.to_mutable(), a, true);
    }
    /// [keys at most]
    fn h_c28_dict() {
        let mut keys = Vec::new();
        let s = dict_document(param(0), &mut keys).finish_scoped();
        let root = need!(s.root(), "the document does not decode");
        let d = need!(root.as_dict(), "dict");
        check!(root.as_array().is_none(), "a dict is no array");
        views_of_dict(d, &keys, s.shared_keys().map(|x| &**x));
        let m = d.to_mutable();
        for k in &keys { if let Some(v) = m.get(k) { check!(at(&m[*k]) == at(v), "an index gives another value than get"); cover(7) } }
        copy_of_dict(&m, d, true);
        copy_of_dict(&MutableDict::clone_from(d), d, true);
    }
    /// jumps within large collections  [number of elements, 2^x; number of pairs, 2^x]
    fn h_c28_large() {
        let dict = choice(2) == 1;
        let near = 1u64 << choice(param(dict as u64) + 1);
        let n = (near + choice(3)).saturating_sub(1);
        let wide = choice(2) == 1;
        let mut e = Encoder::new();
        let mut numbers = SharedKeys::new();
        if dict {
            if choice(2) == 1 { numbers.encode_and_insert("k5"); numbers.encode_and_insert("k1"); e.set_shared_keys(numbers); cover(16) }
            need_ok!(e.begin_dict(), "begin_dict");
            if wide { need_ok!(e.write_key("far"), "write_key"); far_value(&mut e) }
            let mut k = String::new();
            for i in 0..n { k.clear(); k.push('k'); digits(&mut k, i); need_ok!(e.write_key(&k), "write_key"); need_ok!(e.write_value(i as u16 & 0x7FF), "write_value") }
            need_ok!(e.end_dict(), "end_dict");
        } else {
            need_ok!(e.begin_array(0), "begin_array");
            if wide { far_value(&mut e) }
            for i in 0..n { need_ok!(e.write_value(i as u16 & 0x7FF), "write_value") }
            need_ok!(e.end_array(), "end_array");
        }
        let s = e.finish_scoped();
        let root = need!(s.root(), "the document does not decode");
        let total = (n + wide as u64) as usize;
        let jumps: [usize; 9] = [0, 1, 2, total / 3, total / 2, total.saturating_sub(2), total.saturating_sub(1), total, total + 1];
        let (x, y) = (jumps[choice(9) as usize], jumps[choice(9) as usize]);
        let z = x.saturating_add(1).saturating_add(y);
        if dict {
            let d = need!(root.as_dict(), "dict");
            check!(d.len() == total && d.iter().count() == total, "number of pairs");
            let mut it = d.iter();
            let first = it.nth(x).map(|(_, v)| at(v));
            let second = if first.is_some() { it.nth(y).map(|(_, v)| at(v)) } else { None };
            check!(first.is_some() == (x < total) && second.is_some() == (z < total), "nth");
            for (i, (k, v)) in d.iter().enumerate() {
                if i == x { check!(first == Some(at(v)), "nth gives another value than iteration") }
                if i == z { check!(second == Some(at(v)), "nth after nth gives another value than iteration") }
                if i == x || i == z {
                    check!(d.get(k).map(at) == Some(at(v)) && d.contains_key(k), "get gives another value than iteration");
                    check!(d.iter().skip(x).step_by(y + 1).next().map(|(_, v)| at(v)) == first, "skip gives another value than nth");
                    cover(15);
                }
            }
        } else {
            let a = need!(root.as_array(), "array");
            check!(a.len() == total && a.iter().count() == total, "number of elements");
            let mut it = a.iter();
            let first = it.nth(x).map(at);
            let second = if first.is_some() { it.nth(y).map(at) } else { None };
            check!(first == a.get(x).map(at) && second == a.get(z).map(at), "nth and get disagree");
            check!(first.is_some() == (x < total) && second.is_some() == (z < total), "nth");
            for (i, v) in a.iter().enumerate() {
                if i == x { check!(first == Some(at(v)), "nth gives another element than iteration") }
                if i == z { check!(second == Some(at(v)), "nth after nth gives another element than iteration") }
            }
            check!(a.iter().skip(x).step_by(y + 1).nth(1).map(at) == a.get(z).map(at), "skip and step_by give another element than get");
            check!(a.iter().last().map(at) == if total == 0 { None } else { a.get(total - 1).map(at) }, "last");
            if second.is_some() { cover(13) }
        }
        if wide { cover(14) }
    }
    /// arbitrary keys  [keys, length]
    fn h_c28_keys() {
        let mut keys: Vec<String> = Vec::new();
        let mut e = Encoder::new();
        if choice(2) == 1 { e.set_shared_keys(table()) }
        need_ok!(e.begin_dict(), "begin_dict");
        for _ in 0..param(0) {
            let k = ascii(choice(param(1)) as usize);
            for x in &keys { assume(!same(x.as_bytes(), k.as_bytes())) }
            need_ok!(e.write_key(&k), "write_key");
            need_ok!(e.write_value(u16v()), "write_value");
            keys.push(k);
        }
        need_ok!(e.end_dict(), "end_dict");
        let s = e.finish_scoped();
        let root = need!(s.root(), "the document does not decode");
        let keys: Vec<&str> = keys.iter().map(|x| x.as_str()).collect();
        let d = need!(root.as_dict(), "dict");
        views_of_dict(d, &keys, s.shared_keys().map(|x| &**x));
        cover(11);
    }
    /// every collection within the documents of encoder histories  [operations, set of operations]
    fn h_c28_history() {
        let mut m = Model::new();
        let mut e = Encoder::new();
        for i in 0..param(0) {
            let o = any_op(param(1), i as u8);
            assume(m.apply(o));
            if !call(&mut e, o) { fail("a call that is in order fails") }
        }
        if m.nodes.is_empty() { return }
        let b = e.finish();
        views(need_ok!(Value::from_bytes(&b), "the document does not decode"));
        cover(12);
    }
    /// owned values: the views, equality and order, and the conversions from scopes
    fn h_c28_owned() {
        let dict = choice(2) == 1;
        let mut keys = Vec::new();
        let e = if dict { dict_document(1, &mut keys) } else { array_document(1) };
        let s = e.finish_scoped();
        let root = need!(s.root(), "the document does not decode");
        owned(&root, root.value());
        let again = need!(s.root(), "the document does not decode");
        order(&root, &again, true);
        order(&root, &root.clone(), true);
        let data = need!(s.data(), "data");
        let other = need_ok!(Value::clone_from_bytes(&data), "clone_from_bytes");
        order(&root, &other, false);
        check!(*s == *s, "a scope equals itself");
        check!(s.root().map(|r| r == root) == Some(true), "the root of a scope");
        let place = at(root.value());
        let (array, map) = (MutableArray::try_from(&*s), MutableDict::try_from(&*s));
        check!(array.is_err() == dict && map.is_err() != dict, "conversion of a scope");
        check!(MutableArray::from_scope(&s).is_none() == dict && MutableDict::from_scope(&s).is_none() != dict, "conversion of a scope");
        if dict {
            check!(again.clone().to_array().is_none(), "a dict is no array");
            let (x, y) = (need!(root.to_dict(), "to_dict"), need!(again.to_dict(), "to_dict"));
            check!(at(x.value()) == place, "to_dict gives another place");
            owned(&x, y.value());
            order(&x, &y, true);
            order(&x, &need!(other.to_dict(), "to_dict"), false);
            order(&x, &AllocedDict::empty(), false);
            copy_of_dict(&need_ok!(map, "conversion of a scope"), &x, true);
            cover(8);
        } else {
            check!(again.clone().to_dict().is_none(), "an array is no dict");
            let (x, y) = (need!(root.to_array(), "to_array"), need!(again.to_array(), "to_array"));
            check!(at(x.value()) == place, "to_array gives another place");
            owned(&x, y.value());
            order(&x, &y, true);
            order(&x, &need!(other.to_array(), "to_array"), false);
            order(&x, &AllocedArray::empty(), false);
            copy_of_array(&need_ok!(array, "conversion of a scope"), &x, true);
            cover(9);
        }
    }
    /// the values and collections that come from nowhere
    fn h_c28_constants() {
        check!(Value::null().value_type() == ValueType::Null && Value::undefined().value_type() == ValueType::Undefined, "constants");
        let b = choice(2) == 1;
        check!(Value::bool(b).value_type() == if b { ValueType::True } else { ValueType::False } && Value::bool(b).to_bool() == b, "constants");
        views_of_array(Array::empty());
        views_of_dict(Dict::empty(), &[], None);
        check!(Array::empty().is_empty() && Dict::empty().is_empty() && Array::empty().get(u64v() as usize).is_none(), "empty collections");
        check!(Dict::empty().get(ascii(choice(3) as usize).as_str()).is_none(), "empty collections");
        let (a, d) = (AllocedArray::empty(), AllocedDict::empty());
        views_of_array(&a);
        views_of_dict(&d, &[], None);
        order(&a, &AllocedArray::empty(), true);
        order(&d, &AllocedDict::empty(), true);
        check!(MutableArray::from(a).is_empty() && MutableDict::from(d).is_empty(), "copies of empty collections");
        let mut e = Encoder::new();
        need_ok!(e.begin_array(0), "begin_array");
        for v in [Value::null(), Value::undefined(), Value::bool(b)] { need_ok!(e.write_fleece(v), "write_fleece") }
        need_ok!(e.end_array(), "end_array");
        let out = e.finish();
        let a = need_ok!(Array::from_bytes(&out), "the document does not decode");
        check!(a.len() == 3 && a[0].value_type() == ValueType::Null && a[1].value_type() == ValueType::Undefined && a[2].to_bool() == b && a[2].value_type() == Value::bool(b).value_type(), "constants written");
        cover(10);
    }
}
