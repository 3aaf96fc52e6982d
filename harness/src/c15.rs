//! C15: mutable arrays behave as a list.
use crate::common::*;
use crate::model::*;

fn push(m: &mut MutableArray, it: &Item) {
    match it {
        Item::Small(x) => m.push(x),
        Item::Big(x) => m.push(&big(*x)),
        Item::Double(b) => m.push(&f64::from_bits(*b)),
        Item::Text(n, x) => m.push(text(*n, *x).as_str()),
        _ => fail("push"),
    }
}
fn set(m: &mut MutableArray, i: usize, it: &Item) {
    match it {
        Item::Small(x) => m.set(i, *x),
        Item::Big(x) => m.set(i, big(*x)),
        Item::Double(b) => m.set(i, f64::from_bits(*b)),
        Item::Text(n, x) => m.set(i, text(*n, *x).as_str()),
        _ => fail("set"),
    }
}
/// An encoded document holding the one value.
fn fleece(it: &Item) -> Vec<u8> {
    let mut e = Encoder::new();
    need_ok!(e.begin_array(1), "begin_array");
    match it {
        Item::Small(x) => need_ok!(e.write_value(*x), "write_value"),
        Item::Big(x) => need_ok!(e.write_value(big(*x)), "write_value"),
        Item::Double(b) => need_ok!(e.write_value(f64::from_bits(*b)), "write_value"),
        Item::Text(n, x) => need_ok!(e.write_value(text(*n, *x).as_str()), "write_value"),
        Item::Array(l) => { need_ok!(e.begin_array(1), "begin_array"); if let Some(Item::Small(x)) = l.first() { need_ok!(e.write_value(*x), "write_value") } need_ok!(e.end_array(), "end_array") }
        _ => fail("fleece"),
    }
    need_ok!(e.end_array(), "end_array");
    e.finish()
}
fn with_fleece(it: &Item, f: &mut dyn FnMut(&Value)) {
    let b = fleece(it);
    let a = need_ok!(Array::from_bytes(&b), "fixture");
    f(need!(a.get(0), "fixture"));
}
/// One operation out of the set `ops`: 0 push, 1 set, 2 remove, 3 set_array, 4 set_dict, 5 edit a nested collection, 6 push_fleece, 7 set_fleece
fn step(m: &mut MutableArray, l: &mut Vec<Item>, ops: u64, kinds: u64) {
    let mut n = choice(ops.count_ones() as u64);
    let mut k = 0;
    loop {
        if ops >> k & 1 == 1 { if n == 0 { break } n -= 1 }
        k += 1;
    }
    if matches!(k, 1 | 3 | 4 | 5 | 7) && l.is_empty() { return }
    match k {
        0 => { let it = scalar(kinds); push(m, &it); l.push(it) }
        1 => { let i = choice(l.len() as u64) as usize; let it = scalar(kinds); set(m, i, &it); l[i] = it }
        2 => {
            let i = u64v() as usize;
            m.remove(i);
            if i < l.len() { cover(1); l.remove(i); } else { cover(2) }
        }
        3 => {
            let i = choice(l.len() as u64) as usize;
            let x = u8v();
            let mut a = MutableArray::new();
            if choice(2) == 0 { a.push(&x); m.set_array(i, a); l[i] = Item::Array(vec![Item::Small(x)]) } else { m.set_array(i, a); l[i] = Item::Array(vec![]) }
        }
        4 => {
            let i = choice(l.len() as u64) as usize;
            let x = u8v();
            let mut d = MutableDict::new();
            d.insert("k", x);
            m.set_dict(i, d);
            l[i] = Item::Dict(vec![(b"k".to_vec(), Item::Small(x))]);
        }
        5 => {
            let i = choice(l.len() as u64) as usize;
            match &mut l[i] {
                Item::Array(v) => { let it = scalar(kinds); push(need!(m.get_array_mut(i), "nested array"), &it); v.push(it); cover(3) }
                Item::Dict(v) => { let x = u8v(); need!(m.get_dict_mut(i), "nested dict").insert("m", x); put(v, b"m".to_vec(), Item::Small(x)); cover(4) }
                _ => check!(m.get_array_mut(i).is_none() && m.get_dict_mut(i).is_none(), "a scalar is no collection"),
            }
        }
        6 => { let it = scalar(kinds); with_fleece(&it, &mut |v| m.push_fleece(v)); l.push(it) }
        _ => {
            let i = choice(l.len() as u64) as usize;
            let it = if choice(2) == 0 { scalar(kinds) } else { Item::Array(vec![Item::Small(u8v())]) };
            with_fleece(&it, &mut |v| m.set_fleece(i, v));
            l[i] = it;
        }
    }
}
harnesses! {
    /// [pushes first, operations, set of operations, kinds of values]
    fn h_c15_history() {
        let (mut m, mut l) = (MutableArray::new(), Vec::new());
        for _ in 0..param(0) { let it = scalar(param(3)); push(&mut m, &it); l.push(it) }
        for _ in 0..param(1) { step(&mut m, &mut l, param(2), param(3)) }
        is_array(&m, &l);
        let i = u64v() as usize;
        assume(i >= l.len());
        check!(m.get(i).is_none() && m.get_array(i).is_none() && m.get_dict(i).is_none() && m.get_array_mut(i).is_none() && m.get_dict_mut(i).is_none(), "an element beyond the end");
        cover(5);
    }
    /// [operations before, operations after on either, set of operations, kinds]
    fn h_c15_clone() {
        let (mut m, mut l) = (MutableArray::new(), Vec::new());
        for _ in 0..param(0) { step(&mut m, &mut l, param(2), param(3)) }
        let (mut n, mut k) = (m.clone(), l.clone());
        is_array(&n, &k);
        for _ in 0..param(1) {
            if choice(2) == 0 { step(&mut m, &mut l, param(2), param(3)) } else { step(&mut n, &mut k, param(2), param(3)) }
        }
        is_array(&m, &l);
        is_array(&n, &k);
        if choice(2) == 0 { drop(m); is_array(&n, &k) } else { drop(n); is_array(&m, &l) }
        cover(6);
    }
    /// strings and data around the size up to which values are stored in place
    fn h_c15_sizes() {
        let n = choice(param(0)) as usize;
        let b = bytes(n);
        let mut m = MutableArray::new();
        m.push(&7u8);
        m.push(b.as_slice());
        let s = ascii(n);
        m.push(s.as_str());
        m.set(0, b.as_slice());
        let c = m.clone();
        drop(m);
        for i in [0, 1] {
            let v = need!(c.get(i), "element");
            check!(v.value_type() == ValueType::Data && same(v.to_data(), &b), "other data");
        }
        let v = need!(c.get(2), "element");
        check!(v.value_type() == ValueType::String && same(v.to_str().as_bytes(), s.as_bytes()), "another string");
        cover(7);
    }
    /// long strings and data
    fn h_c15_long() {
        let n = LONG[choice(param(0)) as usize];
        let (b, s) = (long_bytes(n), long_ascii(n));
        let mut m = MutableArray::new();
        m.push(b.as_slice());
        m.push(&1u8);
        m.push(s.as_str());
        m.set(1, b.as_slice());
        let mut c = m.clone();
        c.set(2, &7u8);
        for (x, end) in [(&m, 3), (&c, 2), (&m.clone(), 3)] {
            for i in 0..end {
                let v = need!(x.get(i), "element");
                if i < 2 { check!(v.value_type() == ValueType::Data && same(v.to_data(), &b), "other data") }
                else { check!(v.value_type() == ValueType::String && same(v.to_str().as_bytes(), s.as_bytes()), "another string") }
            }
        }
        check!(need!(c.get(2), "element").to_int() == 7, "element");
        cover(9);
    }
    fn h_c15_scalars() {
        let (x, f, g) = (u64v(), u64v(), u32v());
        let mut m = MutableArray::new();
        match choice(9) {
            0 => { m.push(&x); let v = &m[0]; check!(v.to_unsigned_int() == x, "u64"); check!(v.to_int() == x as i64, "u64") }
            1 => { m.push(&(x as i64)); let v = &m[0]; check!(v.to_int() == x as i64, "i64") }
            2 => { m.push(&(x as i32)); check!(m[0].to_int() == x as i32 as i64, "i32") }
            3 => { m.push(&(x as i16)); check!(m[0].to_int() == x as i16 as i64, "i16") }
            4 => { m.push(&f64::from_bits(f)); let y = m[0].to_double(); check!(y.to_bits() == f || (y.is_nan() && f64::from_bits(f).is_nan()), "f64") }
            5 => { m.push(&f32::from_bits(g)); let y = m[0].to_float(); check!(y.to_bits() == g || (y.is_nan() && f32::from_bits(g).is_nan()), "f32") }
            6 => { let b = x & 1 == 1; m.push(&b); check!(m[0].to_bool() == b && (m[0].value_type() == ValueType::True) == b, "bool") }
            7 => { m.push(&NullValue); check!(m[0].value_type() == ValueType::Null, "null") }
            _ => { m.push(&UndefinedValue); check!(m[0].value_type() == ValueType::Undefined, "undefined") }
        }
        cover(8);
    }
}
