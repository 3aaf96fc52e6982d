//! C04: arrays keep their elements, order and bounds.
use crate::common::*;

#[derive(Clone)]
enum E { Int(i64), Uint(u64), Short(i16), Str(Vec<u8>), Data(Vec<u8>), Bool(bool), Null, Double(u64), Arr(Vec<E>) }

/// One element; its kind is chosen, its contents symbolic.
fn gen(kinds: u64) -> E {
    match choice(kinds) {
        0 => E::Short(u8v() as i8 as i16 * 2),
        1 => { let s = ascii(choice(4) as usize); E::Str(s.into_bytes()) }
        2 => E::Null,
        3 => E::Double(u64v()),
        4 => E::Data(bytes(choice(4) as usize)),
        5 => E::Bool(u8v() & 1 == 1),
        6 => E::Uint(u8v() as u64 + 5000),
        _ => E::Int(u8v() as i64 - 70000),
    }
}
fn put(e: &mut Encoder, x: &E) {
    let r = match x {
        E::Int(i) => e.write_value(*i),
        E::Uint(i) => e.write_value(*i),
        E::Short(i) => e.write_value(*i),
        E::Str(s) => e.write_value(unsafe { core::str::from_utf8_unchecked(s) }),
        E::Data(s) => e.write_value(s.as_slice()),
        E::Bool(b) => e.write_value(*b),
        E::Null => e.write_value(NullValue),
        E::Double(b) => e.write_value(f64::from_bits(*b)),
        E::Arr(v) => {
            need_ok!(e.begin_array(v.len()), "begin_array");
            for x in v { put(e, x); }
            e.end_array()
        }
    };
    need_ok!(r, "write_value");
}
fn eq(v: &Value, x: &E) {
    let t = v.value_type();
    match x {
        E::Int(i) => { check!(t == ValueType::Int || t == ValueType::Short, "element type"); check!(v.to_int() == *i, "element changed"); }
        E::Short(i) => { check!(t == ValueType::Int || t == ValueType::Short, "element type"); check!(v.to_int() == *i as i64, "element changed"); }
        E::Uint(i) => { check!(t == ValueType::UnsignedInt || t == ValueType::Short, "element type"); check!(v.to_unsigned_int() == *i, "element changed"); }
        E::Str(s) => { check!(t == ValueType::String, "element type"); check!(same(v.to_str().as_bytes(), s), "element changed"); }
        E::Data(s) => { check!(t == ValueType::Data, "element type"); check!(same(v.to_data(), s), "element changed"); }
        E::Bool(b) => check!(t == if *b { ValueType::True } else { ValueType::False }, "element changed"),
        E::Null => check!(t == ValueType::Null, "element type"),
        E::Double(b) => { check!(t == ValueType::Double64, "element type"); check!(v.to_double().to_bits() == *b, "element changed"); }
        E::Arr(x) => eq_array(need!(v.as_array(), "element type"), x),
    }
}
fn eq_array(a: &Array, x: &[E]) {
    check!(a.len() == x.len(), "length");
    check!(a.is_empty() == x.is_empty(), "is_empty");
    for i in 0..x.len() {
        eq(need!(a.get(i), "get(i) is None inside the array"), &x[i]);
        eq(&a[i], &x[i]);
    }
    let mut it = a.iter();
    check!(it.len() == x.len() && it.size_hint() == (x.len(), Some(x.len())), "iterator length");
    for e in x { eq(need!(it.next(), "iteration ends early"), e); }
    check!(it.next().is_none() && it.next().is_none(), "iteration does not end");
    let mut n = 0;
    for v in a { if n < x.len() { eq(v, &x[n]); } n += 1; }
    check!(n == x.len(), "iteration count");
    // every index outside
    let i = u64v() as usize;
    assume(i >= x.len());
    check!(a.get(i).is_none(), "get outside the array gives something");
}
fn document(x: &[E], far: bool) {
    let mut e = Encoder::new();
    need_ok!(e.begin_array(if x.len() > 1 { 0 } else { 5 }), "begin_array");
    if far { far_value(&mut e); }
    for v in x { put(&mut e, v); }
    need_ok!(e.end_array(), "end_array");
    let b = e.finish();
    let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
    if far {
        // wide: check what follows the filler
        check!(a.len() == x.len() + 1, "length");
        for i in 0..x.len() { eq(need!(a.get(i + 1), "get(i) is None inside the array"), &x[i]); }
        check!(a.iter().count() == x.len() + 1, "iteration count");
        for (v, x) in a.iter().skip(1).zip(x) { eq(v, x); }
        let i = u64v() as usize;
        assume(i >= x.len() + 1);
        check!(a.get(i).is_none(), "get outside the array gives something");
        cover(2);
    } else {
        eq_array(a, x);
        cover(1);
    }
}

harnesses! {
    /// param(0): most elements, param(1): element kinds
    fn h_c04_flat() {
        let n = choice(param(0) + 1);
        let mut x = Vec::new();
        for _ in 0..n { x.push(gen(param(1))); }
        document(&x, choice(2) == 1);
        if n == param(0) { cover(3) }
    }
    /// a tree: param(0) elements at most on each level, param(1) levels
    fn h_c04_nested() {
        fn tree(n: u64, depth: u64) -> Vec<E> {
            let k = choice(n + 1);
            let mut v = Vec::new();
            for _ in 0..k {
                if depth > 0 && choice(2) == 0 { v.push(E::Arr(tree(n, depth - 1))); cover(4) }
                else { v.push(if choice(2) == 0 { E::Short(u8v() as i16) } else { E::Str(ascii(2).into_bytes()) }) }
            }
            v
        }
        let x = tree(param(0), param(1));
        document(&x, false);
    }
    /// a chain of arrays, each with a value before and after the next one
    fn h_c04_deep() {
        let depth = choice(param(0));
        let mut x = vec![E::Short(u8v() as i16)];
        for _ in 0..depth { x = vec![E::Str(ascii(3).into_bytes()), E::Arr(x), E::Short(u8v() as i16)]; }
        document(&x, false);
        if depth + 1 == param(0) { cover(5) }
    }
    /// any index at all, longer array of short integers
    fn h_c04_index() {
        let n = param(0) as usize;
        let mut w = Vec::new();
        let mut e = Encoder::new();
        need_ok!(e.begin_array(n), "begin_array");
        for _ in 0..n { let v = u16v() as i16; assume(v >= -2048 && v <= 2047); w.push(v); need_ok!(e.write_value(v), "write_value"); }
        need_ok!(e.end_array(), "end_array");
        let b = e.finish();
        let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
        let i = u64v() as usize;
        match a.get(i) {
            Some(v) => { check!(i < n, "get outside the array gives something"); check!(v.to_short() == w[i], "element changed"); cover(6) }
            None => { check!(i >= n, "get(i) is None inside the array"); cover(7) }
        }
    }
}
