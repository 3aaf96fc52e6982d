//! C08: decoding arbitrary bytes is total and stays in bounds.
use crate::common::*;

fn inside(data: &[u8], v: &Value) {
    let n = v.len();
    check!(n >= 2, "a decoded value is shorter than two bytes");
    let s = data.as_ptr() as usize;
    // the address of the value, through the only public accessors that reveal it
    let p = v as *const Value as *const u8 as usize;
    check!(p >= s && p + n <= s + data.len(), "a decoded value lies outside the data");
}
fn decode(b: &[u8]) {
    let keep = b.to_vec();
    match Value::from_bytes(b) {
        Ok(v) => {
            inside(b, v);
            cover(1);
            match v.value_type() {
                ValueType::Array => { cover(2); if v.as_array().is_none() { fail("array type without array") } }
                ValueType::Dict => { cover(3); if v.as_dict().is_none() { fail("dict type without dict") } }
                ValueType::Pointer => fail("the root is a pointer"),
                _ => cover(4),
            }
        }
        Err(_) => cover(5),
    }
    check!(same(&keep, b), "decoding changed the data");
}

harnesses! {
    /// every byte string of 0..param(0) bytes
    fn h_c08_value() {
        let n = param(0) + choice(param(1));
        let b = bytes(n as usize);
        decode(&b);
    }
    fn h_c08_typed() {
        let n = choice(param(0) + 1);
        let b = bytes(n as usize);
        let v = Value::from_bytes(&b);
        let a = Array::from_bytes(&b);
        let d = Dict::from_bytes(&b);
        let is = |t: ValueType| match &v { Ok(v) => v.value_type() == t, Err(_) => false };
        check!(a.is_ok() == is(ValueType::Array), "Array::from_bytes disagrees with Value::from_bytes");
        check!(d.is_ok() == is(ValueType::Dict), "Dict::from_bytes disagrees with Value::from_bytes");
        if let Ok(a) = a { cover(1); inside(&b, v.as_ref().ok().unwrap()); check!(a as *const Array as *const u8 == *v.as_ref().ok().unwrap() as *const Value as *const u8, "not the same array"); }
        if d.is_ok() { cover(2) }
    }
    fn h_c08_owned() {
        let n = choice(param(0) + 1);
        let b = bytes(n as usize);
        let v = Value::from_bytes(&b);
        let o = Value::clone_from_bytes(&b);
        match (&v, &o) {
            (Ok(v), Ok(o)) => { cover(1); check!(o.value().len() == v.len() && o.value_type() == v.value_type(), "owned copy differs"); }
            (Err(_), Err(_)) => cover(2),
            _ => fail("clone_from_bytes disagrees with from_bytes"),
        }
        let a = Array::clone_from_bytes(&b);
        check!(a.is_ok() == Array::from_bytes(&b).is_ok(), "Array::clone_from_bytes disagrees");
        let d = Dict::clone_from_bytes(&b);
        check!(d.is_ok() == Dict::from_bytes(&b).is_ok(), "Dict::clone_from_bytes disagrees");
    }
    /// long length prefixes: a root pointing at a header of each kind followed by any bytes
    fn h_c08_varint() {
        let mut b: Vec<u8> = match choice(6) {
            0 => vec![0x4F], 1 => vec![0x5F],
            2 => vec![0x67, 0xFF], 3 => vec![0x77, 0xFF], 4 => vec![0x6F, 0xFF],
            _ => vec![0x7F, 0xFF],
        };
        // continuation bytes first, so that the prefix is as long as possible
        let k = choice(param(0));
        for _ in 0..k { let x = u8v(); assume(x >= 0x80); b.push(x); }
        let m = param(1) as usize;
        let first = u8v(); assume(first < 0x80); b.push(first);
        b.extend_from_slice(&bytes(m));
        if b.len() % 2 == 1 { b.push(u8v()) }
        let off = b.len() / 2;
        b.push(0x80); b.push(off as u8);
        decode(&b);
        if k + 1 == param(0) { cover(6) }
    }
    /// collections within collections  [levels]
    fn h_c08_deep() {
        let n = param(0) as usize;
        let mut b = Vec::with_capacity(6 * n + 8);
        match choice(3) {
            // arrays
            0 => { b.extend_from_slice(&[0x60, 0, 0x60, 1, 0x80, 2]); for _ in 1..n { b.extend_from_slice(&[0x60, 1, 0x80, 3]) } b.extend_from_slice(&[0x80, 2]); b[1] = 0 }
            // dicts
            1 => { b.extend_from_slice(&[0x70, 0, 0x70, 1, 0x40, 0, 0x80, 3]); for _ in 1..n { b.extend_from_slice(&[0x70, 1, 0x40, 0, 0x80, 5]) } b.extend_from_slice(&[0x80, 3]) }
            // pointers
            _ => { b.extend_from_slice(&[0x30, 0x0C, 0x80, 0, 0, 1]); for _ in 1..n { b.extend_from_slice(&[0x80, 0, 0, 2]) } b.extend_from_slice(&[0x80, 2]) }
        }
        check!(Value::from_bytes(&b).is_ok() || Value::from_bytes(&b).is_err(), "decoding ends");
        cover(7);
    }
    /// the same at depths any stack bears: decoding accepts and reads to the bottom  [levels]
    fn h_c08_nested() {
        let n = 1 + choice(param(0)) as usize;
        let x = u8v(); let dict = choice(2) == 1;
        let mut b = vec![0x00, x];
        if dict { for _ in 0..n { let p = if b.len() == 2 { 3 } else { 5 }; b.extend_from_slice(&[0x70, 1, 0x40, 0, 0x80, p]) } b.extend_from_slice(&[0x80, 3]) }
        else { for _ in 0..n { let p = if b.len() == 2 { 2 } else { 3 }; b.extend_from_slice(&[0x60, 1, 0x80, p]) } b.extend_from_slice(&[0x80, 2]) }
        let Ok(root) = Value::from_bytes(&b) else { fail("nested collections were refused") };
        let mut v = root;
        for _ in 0..n {
            v = match (dict, v.as_array(), v.as_dict()) {
                (false, Some(a), None) => { check!(a.len() == 1, "length"); a.get(0).unwrap_or_else(|| fail("no element")) }
                (true, None, Some(d)) => { check!(d.len() == 1, "length"); d.get("").unwrap_or_else(|| fail("no value")) }
                _ => fail("kind of a level"),
            };
        }
        check!(v.to_int() == x as i64, "the innermost value");
        cover(9);
    }
    /// collections that share what they hold  [levels]
    fn h_c08_shared() {
        let mut b = Vec::new();
        b.extend_from_slice(&[0x60, 0]);
        for i in 0..param(0) { let p = if i == 0 { 2 } else { 4 }; b.extend_from_slice(&[0x60, 2, 0x80, p, 0x80, p + 1]) }
        b.extend_from_slice(&[0x80, 3]);
        check!(Value::from_bytes(&b).is_ok() || Value::from_bytes(&b).is_err(), "decoding ends");
        cover(8);
    }
    /// a root of its own and everything else symbolic, at the larger size
    fn h_c08_rooted() {
        let n = param(0) as usize;
        let mut b = bytes(n);
        let off = 1 + choice(n as u64 / 2) as u8;
        b.push(0x80); b.push(off);
        decode(&b);
    }
}
