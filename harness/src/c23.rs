//! C23: value conversions are total and consistent.
use crate::common::*;

/// What the conversions of a number must say, given the 64 bits of an integer.
fn is_int(v: &Value, i: i64) {
    check!(v.to_int() == i, "to_int");
    check!(v.to_unsigned_int() == i as u64, "to_unsigned_int is not the same 64 bits");
    check!(v.to_bool() == (i != 0), "to_bool");
    if i >= -32768 && i <= 32767 { check!(v.to_short() as i64 == i, "to_short"); cover(20) }
    if i >= 0 && i <= 65535 { check!(v.to_unsigned_short() as i64 == i, "to_unsigned_short"); cover(21) }
    nothing(v);
}
fn nothing(v: &Value) {
    check!(v.to_str().is_empty(), "to_str of something else");
    check!(v.to_data().is_empty(), "to_data of something else");
    check!(v.as_array().is_none() && v.as_dict().is_none(), "a scalar is a collection");
}
fn zero(v: &Value) {
    check!(v.to_int() == 0 && v.to_unsigned_int() == 0 && v.to_short() == 0 && v.to_unsigned_short() == 0, "a non-number reads as a number");
    check!(v.to_double().to_bits() == 0 && v.to_float().to_bits() == 0, "a non-number reads as a float");
}
/// All conversions of a float.
fn is_double(v: &Value, x: f64) {
    check!(v.to_double().to_bits() == x.to_bits() || (x.is_nan() && v.to_double().is_nan()), "to_double");
    let y = x as f32;
    check!(v.to_float().to_bits() == y.to_bits() || (y.is_nan() && v.to_float().is_nan()), "to_float");
    check!(v.to_int() == x as i64, "to_int of a float");
    check!(v.to_unsigned_int() == v.to_int() as u64, "to_unsigned_int of a float");
    check!(v.to_short() == x as i16, "to_short of a float");
    check!(v.to_unsigned_short() == x as u16, "to_unsigned_short of a float");
    check!(v.to_bool() == !(x == 0.0), "to_bool of a float");
    nothing(v);
}
/// A document whose root is the given raw scalar.
fn raw(b: &[u8], f: &dyn Fn(&Value)) {
    let mut d = b.to_vec();
    if d.len() % 2 == 1 { d.push(0) }
    let off = d.len() / 2;
    d.push(0x80); d.push(off as u8);
    f(need_ok!(Value::from_bytes(&d), "a well-formed scalar is rejected"));
}
harnesses! {
    /// integers of every encoded length, signed and unsigned, minimal or not
    fn h_c23_int() {
        let n = 1 + choice(8) as usize;
        let unsigned = choice(2) == 1;
        let content = bytes(n);
        let mut b = vec![0x10 | (n as u8 - 1) | if unsigned { 8 } else { 0 }];
        b.extend_from_slice(&content);
        let mut le = [0u8; 8];
        le[..n].copy_from_slice(&content);
        let mut i = i64::from_le_bytes(le);
        if !unsigned { let s = 64 - 8 * n as u32; i = (i << s) >> s; }
        raw(&b, &|v| {
            check!(v.value_type() == if unsigned { ValueType::UnsignedInt } else { ValueType::Int }, "type");
            is_int(v, i);
            let d = if unsigned { i as u64 as f64 } else { i as f64 };
            check!(v.to_double().to_bits() == d.to_bits(), "to_double of an integer");
            check!(v.to_float().to_bits() == (d as f32).to_bits(), "to_float of an integer");
            cover(if unsigned { 1 } else { 2 });
        });
    }
    /// the 12-bit integers
    fn h_c23_short() {
        let hi = u8v(); assume(hi < 16);
        let lo = u8v();
        let i = (((hi as i32) << 8 | lo as i32) << 20) >> 20;
        raw(&[hi, lo], &|v| {
            check!(v.value_type() == ValueType::Short, "type");
            is_int(v, i as i64);
            check!(v.to_double() == i as f64 && v.to_float() == i as f32, "to_double of a short");
            cover(1);
        });
    }
    fn h_c23_double() {
        let c = array::<8>();
        let lo = u8v();
        let mut b = vec![0x28 | (choice(2) as u8 * 4), lo]; b.extend_from_slice(&c);
        raw(&b, &|v| { check!(v.value_type() == ValueType::Double64, "type"); is_double(v, f64::from_le_bytes(c)); cover(1) });
    }
    fn h_c23_float() {
        let c = array::<4>();
        let lo = u8v();
        let k = choice(2) as u8 * 4;
        let mut b = vec![0x20 | k, lo]; b.extend_from_slice(&c);
        raw(&b, &|v| {
            check!(v.value_type() == if k == 4 { ValueType::Double32 } else { ValueType::Float }, "type");
            is_double(v, f32::from_le_bytes(c) as f64);
            cover(1)
        });
    }
    fn h_c23_special() {
        let hi = 0x30 | choice(16) as u8;
        raw(&[hi, u8v()], &|v| {
            nothing(v);
            match hi & 0x0F {
                4 => { check!(v.value_type() == ValueType::False && !v.to_bool(), "false"); zero(v); cover(1) }
                8 => {
                    check!(v.value_type() == ValueType::True && v.to_bool(), "true");
                    check!(v.to_int() == 1 && v.to_unsigned_int() == 1 && v.to_short() == 1 && v.to_unsigned_short() == 1 && v.to_double() == 1.0 && v.to_float() == 1.0, "true as a number");
                    cover(2)
                }
                12 => { check!(v.value_type() == ValueType::Undefined && v.to_bool(), "undefined"); zero(v); cover(3) }
                _ => { check!(v.value_type() == ValueType::Null && v.to_bool(), "null"); zero(v); cover(4) }
            }
        });
    }
    /// strings and data, valid UTF-8 or not
    fn h_c23_bytes() {
        let n = choice(param(0) + 1) as usize;
        let c = bytes(n);
        let string = choice(2) == 1;
        let mut b = vec![if string { 0x40 } else { 0x50 }];
        if n < 15 { b[0] |= n as u8 } else { b[0] |= 15; b.push(n as u8) }
        b.extend_from_slice(&c);
        if b.len() < 2 { b.push(u8v()) }
        raw(&b, &|v| {
            check!(v.to_bool(), "a string or data is false");
            zero(v);
            check!(same(v.to_data(), &c), "to_data");
            check!(v.as_array().is_none() && v.as_dict().is_none(), "a scalar is a collection");
            if string {
                match core::str::from_utf8(&c) {
                    Ok(_) => { check!(same(v.to_str().as_bytes(), &c), "to_str"); cover(1) }
                    Err(_) => { check!(v.to_str().is_empty(), "to_str of invalid UTF-8"); cover(2) }
                }
            } else { check!(v.to_str().is_empty(), "data as a string"); cover(3) }
        });
    }
    fn h_c23_collections() {
        let mut e = Encoder::new();
        let dict = choice(2) == 1;
        if dict { need_ok!(e.begin_dict(), "begin") } else { need_ok!(e.begin_array(0), "begin") }
        let n = choice(3);
        for i in 0..n {
            if dict { need_ok!(e.write_key(["a", "bcd"][i as usize]), "write_key") }
            need_ok!(e.write_value(u8v()), "write_value");
        }
        let b = e.finish();
        let v = need_ok!(Value::from_bytes(&b), "decode");
        check!(v.to_bool(), "a collection is false");
        zero(v);
        check!(v.to_str().is_empty() && v.to_data().is_empty(), "contents of a collection");
        check!(v.as_dict().is_some() == dict && v.as_array().is_some() != dict, "as_array and as_dict");
        cover(if dict { 1 } else { 2 });
    }
}
