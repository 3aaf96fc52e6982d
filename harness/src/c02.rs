//! C02: floats, booleans, null, undefined and optional values survive encoding.
use crate::common::*;

fn nan64(b: u64) -> bool { b & 0x7ff0_0000_0000_0000 == 0x7ff0_0000_0000_0000 && b & 0xf_ffff_ffff_ffff != 0 }
fn nan32(b: u32) -> bool { b & 0x7f80_0000 == 0x7f80_0000 && b & 0x7f_ffff != 0 }

fn is_f32(v: &Value, bits: u32) {
    check!(v.value_type() == ValueType::Float, "an f32 came back as another type");
    let back = v.to_float().to_bits();
    if nan32(bits) {
        check!(nan32(back) && nan64(v.to_double().to_bits()), "NaN did not stay NaN");
    } else {
        check!(back == bits, "an f32 changed");
        check!(v.to_double().to_bits() == f64::from(f32::from_bits(bits)).to_bits(), "an f32 reads as a different double");
    }
}
fn is_f64(v: &Value, bits: u64) {
    check!(v.value_type() == ValueType::Double64, "an f64 came back as another type");
    let back = v.to_double().to_bits();
    if nan64(bits) { check!(nan64(back), "NaN did not stay NaN"); } else { check!(back == bits, "an f64 changed"); }
}
fn is_bool(v: &Value, b: bool) {
    check!(v.value_type() == if b { ValueType::True } else { ValueType::False }, "a boolean changed its type");
    check!(v.to_bool() == b, "a boolean changed");
}
fn is_null(v: &Value) { check!(v.value_type() == ValueType::Null, "null came back as something else"); }
fn is_undefined(v: &Value) { check!(v.value_type() == ValueType::Undefined, "undefined came back as something else"); }

harnesses! {
    fn h_c02_f32() { let b = u32v(); in_context(f32::from_bits(b), 5, &|v| is_f32(v, b)) }
    fn h_c02_f64() { let b = u64v(); in_context(f64::from_bits(b), 5, &|v| is_f64(v, b)) }
    fn h_c02_bool() { let b = u8v() & 1 == 1; in_context(b, 5, &|v| is_bool(v, b)) }
    fn h_c02_null() { in_context(NullValue, 5, &is_null) }
    fn h_c02_undefined() { in_context(UndefinedValue, 5, &is_undefined) }
    fn h_c02_option() {
        let some = choice(2) == 1;
        match choice(6) {
            0 => { let b = u64v(); if some { in_context(Some(f64::from_bits(b)), 5, &|v| is_f64(v, b)) } else { in_context(None::<f64>, 5, &is_null) } }
            1 => { let b = u8v() & 1 == 1; if some { in_context(Some(b), 5, &|v| is_bool(v, b)) } else { in_context(None::<bool>, 5, &is_null) } }
            2 => { if some { in_context(Some(UndefinedValue), 5, &is_undefined) } else { in_context(None::<UndefinedValue>, 5, &is_null) } }
            3 => {
                let b = u16v() as i16;
                let f = |v: &Value| { check!(v.value_type() == ValueType::Short || v.value_type() == ValueType::Int, "type of an optional integer"); check!(v.to_int() == b as i64, "an optional integer changed"); };
                if some { in_context(Some(b), 5, &f) } else { in_context(None::<i16>, 5, &is_null) }
            }
            4 => {
                let b: [u8; 2] = array();
                let f = |v: &Value| { check!(v.value_type() == ValueType::Data, "type of optional data"); check!(same(v.to_data(), &b), "optional data changed"); };
                if some { in_context(Some(b.as_slice()), 5, &f) } else { in_context(None::<&[u8]>, 5, &is_null) }
            }
            _ => {
                // an option inside an option
                let b = u32v();
                if some { in_context(Some(Some(f32::from_bits(b))), 5, &|v| is_f32(v, b)) } else { in_context(Some(None::<f32>), 5, &is_null) }
            }
        }
    }
}
