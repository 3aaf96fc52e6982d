//! C01: every integer of every width survives encoding.
use crate::common::*;

/// Reads an element that was written as the integer whose 64-bit pattern is `bits`.
fn check_int(v: &Value, bits: u64, signed: bool) {
    let ty = v.value_type();
    check!(ty == ValueType::Short || ty == ValueType::Int || ty == ValueType::UnsignedInt, "an integer came back as another type");
    check!(v.to_int() == bits as i64, "to_int differs from the number written");
    check!(v.to_unsigned_int() == bits, "to_unsigned_int differs from the number written");
    if signed {
        let s = bits as i64;
        // an integer above i64::MAX can only have been written unsigned
        if s >= i16::MIN as i64 && s <= i16::MAX as i64 {
            check!(v.to_short() as i64 == s, "to_short differs from the number written");
        }
    }
    if (!signed || bits as i64 >= 0) && bits <= u16::MAX as u64 {
        check!(v.to_unsigned_short() as u64 == bits, "to_unsigned_short differs from the number written");
    }
    if !signed && bits <= i16::MAX as u64 {
        check!(v.to_short() as u64 == bits, "to_short differs from the number written");
    }
}

fn in_array<T: Encodable + Copy>(v: T, bits: u64, signed: bool) {
    // neighbours on both sides: a wrong size shows up there
    let before = choice(2) == 1;
    let mut e = Encoder::new();
    need_ok!(e.begin_array(3), "begin_array");
    if before { need_ok!(e.write_value("abc"), "write neighbour"); }
    need_ok!(e.write_value(v), "write_value");
    need_ok!(e.write_value(12345u64), "write neighbour");
    need_ok!(e.end_array(), "end_array");
    let b = e.finish();
    let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
    let i = before as usize;
    check!(a.len() == i + 2, "element count");
    if before { check!(same(need!(a.get(0), "neighbour").to_str().as_bytes(), b"abc"), "neighbour changed"); }
    check_int(need!(a.get(i), "element missing"), bits, signed);
    check!(need!(a.get(i + 1), "neighbour").to_unsigned_int() == 12345, "neighbour changed");
    cover(1);
}

fn in_dict<T: Encodable + Copy>(v: T, bits: u64, signed: bool) {
    let mut e = Encoder::new();
    need_ok!(e.begin_dict(), "begin_dict");
    need_ok!(e.write_key("key"), "write_key");
    need_ok!(e.write_value(v), "write_value");
    need_ok!(e.end_dict(), "end_dict");
    let b = e.finish();
    let d = need_ok!(Dict::from_bytes(&b), "the document does not decode");
    check!(d.len() == 1, "entry count");
    check_int(need!(d.get("key"), "entry missing"), bits, signed);
    cover(2);
}

fn both<T: Encodable + Copy>(v: T, bits: u64, signed: bool) {
    if choice(2) == 0 { in_array(v, bits, signed) } else { in_dict(v, bits, signed) }
}

harnesses! {
    fn h_c01_i8() { let v = u8v() as i8; both(v, v as i64 as u64, true) }
    fn h_c01_i16() { let v = u16v() as i16; both(v, v as i64 as u64, true) }
    fn h_c01_i32() { let v = u32v() as i32; both(v, v as i64 as u64, true) }
    fn h_c01_i64() { let v = u64v() as i64; both(v, v as u64, true) }
    fn h_c01_isize() { let v = u64v() as isize; both(v, v as u64, true) }
    fn h_c01_u8() { let v = u8v(); both(v, v as u64, false) }
    fn h_c01_u16() { let v = u16v(); both(v, v as u64, false) }
    fn h_c01_u32() { let v = u32v(); both(v, v as u64, false) }
    fn h_c01_u64() { let v = u64v(); both(v, v, false) }
    fn h_c01_usize() { let v = u64v() as usize; both(v, v as u64, false) }
}
