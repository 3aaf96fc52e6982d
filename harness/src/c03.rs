//! C03: strings and binary data survive encoding.
use crate::common::*;

fn is_str(v: &Value, s: &[u8]) {
    check!(v.value_type() == ValueType::String, "a string came back as another type");
    check!(same(v.to_str().as_bytes(), s), "a string changed");
    check!(same(v.to_data(), s), "the bytes of a string changed");
}
fn is_data(v: &Value, s: &[u8]) {
    check!(v.value_type() == ValueType::Data, "data came back as another type");
    check!(same(v.to_data(), s), "data changed");
    check!(v.to_str().is_empty(), "data reads as a string");
}
/// n bytes, symbolic at both ends
fn ends(n: usize, ascii: bool) -> Vec<u8> {
    let mut b = vec![0x61u8; n];
    for i in 0..n {
        if i < 4 || i + 4 >= n {
            let x = u8v();
            if ascii { assume(x < 0x80) }
            b[i] = x;
        }
    }
    b
}
const LONG: [usize; 12] = [0x1000, 0x3ff0, 0x3ffe, 0x3fff, 0x4000, 0x4001, 0x7ffe, 0x8000, 0xffff, 0x10000, 0x1fffff, 0x200000];

harnesses! {
    // every UTF-8 string of up to param(0) bytes
    fn h_c03_str_short() { let s = string(param(0)); in_context(s.as_str(), 5, &|v| is_str(v, s.as_bytes())) }
    // every ASCII string of each length
    fn h_c03_str_ascii() { let n = param(0) + choice(param(1)); let s = ends(n as usize, true); let t = unsafe { core::str::from_utf8_unchecked(&s) }; in_context(t, 5, &|v| is_str(v, &s)) }
    fn h_c03_data() { let n = param(0) + choice(param(1)); let s = bytes(n as usize); in_context(s.as_slice(), 5, &|v| is_data(v, &s)) }
    // lengths on both sides of each size boundary of the count
    fn h_c03_str_long() { let n = LONG[choice(param(0)) as usize]; let s = ends(n, true); let t = unsafe { core::str::from_utf8_unchecked(&s) }; in_context(t, 4, &|v| is_str(v, &s)) }
    fn h_c03_data_long() { let n = LONG[choice(param(0)) as usize]; let s = ends(n, false); in_context(s.as_slice(), 4, &|v| is_data(v, &s)) }
}
