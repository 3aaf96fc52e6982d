//! C25: unchecked decoding agrees with checked decoding.
use crate::common::*;

fn address(v: &Value) -> usize { v as *const Value as *const u8 as usize }
fn agree(b: &[u8]) { agree_up_to(b, usize::MAX) }
/// Compares no more than `most` bytes of the value's contents.
fn agree_up_to(b: &[u8], most: usize) {
    let Ok(v) = Value::from_bytes(b) else { return };
    cover(1);
    let u = unsafe { Value::from_bytes_unchecked(b) };
    check!(address(u) == address(v) && u.len() == v.len(), "another value");
    check!(u.value_type() == v.value_type(), "another type");
    match v.value_type() {
        ValueType::Array => cover(2),
        ValueType::Dict => cover(3),
        _ => cover(4),
    }
    if most < b.len() { return }
    let o = unsafe { Value::clone_from_bytes_unchecked(b) };
    let p = need_ok!(Value::clone_from_bytes(b), "clone_from_bytes");
    check!(o.len() == v.len() && p.len() == v.len() && o.value_type() == v.value_type() && p.value_type() == v.value_type(), "another owned value");
    // the same place within the copy: the value reaches up to what points to it, so compare its bytes
    let raw = |v: &Value| unsafe { core::slice::from_raw_parts(address(v) as *const u8, v.len().min(most)) }.to_vec();
    check!(same(&raw(&o), &raw(v)), "other contents in the unchecked copy");
    check!(same(&raw(&p), &raw(v)), "other contents in the checked copy");
}
harnesses! {
    fn h_c25_bytes() {
        let n = param(0) + choice(param(1));
        agree(&bytes(n as usize));
    }
    /// chains of pointers at the end
    fn h_c25_chain() {
        let mut b = bytes(param(0) as usize);
        // a wide pointer before the root
        let off = 1 + choice(param(0) / 2 + 1) as u32;
        b.extend_from_slice(&(0x8000_0000u32 | off).to_be_bytes());
        b.extend_from_slice(&[0x80, 2]);
        agree(&b);
        cover(6);
    }
    /// a wide pointer over a long way: the target's first bytes and the distance arbitrary
    fn h_c25_far() {
        let n = [1 << 25, 65_536, (1 << 25) - 2, 131_072, 40_000, 65_534, 1 << 20, (1 << 25) + 6][choice(param(0)) as usize];
        let mut b = vec![0u8; n + 6];
        b[..4].copy_from_slice(&bytes(4));
        // collections of few elements
        assume(b[0] < 0x60 || (b[0] & 7 == 0 && b[1] < 3));
        let off = ((n / 2) as u32).wrapping_sub(choice(2) as u32);
        b[n..n + 4].copy_from_slice(&(0x8000_0000u32 | off).to_be_bytes());
        b[n + 4] = 0x80;
        b[n + 5] = 2;
        agree_up_to(&b, 64);
        cover(6);
    }
    /// finished documents, with near and far roots
    fn h_c25_encoded() {
        let mut e = Encoder::new();
        let dict = choice(2) == 1;
        if dict { need_ok!(e.begin_dict(), "begin_dict") } else { need_ok!(e.begin_array(0), "begin_array") }
        let n = match choice(param(0)) { 0 => 0, 1 => 1, 2 => 2, k => 4080 + 4 * (k as usize - 3) };
        for i in 0..n {
            if dict {
                let k = [b'a' + (i / 676 % 26) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i % 26) as u8, b'0' + (i / 17576) as u8];
                need_ok!(e.write_key(unsafe { core::str::from_utf8_unchecked(&k[..]) }), "write_key");
            }
            if i == 0 { need_ok!(e.write_value(u8v() as u16 + 3), "write_value") } else { need_ok!(e.write_value(7u8), "write_value") }
            if !dict { need_ok!(e.write_value(7u8), "write_value") }
        }
        if n > 1000 { cover(5) }
        let b = e.finish();
        check!(Value::from_bytes(&b).is_ok(), "the document does not decode");
        agree(&b);
    }
}
