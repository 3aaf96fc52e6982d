//! C13: shared-key state can be saved and restored.
use crate::common::*;
use crate::keys::*;

fn same_table(a: &SharedKeys, b: &SharedKeys) {
    check!(a.len() == b.len(), "the restored table has another size");
    for i in 0..a.len() {
        let k = need!(a.decode(i), "key");
        check!(same(need!(b.decode(i), "a number decodes to nothing").as_bytes(), k.as_bytes()), "a number decodes to another key");
        check!(b.encode(k) == Some(i), "a key has another number");
    }
}
fn arbitrary(bytes: &[u8]) {
    let Some(t) = SharedKeys::from_state_bytes(bytes) else { cover(2); return };
    // then it is a list of eligible strings
    cover(3);
    let a = need!(Value::from_bytes(bytes).ok().and_then(Value::as_array), "restored from something that isn't a list");
    let mut n = 0;
    for v in a {
        check!(v.value_type() == ValueType::String, "restored from something that isn't a string");
        let k = v.to_str();
        check!(eligible(k), "restored an ineligible key");
        let i = need!(t.encode(k), "a key of the list is missing");
        check!(same(need!(t.decode(i), "key").as_bytes(), k.as_bytes()), "a number decodes to another key");
        if i as usize == n { n += 1 }
        check!((i as usize) < n, "numbers are not given in the order of the list");
    }
    check!(n == t.len() as usize, "the table has other keys than the list");
    if n > 0 { cover(4) }
}
/// n arbitrary bytes that start no character of more than (0xe0) two or (0xf0) three bytes
fn below(n: usize, limit: u64) -> Vec<u8> {
    let b = bytes(n);
    for &x in &b { assume((x as u64) < limit) }
    b
}
harnesses! {
    fn h_c13_round_trip() {
        let mut t = SharedKeys::new();
        for _ in 0..param(0) { t.encode_and_insert(&any_key(param(1), param(2))); }
        let s = t.get_state_bytes();
        let r = need!(SharedKeys::from_state_bytes(&s), "the saved state cannot be restored");
        same_table(&t, &r);
        let v = need_ok!(Value::from_bytes(&s), "the saved state is not a value");
        same_table(&t, &need!(SharedKeys::from_state_value(v), "the saved state cannot be restored"));
        // the same again
        check!(same(&r.get_state_bytes(), &s), "saving again gives other bytes");
        if t.len() as u64 == param(0) { cover(1) }
    }
    /// as a part of another document
    fn h_c13_nested() {
        let mut t = SharedKeys::new();
        for _ in 0..param(0) { t.encode_and_insert(&ascii_key(param(1))); }
        let mut e = Encoder::new();
        need_ok!(e.begin_dict(), "begin_dict");
        need_ok!(e.write_key("keys"), "write_key");
        need!(t.write_state(&mut e), "write_state");
        need_ok!(e.write_key("x"), "write_key");
        need_ok!(e.write_value(true), "write_value");
        need_ok!(e.end_dict(), "end_dict");
        let b = e.finish();
        let d = need_ok!(Dict::from_bytes(&b), "the document does not decode");
        same_table(&t, &need!(SharedKeys::from_state_value(need!(d.get("keys"), "state")), "the saved state cannot be restored"));
        cover(1);
    }
    fn h_c13_large() {
        let (mut t, _) = filled(param(0) as usize);
        let k = array::<2>();
        assume(k[0].wrapping_sub(b'a') < 26 && k[1].wrapping_sub(b'0') < 10);
        t.encode_and_insert(unsafe { core::str::from_utf8_unchecked(&k) });
        let r = need!(SharedKeys::from_state_bytes(&t.get_state_bytes()), "the saved state cannot be restored");
        check!(t.len() == r.len(), "the restored table has another size");
        for i in 0..t.len() {
            let k = need!(t.decode(i), "key");
            check!(same(need!(r.decode(i), "a number decodes to nothing").as_bytes(), k.as_bytes()), "a number decodes to another key");
            if i % 256 == 0 || i > 2045 { check!(r.encode(k) == Some(i), "a key has another number") }
        }
        if t.len() == 2048 { cover(1) }
    }
    /// arbitrary bytes
    fn h_c13_bytes() {
        let n = choice(param(0) + 1) as usize;
        let mut b = below(n, param(2));
        if param(1) == 1 { b.extend_from_slice(&[0x80, (n / 2) as u8]); }
        arbitrary(&b);
    }
    /// a list of two arbitrary narrow elements (strings of up to one byte, pointers, anything) behind arbitrary bytes
    fn h_c13_list() {
        let n = param(0) as usize;
        let count = choice(3);
        let mut b = below(n, param(1));
        b.extend_from_slice(&[0x60, count as u8]);
        for _ in 0..count { b.extend_from_slice(&array::<2>()); }
        let d = (2 + 2 * count) / 2;
        b.extend_from_slice(&[0x80, d as u8]);
        arbitrary(&b);
    }
    /// a list written by the encoder, of strings (eligible or not, repeated or not) and other values
    fn h_c13_written() {
        let mut e = Encoder::new();
        need_ok!(e.begin_array(0), "begin_array");
        for _ in 0..param(0) {
            match choice(4) {
                0 => need_ok!(e.write_value(u16v()), "write_value"),
                1 => { need_ok!(e.begin_array(0), "begin_array"); need_ok!(e.end_array(), "end_array"); }
                _ => need_ok!(e.write_value(any_key(param(1), param(2)).as_str()), "write_value"),
            }
        }
        arbitrary(&e.finish());
    }
}
