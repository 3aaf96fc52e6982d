//! C07: collections keep their elements whatever their size.
use crate::common::*;

const SIZES: [usize; 22] = [0, 1, 2, 3, 127, 128, 255, 256, 1023, 1024, 2045, 2046, 2047, 2048, 2049, 4095, 4096, 16382, 16383, 16384, 16385, 20000];
fn key(i: usize) -> [u8; 4] { [b'k', b'0' + (i / 4096) as u8, b'0' + (i / 64 % 64) as u8, b'0' + (i % 64) as u8] }
fn ks(k: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(k) } }

harnesses! {
    /// param(0)..param(1): which sizes
    fn h_c07_array() {
        let n = SIZES[(param(0) + choice(param(1))) as usize];
        let far = choice(2) == 1;
        let s = u16v() as i16;
        assume(s >= -2048 && s <= 2047);
        // three symbolic elements among concrete ones
        let at = [0, n / 2, n.saturating_sub(1)];
        let want = |i: usize| if at.contains(&i) { s } else { (i & 0x7ff) as i16 };
        let mut e = Encoder::new();
        need_ok!(e.begin_array(n), "begin_array");
        if far { far_value(&mut e); }
        let n0 = n - (far && n > 0) as usize; // keep the element count at n
        let off = n - n0;
        for i in 0..n0 { need_ok!(e.write_value(want(i)), "write_value"); }
        need_ok!(e.end_array(), "end_array");
        let b = e.finish();
        let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
        let total = n0 + far as usize;
        let off = if far { 1 } else { off };
        check!(a.len() == total, "element count");
        check!(a.get(total).is_none() && a.get(total + 1).is_none(), "element past the end");
        for i in 0..n0 { check!(need!(a.get(i + off), "element missing").to_short() == want(i), "element changed"); }
        let mut i = 0;
        for v in a { if i >= off { check!(v.to_short() == want(i - off), "element changed in iteration"); } i += 1; }
        check!(i == total, "iteration count");
        if n >= 2047 { cover(1) } else { cover(2) }
        if far { cover(3) }
    }
    fn h_c07_dict() {
        let n = SIZES[(param(0) + choice(param(1))) as usize];
        let far = choice(2) == 1 && n > 0;
        let s = u16v();
        assume(s < 2048);
        let want = |i: usize| if i == 0 || i + 1 == n { s } else { (i & 0x7ff) as u16 };
        let mut e = Encoder::new();
        need_ok!(e.begin_dict(), "begin_dict");
        for i in 0..n {
            // not in order
            let j = (i + n / 2) % n;
            need_ok!(e.write_key(ks(&key(j))), "write_key");
            if far && j == n / 3 { far_value(&mut e) } else { need_ok!(e.write_value(want(j)), "write_value"); }
        }
        need_ok!(e.end_dict(), "end_dict");
        let b = e.finish();
        let d = need_ok!(Dict::from_bytes(&b), "the document does not decode");
        check!(d.len() == n, "entry count");
        let mut i = 0;
        for (k, v) in d {
            check!(same(k.as_bytes(), &key(i)), "key changed");
            if !(far && i == n / 3) { check!(v.to_unsigned_short() == want(i), "value changed"); }
            i += 1;
        }
        check!(i == n, "iteration count");
        let step = (n / 50).max(1);
        let mut j = 0;
        while j < n {
            let v = need!(d.get(ks(&key(j))), "key not found");
            if !(far && j == n / 3) { check!(v.to_unsigned_short() == want(j), "value of a key changed"); }
            j += step;
        }
        if n > 0 { check!(need!(d.get(ks(&key(n - 1))), "last key not found").value_type() != ValueType::Null, "last value"); }
        check!(d.get(ks(&key(n))).is_none(), "key that was not written");
        if n >= 2047 { cover(1) } else { cover(2) }
        if far { cover(3) }
    }
    /// nested: a big collection inside another one
    fn h_c07_inner() {
        let n = SIZES[(param(0) + choice(param(1))) as usize];
        let s = u16v();
        assume(s < 2048);
        let mut e = Encoder::new();
        need_ok!(e.begin_array(3), "begin_array");
        need_ok!(e.write_value("first"), "write_value");
        need_ok!(e.begin_array(n), "begin_array");
        for i in 0..n { need_ok!(e.write_value(if i + 1 == n { s } else { 1 }), "write_value"); }
        need_ok!(e.end_array(), "end_array");
        need_ok!(e.write_value("last"), "write_value");
        need_ok!(e.end_array(), "end_array");
        let b = e.finish();
        let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
        check!(a.len() == 3, "outer count");
        check!(same(need!(a.get(0), "first").to_str().as_bytes(), b"first"), "neighbour changed");
        check!(same(need!(a.get(2), "last").to_str().as_bytes(), b"last"), "neighbour changed");
        let i = need!(need!(a.get(1), "inner").as_array(), "inner is not an array");
        check!(i.len() == n && i.iter().count() == n, "inner count");
        if n > 0 { check!(need!(i.get(n - 1), "inner last").to_unsigned_short() == s, "inner element changed"); }
        check!(i.get(n).is_none(), "inner element past the end");
        if n >= 2047 { cover(1) } else { cover(2) }
    }
}
