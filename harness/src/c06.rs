//! C06: content survives whatever the pointer distance.
use crate::common::*;

fn filler(e: &mut Encoder, n: usize) { let f = vec![0x5au8; n]; need_ok!(e.write_value(f.as_slice()), "write filler"); }
fn is_filler(v: &Value, n: usize) { check!(v.value_type() == ValueType::Data && v.to_data().len() == n, "filler changed"); check!(v.to_data()[n - 1] == 0x5a && v.to_data()[0] == 0x5a, "filler changed"); }
/// The distance under test: param(0) + 2 * (0..param(1))
fn distance() -> usize { (param(0) + 2 * choice(param(1))) as usize }
fn format_key(c: char, tail: &str) -> String { let mut s = String::from(c); s.push_str(tail); s }
const BEFORE: [usize; 4] = [0, 1, 2, 200];

harnesses! {
    /// an array whose elements point back over a long value, with inline elements in front of them
    fn h_c06_array() {
        let n = distance();
        let before = BEFORE[choice(param(2)) as usize];
        let tail = choice(2) == 1;
        let mark = u32v();
        let mut e = Encoder::new();
        need_ok!(e.begin_array(0), "begin_array");
        for i in 0..before { need_ok!(e.write_value(i as i16), "write"); }
        need_ok!(e.write_value(mark as u64 + 0x1_0000_0000), "write");
        filler(&mut e, n);
        need_ok!(e.write_value("end"), "write");
        if tail { need_ok!(e.write_value(7i16), "write"); }
        need_ok!(e.end_array(), "end_array");
        let b = e.finish();
        check!(b.len() % 2 == 0, "odd size");
        let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
        check!(a.len() == before + 3 + tail as usize, "length");
        for i in 0..before { check!(need!(a.get(i), "get").to_int() == i as i64, "inline element changed"); }
        check!(need!(a.get(before), "get").to_unsigned_int() == mark as u64 + 0x1_0000_0000, "far element changed");
        is_filler(need!(a.get(before + 1), "get"), n);
        check!(same(need!(a.get(before + 2), "get").to_str().as_bytes(), b"end"), "near element changed");
        if tail { check!(need!(a.get(before + 3), "get").to_int() == 7, "last element changed"); }
        if a.is_wide() { cover(1) } else { cover(2) }
    }
    /// a dict: far keys, far values, sorted behind other entries
    fn h_c06_dict() {
        let n = distance();
        let before = BEFORE[choice(param(2)) as usize];
        let far_key_last = choice(2) == 1;
        let mark = u16v();
        let mut e = Encoder::new();
        need_ok!(e.begin_dict(), "begin_dict");
        // written first, so its key (and value) is far; sorts first or last
        let k = if far_key_last { "zzz" } else { "aaa" };
        need_ok!(e.write_key(k), "key");
        need_ok!(e.write_value(mark as u64 + 0x1_0000), "write");
        need_ok!(e.write_key("mm"), "key");
        filler(&mut e, n);
        for i in 0..before {
            let key = [b'n', b'0' + (i / 64) as u8, b'0' + (i % 64) as u8];
            need_ok!(e.write_key(core::str::from_utf8(&key).unwrap()), "key");
            need_ok!(e.write_value(i as i16), "write");
        }
        need_ok!(e.end_dict(), "end_dict");
        let b = e.finish();
        let d = need_ok!(Dict::from_bytes(&b), "the document does not decode");
        check!(d.len() == before + 2, "length");
        check!(need!(d.get(k), "the far key is not found").to_unsigned_int() == mark as u64 + 0x1_0000, "far value changed");
        is_filler(need!(d.get("mm"), "a key is not found"), n);
        for i in 0..before {
            let key = [b'n', b'0' + (i / 64) as u8, b'0' + (i % 64) as u8];
            check!(need!(d.get(core::str::from_utf8(&key).unwrap()), "a key is not found").to_int() == i as i64, "value changed");
        }
        let mut cnt = 0;
        for (key, _) in d { check!(!key.is_empty(), "a key is empty"); cnt += 1; }
        check!(cnt == before + 2, "iteration count");
        if d.is_wide() { cover(1) } else { cover(2) }
    }
    /// dict entries with every mixture of inline, pointed-to and shared keys and inline and pointed-to values
    fn h_c06_keys() {
        let n = distance();
        let count = param(2) as usize;
        let shared = param(3) == 1;
        let descending = choice(2) == 1;
        let at = choice(count as u64) as usize;
        let mark = u16v();
        let mut e = Encoder::new();
        if shared { e.set_shared_keys(SharedKeys::new()) }
        need_ok!(e.begin_dict(), "begin_dict");
        let mut kinds = [(0, 0); 4];
        let name = |i: usize, kind: u64| -> String {
            let c = (b'b' + if descending { count - 1 - i } else { i } as u8) as char;
            match kind { 0 => String::from(if shared { (b'!' + if descending { count - 1 - i } else { i } as u8) as char } else { c }), 1 => format_key(c, "?!"), _ => format_key(c, "s") }
        };
        for i in 0..count {
            let kk = choice(if shared { 3 } else { 2 });
            let vk = if i == at { 2 } else { choice(2) };
            kinds[i] = (kk, vk);
            need_ok!(e.write_key(&name(i, kk)), "key");
            match vk { 0 => need_ok!(e.write_value((mark & 0x3ff) as i16), "write"), 1 => need_ok!(e.write_value(mark as u64 + 0x1_0000), "write"), _ => filler(&mut e, n) }
        }
        need_ok!(e.end_dict(), "end_dict");
        let scope = e.finish_scoped();
        let b = need!(scope.data(), "no data");
        let d = need_ok!(Dict::from_bytes(&b), "the document does not decode");
        check!(d.len() == count, "length");
        for i in 0..count {
            let (kk, vk) = kinds[i];
            let v = need!(d.get(&name(i, kk)), "a key is not found");
            match vk { 0 => check!(v.to_int() == (mark & 0x3ff) as i64, "an inline value changed"), 1 => check!(v.to_unsigned_int() == mark as u64 + 0x1_0000, "a pointed-to value changed"), _ => is_filler(v, n) }
        }
        let mut cnt = 0;
        for (key, _) in d { check!((0..count).any(|i| same(name(i, kinds[i].0).as_bytes(), key.as_bytes())), "a key changed"); cnt += 1; }
        check!(cnt == count, "iteration count");
        if d.is_wide() { cover(1) } else { cover(2) }
    }
    /// a nested collection, then a long value, then its parent
    fn h_c06_nested() {
        let n = distance();
        let before = BEFORE[choice(param(2)) as usize];
        let inner_dict = choice(2) == 1;
        let mark = u16v();
        let mut e = Encoder::new();
        need_ok!(e.begin_array(0), "begin_array");
        for i in 0..before { need_ok!(e.write_value(i as i16), "write"); }
        if inner_dict {
            need_ok!(e.begin_dict(), "begin_dict");
            need_ok!(e.write_key("key"), "key");
            need_ok!(e.write_value(mark as u64 + 0x1_0000), "write");
            need_ok!(e.end_dict(), "end_dict");
        } else {
            need_ok!(e.begin_array(1), "begin_array");
            need_ok!(e.write_value(mark as u64 + 0x1_0000), "write");
            need_ok!(e.end_array(), "end_array");
        }
        filler(&mut e, n);
        need_ok!(e.end_array(), "end_array");
        let b = e.finish();
        let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
        check!(a.len() == before + 2, "length");
        let inner = need!(a.get(before), "get");
        let v = if inner_dict { need!(need!(inner.as_dict(), "nested dict").get("key"), "nested key") } else { need!(need!(inner.as_array(), "nested array").get(0), "nested element") };
        check!(v.to_unsigned_int() == mark as u64 + 0x1_0000, "nested value changed");
        is_filler(need!(a.get(before + 1), "get"), n);
        if a.is_wide() { cover(1) } else { cover(2) }
    }
    /// the root pointer: a collection whose own elements span the limit
    fn h_c06_root() {
        let n = (distance() - 10) / 2; // elements of two bytes each
        let wide = choice(2) == 1;
        let ptrs = choice(3);
        let mark = u16v();
        let mut e = Encoder::new();
        need_ok!(e.begin_array(n), "begin_array");
        if wide { need_ok!(e.write_value(mark as u64 + 0x1_0000), "write"); filler(&mut e, 20_000) }
        // up to two pointers at the far end
        let n = if wide { n / 2 } else { n };
        for i in 0..n { need_ok!(e.write_value((i & 0x3ff) as i16), "write"); }
        for i in 0..ptrs { need_ok!(e.write_value(0x1_0000 + i), "write"); }
        need_ok!(e.end_array(), "end_array");
        let b = e.finish();
        let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
        let o = if wide { 2 } else { 0 };
        check!(a.len() == n + o + ptrs as usize, "length");
        if wide { check!(need!(a.get(0), "get").to_unsigned_int() == mark as u64 + 0x1_0000, "first element changed"); }
        let mut i = 0;
        for v in a {
            if i >= o && i < o + n { check!(v.to_int() == ((i - o) & 0x3ff) as i64, "element changed"); }
            if i >= o + n { check!(v.to_unsigned_int() == 0x1_0000 + (i - o - n) as u64, "pointed-to element changed"); }
            i += 1;
        }
        check!(i == n + o + ptrs as usize, "iteration count");
        let r = unsafe { Value::from_bytes_unchecked(&b) };
        check!(core::ptr::eq(r as *const Value as *const u8, a as *const Array as *const u8), "unchecked root");
        if b[b.len() - 2] == 0x80 && b[b.len() - 1] == 2 { cover(1) } else { cover(2) }
    }
    /// many small pointed-to values: every element a pointer, their distances shrinking along the array
    fn h_c06_span() {
        let n = (param(0) + choice(param(1))) as usize;
        let mark = u16v();
        let dict = choice(2) == 1;
        let mut e = Encoder::new();
        if dict {
            need_ok!(e.begin_dict(), "begin_dict");
            for i in 0..n {
                // written in descending order of the keys
                let j = n - 1 - i;
                let key = [b'k', b'0' + (j / 4096) as u8, b'0' + (j / 64 % 64) as u8, b'0' + (j % 64) as u8];
                need_ok!(e.write_key(core::str::from_utf8(&key).unwrap()), "key");
                need_ok!(e.write_value(0x1_0000 + (if i == 0 { mark as u64 } else { j as u64 })), "write");
            }
            need_ok!(e.end_dict(), "end_dict");
        } else {
            need_ok!(e.begin_array(n), "begin_array");
            for i in 0..n { need_ok!(e.write_value(0x1_0000 + (if i == 0 { mark as u64 } else { i as u64 })), "write"); }
            need_ok!(e.end_array(), "end_array");
        }
        let b = e.finish();
        if dict {
            let d = need_ok!(Dict::from_bytes(&b), "the document does not decode");
            check!(d.len() == n, "length");
            let mut j = 0;
            for (k, v) in d {
                let key = [b'k', b'0' + (j / 4096) as u8, b'0' + (j / 64 % 64) as u8, b'0' + (j % 64) as u8];
                check!(same(k.as_bytes(), &key), "key changed");
                check!(v.to_unsigned_int() == 0x1_0000 + (if j == n - 1 { mark as u64 } else { j as u64 }), "value changed");
                j += 1;
            }
            check!(j == n, "iteration count");
            if d.is_wide() { cover(1) } else { cover(2) }
        } else {
            let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
            check!(a.len() == n, "length");
            for i in 0..n { check!(need!(a.get(i), "get").to_unsigned_int() == 0x1_0000 + (if i == 0 { mark as u64 } else { i as u64 }), "element changed"); }
            if a.is_wide() { cover(1) } else { cover(2) }
        }
    }
}
