//! C17: mutable copies are faithful and independent.
use crate::common::*;
use crate::hist::*;
use crate::mirror::*;
use std::sync::Arc;

fn table() -> SharedKeys {
    let mut t = SharedKeys::new();
    t.encode_and_insert("keyb");
    t.encode_and_insert("other");
    t
}
/// All the ways to copy the root of a scope.
fn copies(s: &Arc<Scope>, edit: bool) {
    let root = need!(s.root(), "the document does not decode");
    let before = need!(s.data(), "data").to_vec();
    if let Some(a) = root.as_array() {
        let mut m = match choice(4) {
            0 => MutableArray::from(a),
            1 => MutableArray::clone_from(a),
            2 => need!(MutableArray::from_scope(s), "from_scope"),
            _ => MutableArray::from(need!(root.clone().to_array(), "to_array")),
        };
        copy_of_array(&m, a, true);
        check!(MutableDict::from_scope(s).is_none(), "an array is no dict");
        if edit {
            m.push(&1u8);
            m.set(0, "something else which is not inline");
            m.remove(1);
            let c = m.clone();
            drop(m);
            check!(c.get(0).is_some(), "element");
        } else { drop(root); copy_of_array(&m, need!(s.root(), "root").as_array().unwrap(), true) }
        cover(1);
    } else {
        let d = need!(root.as_dict(), "neither array nor dict");
        let mut m = match choice(4) {
            0 => d.to_mutable(),
            1 => MutableDict::clone_from(d),
            2 => need!(MutableDict::from_scope(s), "from_scope"),
            _ => MutableDict::from(need!(root.clone().to_dict(), "to_dict")),
        };
        copy_of_dict(&m, d, true);
        check!(MutableArray::from_scope(s).is_none(), "a dict is no array");
        if edit {
            m.insert("keyb", "something else which is not inline");
            m.insert("new", 1u8);
            m.remove("keya");
        }
        cover(2);
    }
    check!(same(&need!(s.data(), "data"), &before), "editing the copy changes the source");
}
harnesses! {
    /// [operations, set of operations, with shared keys, edit]
    fn h_c17_history() {
        let mut m = Model::new();
        let mut e = Encoder::new();
        if param(2) == 1 { e.set_shared_keys(table()) }
        for i in 0..param(0) {
            let o = any_op(param(1), i as u8);
            assume(m.apply(o));
            if !call(&mut e, o) { fail("a call that is in order fails") }
        }
        if m.nodes.is_empty() { return }
        copies(&e.finish_scoped(), param(3) == 1);
    }
    /// scalars of every type: numbers
    fn h_c17_numbers() {
        let (f, g) = (u64v(), u32v());
        let mut e = Encoder::new();
        need_ok!(e.begin_array(1), "begin_array");
        match choice(7) {
            0 => need_ok!(e.write_value(any_u64()), "write_value"),
            1 => need_ok!(e.write_value(any_i64()), "write_value"),
            2 => need_ok!(e.write_value(f64::from_bits(f)), "write_value"),
            3 => need_ok!(e.write_value(f32::from_bits(g)), "write_value"),
            4 => need_ok!(e.write_value(g & 1 == 1), "write_value"),
            5 => need_ok!(e.write_value(NullValue), "write_value"),
            _ => need_ok!(e.write_value(UndefinedValue), "write_value"),
        }
        need_ok!(e.end_array(), "end_array");
        let b = e.finish();
        let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
        copy_of_array(&MutableArray::from(a), a, true);
        cover(3);
    }
    /// strings and data
    fn h_c17_texts() {
        let n = choice(param(0)) as usize;
        let wide = choice(2) == 1;
        let b = bytes(n);
        let s = ascii(n);
        let mut e = Encoder::new();
        need_ok!(e.begin_dict(), "begin_dict");
        if wide { need_ok!(e.write_key("far"), "write_key"); far_value(&mut e); }
        need_ok!(e.write_key("b"), "write_key");
        need_ok!(e.write_value(b.as_slice()), "write_value");
        need_ok!(e.write_key("s"), "write_key");
        need_ok!(e.write_value(s.as_str()), "write_value");
        need_ok!(e.end_dict(), "end_dict");
        let out = e.finish();
        let d = need_ok!(Dict::from_bytes(&out), "the document does not decode");
        let m = d.to_mutable();
        check!(m.len() == d.len(), "number of keys");
        let v = need!(m.get("b"), "data");
        check!(v.value_type() == ValueType::Data && same(v.to_data(), &b), "other data");
        let v = need!(m.get("s"), "string");
        check!(v.value_type() == ValueType::String && same(v.to_str().as_bytes(), s.as_bytes()), "another string");
        if wide { check!(need!(m.get("far"), "far").to_data().len() == FAR, "other data"); cover(4) } else { cover(5) }
    }
    /// long strings and data: copied, the copies cloned, the clones edited
    fn h_c17_long() {
        let n = LONG[choice(param(0)) as usize];
        let in_dict = choice(2) == 1;
        let text = choice(2) == 1;
        let b = long_bytes(n);
        if text { assume((b[0] | b[n / 2] | b[n - 1]) < 0x80) }
        let mut e = Encoder::new();
        if in_dict { need_ok!(e.begin_dict(), "begin_dict"); need_ok!(e.write_key("keya"), "write_key") } else { need_ok!(e.begin_array(2), "begin_array") }
        if text { need_ok!(e.write_value(unsafe { core::str::from_utf8_unchecked(&b) }), "write_value") } else { need_ok!(e.write_value(b.as_slice()), "write_value") }
        if in_dict { need_ok!(e.write_key("keyb"), "write_key") }
        need_ok!(e.write_value(5u8), "write_value");
        if in_dict { need_ok!(e.end_dict(), "end_dict") } else { need_ok!(e.end_array(), "end_array") }
        let s = e.finish_scoped();
        let root = need!(s.root(), "the document does not decode");
        if let Some(a) = root.as_array() {
            let m = MutableArray::from(a);
            copy_of_array(&m, a, true);
            let mut c = m.clone();
            copy_of_array(&c, a, true);
            let d = c.clone();
            c.remove(0);
            drop(c);
            copy_of_array(&d, a, true);
            copy_of_array(&m, a, true);
            cover(9);
        } else {
            let a = need!(root.as_dict(), "dict");
            let m = a.to_mutable();
            copy_of_dict(&m, a, true);
            let mut c = m.clone();
            copy_of_dict(&c, a, true);
            let d = c.clone();
            c.remove("keya");
            drop(c);
            copy_of_dict(&d, a, true);
            copy_of_dict(&m, a, true);
            cover(10);
        }
    }
    /// wide collections in wide collections
    fn h_c17_wide() {
        let (x, y) = (u16v(), u32v());
        let mut e = Encoder::new();
        need_ok!(e.begin_array(1), "begin_array");
        need_ok!(e.begin_dict(), "begin_dict");
        need_ok!(e.write_key("key"), "write_key");
        need_ok!(e.write_value(y), "write_value");
        far_value_in(&mut e, "far");
        need_ok!(e.end_dict(), "end_dict");
        need_ok!(e.write_value(x), "write_value");
        need_ok!(e.begin_array(1), "begin_array");
        need_ok!(e.write_value(y), "write_value");
        need_ok!(e.end_array(), "end_array");
        need_ok!(e.end_array(), "end_array");
        let b = e.finish();
        let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
        let m = MutableArray::from(a);
        check!(m.len() == 3, "length");
        let d = need!(m.get_dict(0), "dict");
        check!(d.len() == 2 && need!(d.get("key"), "key").to_unsigned_int() == y as u64 && need!(d.get("far"), "far").to_data().len() == FAR, "wide dict");
        check!(need!(m.get(1), "element").to_unsigned_int() == x as u64, "element");
        let l = need!(m.get_array(2), "array");
        check!(l.len() == 1 && need!(l.get(0), "element").to_unsigned_int() == y as u64, "inner array");
        cover(6);
    }
    /// a scalar in any accepted encoding, behind a narrow or a wide pointer
    fn h_c17_any() {
        let n = 2 + 2 * choice(param(0)) as usize;
        let mut b = bytes(n);
        let p = (n / 2) as u8;
        if choice(2) == 0 { b.extend_from_slice(&[0x60, 1, 0x80, p + 1, 0x80, 2]) } else { b.extend_from_slice(&[0x68, 1, 0x80, 0, 0, p + 1, 0x80, 3]) }
        let Ok(v) = Value::from_bytes(&b) else { cover(7); return };
        let a = need!(v.as_array(), "array");
        let v = need!(a.get(0), "element");
        if class(&v.value_type()) >= 7 { return }
        cover(8);
        copy_of_array(&MutableArray::from(a), a, false);
    }
}
fn far_value_in(e: &mut Encoder, k: &str) { need_ok!(e.write_key(k), "write_key"); far_value(e) }
