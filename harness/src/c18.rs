//! C18: re-encoding a decoded value preserves it.
use crate::common::*;
use crate::hist::*;
use crate::mirror::*;
use std::sync::Arc;

fn table() -> SharedKeys {
    let mut t = SharedKeys::new();
    t.encode_and_insert("keyb");
    t.encode_and_insert("other");
    t
}
const ALL: &[u8] = &[0, 1, 2, 3, 4];
fn again(v: &Value) -> Vec<u8> {
    let mut e = Encoder::new();
    need_ok!(e.write_fleece(v), "write_fleece");
    e.finish()
}
/// Write `v` by itself and within other collections, with or without shared keys, and compare.
fn rewrite(v: &Value, exact: bool, contexts: &[u8]) {
    let shared = contexts.len() > 2 && choice(2) == 1;
    let mut e = Encoder::new();
    if shared { e.set_shared_keys(table()) }
    let ctx = contexts[choice(contexts.len() as u64) as usize];
    let coll = class(&v.value_type()) >= 7;
    if ctx == 0 && !coll {
        check!(e.write_fleece(v).is_err(), "a scalar becomes the document");
        return;
    }
    match ctx {
        0 => need_ok!(e.write_fleece(v), "write_fleece"),
        1 | 2 => {
            need_ok!(e.begin_array(2), "begin_array");
            if ctx == 2 { far_value(&mut e) } else { need_ok!(e.write_value("abc"), "write_value") }
            need_ok!(e.write_fleece(v), "write_fleece");
            need_ok!(e.write_value(12345u64), "write_value");
            need_ok!(e.end_array(), "end_array");
        }
        _ => {
            need_ok!(e.begin_dict(), "begin_dict");
            if ctx == 4 { need_ok!(e.write_key("far"), "write_key"); far_value(&mut e) }
            need_ok!(e.write_key("other"), "write_key");
            need_ok!(e.write_fleece(v), "write_fleece");
            need_ok!(e.write_key("keyb"), "write_key");
            need_ok!(e.write_value(12345u64), "write_value");
            need_ok!(e.end_dict(), "end_dict");
        }
    }
    let s = e.finish_scoped();
    let root = need!(s.root(), "the document does not decode");
    let w = match ctx {
        0 => &*root,
        1 | 2 => {
            let a = need!(root.as_array(), "array");
            check!(a.len() == 3 && need!(a.get(2), "element").to_int() == 12345, "neighbour");
            if ctx == 1 { check!(same(need!(a.get(0), "element").to_str().as_bytes(), b"abc"), "neighbour") }
            need!(a.get(1), "element")
        }
        _ => {
            let d = need!(root.as_dict(), "dict");
            check!(d.len() == 2 + (ctx == 4) as usize && need!(d.get("keyb"), "neighbour").to_int() == 12345, "neighbour");
            need!(d.get("other"), "element")
        }
    };
    same_value(v, w, exact);
    cover(10 + ctx as u32);
    if shared { cover(20) }
}
harnesses! {
    /// [operations, set of operations, source with shared keys]
    fn h_c18_history() {
        let mut m = Model::new();
        let mut e = Encoder::new();
        if param(2) == 1 { e.set_shared_keys(table()) }
        for i in 0..param(0) {
            let o = any_op(param(1), i as u8);
            assume(m.apply(o));
            if !call(&mut e, o) { fail("a call that is in order fails") }
        }
        if m.nodes.is_empty() { return }
        let s = e.finish_scoped();
        let root = need!(s.root(), "the document does not decode");
        rewrite(&root, true, ALL);
        let once = again(&root);
        let twice = again(need_ok!(Value::from_bytes(&once), "the document does not decode"));
        check!(same(&once, &twice), "encoding again gives other bytes");
        cover(1);
    }
    fn h_c18_numbers() {
        let (f, g) = (u64v(), u32v());
        let mut e = Encoder::new();
        need_ok!(e.begin_array(1), "begin_array");
        match choice(7) {
            0 => need_ok!(e.write_value(any_u64()), "write_value"),
            1 => need_ok!(e.write_value(any_i64()), "write_value"),
            2 => need_ok!(e.write_value(f64::from_bits(f)), "write_value"),
            3 => need_ok!(e.write_value(f32::from_bits(g)), "write_value"),
            4 => need_ok!(e.write_value(g & 1 == 1), "write_value"),
            5 => need_ok!(e.write_value(NullValue), "write_value"),
            _ => need_ok!(e.write_value(UndefinedValue), "write_value"),
        }
        need_ok!(e.end_array(), "end_array");
        let b = e.finish();
        let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
        let v = need!(a.get(0), "element");
        if choice(2) == 0 { return rewrite(v, true, if choice(2) == 0 { &[1] } else { &[3] }) }
        let once = again(need_ok!(Value::from_bytes(&b), "document"));
        // a NaN may become another NaN
        if !v.to_double().is_nan() { check!(same(&once, &b), "encoding again gives other bytes"); cover(1) } else { check!(once.len() == b.len(), "encoding again gives other bytes") }
    }
    fn h_c18_texts() {
        let n = choice(param(0)) as usize;
        let b = bytes(n);
        let s = ascii(n);
        let mut e = Encoder::new();
        need_ok!(e.begin_array(1), "begin_array");
        need_ok!(e.write_value(b.as_slice()), "write_value");
        need_ok!(e.write_value(s.as_str()), "write_value");
        need_ok!(e.end_array(), "end_array");
        let d = e.finish();
        let v = need_ok!(Value::from_bytes(&d), "the document does not decode");
        rewrite(v, true, ALL);
        check!(same(&again(v), &d), "encoding again gives other bytes");
        cover(1);
    }
    /// a wide source
    fn h_c18_wide() {
        let (x, y) = (u16v(), 0x7100_0000 | u16v() as u32);
        let mut e = Encoder::new();
        need_ok!(e.begin_array(1), "begin_array");
        need_ok!(e.begin_dict(), "begin_dict");
        need_ok!(e.write_key("key"), "write_key");
        need_ok!(e.write_value(y), "write_value");
        need_ok!(e.write_key("far"), "write_key");
        far_value(&mut e);
        need_ok!(e.end_dict(), "end_dict");
        need_ok!(e.write_value(x), "write_value");
        need_ok!(e.begin_array(1), "begin_array");
        need_ok!(e.write_value(y), "write_value");
        need_ok!(e.end_array(), "end_array");
        need_ok!(e.end_array(), "end_array");
        let b = e.finish();
        let v = need_ok!(Value::from_bytes(&b), "the document does not decode");
        let i = choice(4) as usize;
        rewrite(if i == 3 { v } else { need!(need!(v.as_array(), "array").get(i), "element") }, true, ALL);
        let once = again(v);
        check!(same(&once, &again(need_ok!(Value::from_bytes(&once), "document"))), "encoding again gives other bytes");
        cover(1);
    }
    /// a dict with arbitrary keys
    fn h_c18_keys() {
        let n = param(0);
        let mut e = Encoder::new();
        let shared = choice(2) == 1;
        if shared { e.set_shared_keys(table()) }
        need_ok!(e.begin_dict(), "begin_dict");
        let mut keys: Vec<String> = Vec::new();
        for i in 0..n {
            let k = if choice(2) == 0 { ascii(choice(param(1)) as usize) } else { String::from(["keyb", "é", "a much longer key", "other"][choice(4) as usize]) };
            for x in &keys { assume(!same(x.as_bytes(), k.as_bytes())) }
            need_ok!(e.write_key(&k), "write_key");
            need_ok!(e.write_value(i), "write_value");
            keys.push(k);
        }
        need_ok!(e.end_dict(), "end_dict");
        let s = e.finish_scoped();
        let root = need!(s.root(), "the document does not decode");
        rewrite(&root, true, ALL);
        cover(1);
    }
    /// a scalar in any accepted encoding
    fn h_c18_any() {
        let n = 2 + 2 * choice(param(0)) as usize;
        let mut b = bytes(n);
        b.extend_from_slice(&[0x80, (n / 2) as u8]);
        let Ok(v) = Value::from_bytes(&b) else { cover(2); return };
        if class(&v.value_type()) >= 7 { return }
        rewrite(v, false, &[1]);
        cover(3);
    }
}
