//! C22: owned values outlive everything they came from.
use crate::common::*;
use crate::mirror::*;
use fleece::alloced::{AllocedArray, AllocedDict, AllocedValue};
use fleece::mutable::{MutableArray, MutableDict};
use std::sync::Arc;

enum Handle { V(AllocedValue), A(AllocedArray), D(AllocedDict), MA(MutableArray), MD(MutableDict) }
use Handle::*;
fn table() -> SharedKeys { let mut t = SharedKeys::new(); t.encode_and_insert("keyb"); t }
/// [[x, "text"], y, "other"] or {"a key": [x], "keyb": y}
fn document(x: u8, dict: bool, keys: bool, wide: bool) -> Encoder {
    let mut e = Encoder::new();
    if keys { e.set_shared_keys(table()) }
    if dict {
        need_ok!(e.begin_dict(), "begin_dict");
        need_ok!(e.write_key("a key"), "write_key");
        if wide { far_value(&mut e); need_ok!(e.write_key("b key"), "write_key") }
        need_ok!(e.begin_array(1), "begin_array");
        need_ok!(e.write_value(x), "write_value");
        need_ok!(e.end_array(), "end_array");
        need_ok!(e.write_key("keyb"), "write_key");
        need_ok!(e.write_value("value"), "write_value");
        need_ok!(e.end_dict(), "end_dict");
    } else {
        need_ok!(e.begin_array(3), "begin_array");
        need_ok!(e.begin_array(1), "begin_array");
        need_ok!(e.write_value(x), "write_value");
        need_ok!(e.write_value("text"), "write_value");
        need_ok!(e.end_array(), "end_array");
        if wide { far_value(&mut e) } else { need_ok!(e.write_value(0x1234_5678u32), "write_value") }
        need_ok!(e.write_value("other"), "write_value");
        need_ok!(e.end_array(), "end_array");
    }
    e
}
/// What everything is compared with: bytes of its own.
/// If there are shared keys, then only with them at hand are all keys known.
struct Reference(Vec<u8>, bool);
impl Reference {
    fn check(&self, h: &Handle) {
        let r = need_ok!(Value::from_bytes(&self.0), "document");
        match h {
            MA(m) => copy_of_array(m, need!(r.as_array(), "an array out of something else"), false),
            MD(m) => copy_of_dict(m, need!(r.as_dict(), "a dict out of something else"), false),
            V(v) => if !self.1 || v.as_dict().is_none() { same_value(r, v, true) } else { self.dict(need!(r.as_dict(), "a dict out of something else"), need!(v.as_dict(), "dict")) },
            A(a) => same_array(need!(r.as_array(), "an array out of something else"), a, true),
            D(d) => self.dict(need!(r.as_dict(), "a dict out of something else"), d),
        }
    }
    fn dict(&self, r: &Dict, d: &Dict) {
        if !self.1 { return same_dict(r, d, true) }
        check!(d.len() == r.len(), "another number of keys");
        let t = table();
        for k in ["a key", "b key", "keyb", "no key"] {
            match (r.get_with_shared_keys(k, &t), d.get_with_shared_keys(k, &t)) {
                (None, None) => {}
                (Some(a), Some(b)) => { same_value(a, b, true); cover(8) }
                _ => fail("other keys"),
            }
        }
    }
}
/// Convert, clone, drop.
fn history(h: Handle, r: &Reference, ops: u64, gone: &mut dyn FnMut(u64) -> bool) {
    let mut pool = vec![h];
    for _ in 0..ops {
        let n = pool.len() as u64;
        let k = choice(1 + 5 * n);
        if k == 0 { if gone(0) { cover(2) } } else {
            let i = ((k - 1) / 5) as usize;
            match (k - 1) % 5 {
                0 => { let c = match &pool[i] { V(v) => V(v.clone()), A(a) => A(a.clone()), D(d) => D(d.clone()), MA(a) => MA(a.clone()), MD(d) => MD(d.clone()) }; pool.push(c); cover(3) }
                1 => { pool.swap_remove(i); cover(4) }
                2 => {
                    // to an array
                    match pool.swap_remove(i) {
                        V(v) => {
                            let fits = v.value_type() == ValueType::Array;
                            match v.to_array() { Some(a) => { check!(fits, "an array out of something else"); pool.push(A(a)); cover(5) } None => check!(!fits, "an array is no array") }
                        }
                        A(a) => { pool.push(MA(MutableArray::from(a))); cover(6) }
                        h => pool.push(h),
                    }
                }
                3 => {
                    match pool.swap_remove(i) {
                        V(v) => {
                            let fits = v.value_type() == ValueType::Dict;
                            match v.to_dict() { Some(d) => { check!(fits, "a dict out of something else"); pool.push(D(d)); cover(7) } None => check!(!fits, "a dict is no dict") }
                        }
                        D(d) if !r.1 => { pool.push(MD(MutableDict::from(d))); cover(6) }
                        h => pool.push(h),
                    }
                }
                _ => {
                    // an equal handle is one of the same value
                    let e = match (&pool[0], &pool[i]) { (V(a), V(b)) => a == b, (A(a), A(b)) => a == b, (D(a), D(b)) => a == b, _ => true };
                    check!(e, "clones differ");
                }
            }
        }
        for h in &pool { r.check(h) }
    }
    gone(1);
    for h in &pool { r.check(h) }
    if choice(2) == 1 { while let Some(h) = pool.pop() { drop(h); for h in &pool { r.check(h) } } }
}
/// Everything that is made once and for all, made.
fn warm_up() {
    let s = document(1, true, true, false).finish_scoped();
    s.remove();
    drop(Scope::containing(0x1234 as *const u8));
    drop(AllocedArray::empty());
    drop(AllocedDict::empty());
}
harnesses! {
    /// values copied from bytes  [operations, longest / 2]
    fn h_c22_bytes() {
        warm_up();
        let before = live();
        {
            let b = bytes(2 * (1 + choice(param(1)) as usize));
            if Value::from_bytes(&b).is_ok() {
                let r = Reference(b.clone(), false);
                let mut src = Some(b);
                let h = {
                    let b = need!(&src, "source");
                    match choice(4) {
                        0 => Some(V(need_ok!(Value::clone_from_bytes(b), "clone_from_bytes"))),
                        1 => Some(V(unsafe { Value::clone_from_bytes_unchecked(b) })),
                        2 => Array::clone_from_bytes(b).ok().map(A),
                        _ => Dict::clone_from_bytes(b).ok().map(D),
                    }
                };
                if let Some(h) = h {
                    cover(1);
                    history(h, &r, param(0), &mut |_| match src.take() { Some(mut b) => { b.fill(0xff); true } None => false });
                }
            } else {
                check!(Value::clone_from_bytes(&b).is_err() && Array::clone_from_bytes(&b).is_err() && Dict::clone_from_bytes(&b).is_err(), "an invalid document is cloned");
                cover(9);
            }
        }
        check!(live() == before, "memory is not released");
    }
    /// values out of an encoder  [operations, wide]
    fn h_c22_encoded() {
        warm_up();
        let before = live();
        {
            let (dict, keys) = (choice(2) == 1, choice(2) == 1);
            let x = u8v();
            let v = document(x, dict, keys, param(1) == 1).finish_value();
            let r = Reference(document(x, dict, keys, param(1) == 1).finish(), keys);
            history(V(v), &r, param(0), &mut |_| false);
            cover(1);
        }
        check!(live() == before, "memory is not released");
    }
    /// values of a scope  [operations, wide]
    fn h_c22_scoped() {
        warm_up();
        let before = live();
        let (dict, keys) = (choice(2) == 1, choice(2) == 1);
        let s = document(u8v(), dict, keys, param(1) == 1).finish_scoped();
        let range = need!(s.range(), "range");
        {
            let r = Reference(need!(s.data(), "data").to_vec(), keys);
            let watch = Arc::downgrade(&need!(s.data(), "data"));
            let v = need!(s.root(), "root");
            let removed = choice(2) == 1;
            let mut s = Some(s);
            history(V(v), &r, param(0), &mut |_| match s.take() { Some(s) => { if removed { s.remove() } drop(s); true } None => false });
            cover(1);
            check!(watch.upgrade().is_none(), "memory is not released");
            check!(Scope::containing(range.start as *const u8).is_none(), "a dropped scope is found");
            if !removed { return }
        }
        check!(live() == before, "memory is not released");
    }
    /// keys that iterating an owned dict has handed out, which are in its data
    fn h_c22_iterated_keys() { iterated(false) }
    /// ..., or in the table of shared keys
    fn h_c22_iterated_shared_keys() { iterated(true) }
    /// the empty collections, which own nothing
    fn h_c22_empty() {
        let r = Reference(vec![0x60, 0], false);
        let q = Reference(vec![0x70, 0], false);
        history(A(AllocedArray::empty()), &r, param(0), &mut |_| false);
        history(D(AllocedDict::empty()), &q, param(0), &mut |_| false);
        cover(1);
    }
}
fn iterated(shared: bool) {
    let s = document(7, true, shared, false).finish_scoped();
    let d = need!(need!(s.root(), "root").to_dict(), "dict");
    let keys: Vec<&str> = d.iter().map(|(k, _)| k).collect();
    check!(keys.len() == 2, "entries");
    cover(1);
    drop(s);
    for k in keys { check!(same(k.as_bytes(), b"a key") || same(k.as_bytes(), b"keyb"), "a key changes") }
}
