//! C14: shared keys never change what a document says.
use crate::common::*;
use crate::keys::*;
use std::sync::Arc;

/// Table before encoding: 0 new, 1 with one of the keys, 2 with all of them (last one first), 3 with all and another one in front
fn table(kind: u64, keys: &[String]) -> SharedKeys {
    match kind {
        0 => SharedKeys::new(),
        1 => { let mut t = SharedKeys::new(); t.encode_and_insert(&keys[0]); t }
        _ => {
            let mut t = SharedKeys::new();
            if kind == 3 { t.encode_and_insert("kept"); }
            for k in keys.iter().rev() { t.encode_and_insert(k); }
            t
        }
    }
}
fn distinct(keys: &[String], k: &str) -> bool {
    let mut d = true;
    for x in keys { d &= !same(x.as_bytes(), k.as_bytes()) }
    d
}
fn fresh_keys(n: u64, lengths: u64, foreign: u64) -> Vec<String> {
    let mut keys = Vec::new();
    for _ in 0..n {
        let k = any_key(lengths, foreign);
        assume(distinct(&keys, &k));
        keys.push(k);
    }
    keys
}
fn value(i: usize) -> u64 { 5 + 1000 * i as u64 }
fn write_dict(e: &mut Encoder, keys: &[String]) {
    need_ok!(e.begin_dict(), "begin_dict");
    for (i, k) in keys.iter().enumerate() {
        need_ok!(e.write_key(k), "write_key");
        need_ok!(e.write_value(value(i)), "write_value");
    }
    need_ok!(e.end_dict(), "end_dict");
}
fn is_value(v: Option<&Value>, i: usize) {
    check!(need!(v, "a key is missing").to_unsigned_int() == value(i), "a key has another key's value");
}
/// The dict says exactly keys[i] -> value(i).
fn says(d: &Dict, keys: &[String], sk: Option<&Arc<SharedKeys>>, probe: &str) {
    check!(d.len() == keys.len(), "number of keys");
    for (i, k) in keys.iter().enumerate() {
        is_value(d.get(k.as_str()), i);
        check!(d.contains_key(k.as_str()), "contains_key");
        if let Some(sk) = sk {
            is_value(d.get_with_shared_keys(k.as_str(), sk), i);
            check!(d.contains_key_with_shared_keys(k.as_str(), sk), "contains_key_with_shared_keys");
        }
    }
    if distinct(keys, probe) {
        check!(d.get(probe).is_none() && !d.contains_key(probe), "a key is found that was not written");
        if let Some(sk) = sk { check!(d.get_with_shared_keys(probe, sk).is_none(), "a key is found that was not written") }
    }
    let mut seen = vec![false; keys.len()];
    for (k, v) in d {
        let i = need!(keys.iter().position(|x| same(x.as_bytes(), k.as_bytes())), "iteration gives a key that was not written");
        check!(!seen[i], "iteration repeats a key");
        seen[i] = true;
        is_value(Some(v), i);
    }
    check!(seen.iter().all(|x| *x), "iteration leaves a key out");
}
fn mutable_says(d: &MutableDict, keys: &[String], probe: &str) {
    check!(d.len() == keys.len(), "number of keys of the copy");
    for (i, k) in keys.iter().enumerate() { is_value(d.get(k), i); check!(d.contains_key(k), "contains_key of the copy") }
    if distinct(keys, probe) { check!(d.get(probe).is_none() && !d.contains_key(probe), "the copy has a key that was not written") }
    let mut n = 0;
    for (k, v) in d {
        n += 1;
        let i = need!(keys.iter().position(|x| same(x.as_bytes(), k.as_bytes())), "iteration of the copy gives a key that was not written");
        is_value(v.value(), i);
    }
    check!(n == keys.len(), "iteration of the copy leaves a key out");
}
fn shared(d: &Dict) -> bool { match d.first() { Some((k, _)) => k.value_type() == ValueType::Short, None => false } }

fn read_back(keys: &[String], table: SharedKeys, probe: &str) {
    let mut e = Encoder::new();
    e.set_shared_keys(table);
    write_dict(&mut e, keys);
    let s = e.finish_scoped();
    let root = need!(s.root(), "the document does not decode");
    let d = need!(root.as_dict(), "not a dict");
    if shared(d) { cover(1) } else if !keys.is_empty() { cover(2) }
    says(d, keys, s.shared_keys(), probe);
    mutable_says(&d.to_mutable(), keys, probe);
    mutable_says(&need!(MutableDict::from_scope(&s), "from_scope"), keys, probe);
    mutable_says(&MutableDict::from(need!(root.to_dict(), "to_dict")), keys, probe);
}

harnesses! {
    /// [number of keys, lengths, foreign keys, table kinds, probe lengths, probe foreign]
    fn h_c14_dict() {
        let keys = fresh_keys(choice(param(0) + 1), param(1), param(2));
        let kind = if keys.is_empty() { 0 } else { choice(param(3)) };
        let probe = any_key(param(4), param(5));
        read_back(&keys, table(kind, &keys), &probe);
    }
    /// with a table that is full of other keys, or has room for one
    fn h_c14_full() {
        let (mut t, _) = filled(2047);
        let keys = fresh_keys(param(0), param(1), param(2));
        let probe = any_key(param(1), 0);
        match choice(3) { 0 => {} 1 => { t.encode_and_insert(&keys[keys.len() - 1]); } _ => { t.encode_and_insert("kept"); } }
        read_back(&keys, t, &probe);
        cover(3);
    }
    /// keys whose numbers are far apart, in a large table: [table size, keys, numbers]
    fn h_c14_numbers() {
        const AT: [usize; 10] = [1, 256, 255, 257, 511, 512, 1023, 1024, 2047, 0];
        let (t, all) = filled(param(0) as usize);
        let mut keys: Vec<String> = Vec::new();
        for _ in 0..param(1) {
            let k = if choice(2) == 0 { all[AT[choice(param(2)) as usize]].clone() } else { String::from(["not shared", "", "new"][choice(3) as usize]) };
            assume(distinct(&keys, &k));
            keys.push(k);
        }
        let probe = all[3].clone();
        read_back(&keys, t, &probe);
        cover(7);
    }
    /// the same without shared keys
    fn h_c14_plain() {
        let keys = fresh_keys(choice(param(0) + 1), param(1), param(2));
        let probe = any_key(param(3), param(4));
        let mut e = Encoder::new();
        write_dict(&mut e, &keys);
        let b = e.finish();
        let d = need_ok!(Dict::from_bytes(&b), "the document does not decode");
        says(d, &keys, None, &probe);
        mutable_says(&d.to_mutable(), &keys, &probe);
        cover(4);
    }
    /// dicts within collections: of the same keys, of other ones, of none that's shared
    fn h_c14_nested() {
        let keys = fresh_keys(param(0), param(1), param(2));
        let other = vec![String::from("o"), String::from("other"), String::from("not shared")];
        let kind = choice(param(3));
        let probe = any_key(param(1), 0);
        let mut e = Encoder::new();
        e.set_shared_keys(table(kind, &keys));
        need_ok!(e.begin_array(3), "begin_array");
        write_dict(&mut e, &keys);
        need_ok!(e.begin_dict(), "begin_dict");
        need_ok!(e.write_key("inner"), "write_key");
        write_dict(&mut e, &other);
        need_ok!(e.end_dict(), "end_dict");
        write_dict(&mut e, &other[2..]);
        need_ok!(e.end_array(), "end_array");
        let s = e.finish_scoped();
        let root = need!(s.root(), "the document does not decode");
        let a = need!(root.as_array(), "not an array");
        let dict = |i| need!(need!(a.get(i), "element").as_dict(), "not a dict");
        says(dict(0), &keys, s.shared_keys(), &probe);
        let inner = need!(need!(dict(1).get("inner"), "inner").as_dict(), "not a dict");
        says(inner, &other, s.shared_keys(), &probe);
        says(dict(2), &other[2..], s.shared_keys(), &probe);
        let m = MutableArray::clone_from(a);
        mutable_says(need!(m.get_dict(0), "dict of the copy"), &keys, &probe);
        mutable_says(need!(need!(m.get_dict(1), "dict of the copy").get_dict("inner"), "inner dict of the copy"), &other, &probe);
        mutable_says(need!(m.get_dict(2), "dict of the copy"), &other[2..], &probe);
        cover(5);
    }
    /// a wide dict
    fn h_c14_wide() {
        let keys = fresh_keys(param(0), param(1), param(2));
        let kind = choice(param(3));
        let probe = any_key(param(1), 0);
        let mut e = Encoder::new();
        e.set_shared_keys(table(kind, &keys));
        need_ok!(e.begin_dict(), "begin_dict");
        need_ok!(e.write_key("far"), "write_key");
        far_value(&mut e);
        for (i, k) in keys.iter().enumerate() {
            assume(!same(k.as_bytes(), b"far"));
            need_ok!(e.write_key(k), "write_key");
            need_ok!(e.write_value(value(i)), "write_value");
        }
        need_ok!(e.end_dict(), "end_dict");
        let s = e.finish_scoped();
        let root = need!(s.root(), "the document does not decode");
        let d = need!(root.as_dict(), "not a dict");
        if d.is_wide() { cover(6) }
        check!(d.len() == keys.len() + 1 && d.get("far").is_some(), "number of keys");
        for (i, k) in keys.iter().enumerate() { is_value(d.get(k.as_str()), i); is_value(d.get_with_shared_keys(k.as_str(), need!(s.shared_keys(), "shared keys")), i) }
        if distinct(&keys, &probe) && !same(probe.as_bytes(), b"far") { check!(d.get(probe.as_str()).is_none(), "a key is found that was not written") }
        let mut n = 0;
        for (k, v) in d {
            n += 1;
            if same(k.as_bytes(), b"far") { check!(v.to_data().len() == FAR, "far value"); continue }
            let i = need!(keys.iter().position(|x| same(x.as_bytes(), k.as_bytes())), "iteration gives a key that was not written");
            is_value(Some(v), i);
        }
        check!(n == keys.len() + 1, "iteration leaves a key out");
    }
}
