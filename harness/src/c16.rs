//! C16: mutable dicts behave as a map.
use crate::common::*;
use crate::model::*;
use std::sync::Arc;

type Map = Vec<(Vec<u8>, Item)>;
fn s(k: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(k) } }
fn insert(m: &mut MutableDict, k: &[u8], it: &Item) {
    match it {
        Item::Small(x) => m.insert(s(k), *x),
        Item::Big(x) => m.insert(s(k), big(*x)),
        Item::Double(b) => m.insert(s(k), f64::from_bits(*b)),
        Item::Text(n, x) => m.insert(s(k), text(*n, *x).as_str()),
        _ => fail("insert"),
    }
}
/// One of `kinds` (a bitmask) keys: 0 one ASCII byte, 1 two, 2 empty, 3 of the shared table, 4 of 17 bytes, 5 non-ASCII, 6 of 150 bytes
fn any_key(kinds: u64) -> Vec<u8> {
    let mut n = choice(kinds.count_ones() as u64);
    let mut k = 0;
    loop {
        if kinds >> k & 1 == 1 { if n == 0 { break } n -= 1 }
        k += 1;
    }
    match k {
        0 => { let x = u8v(); assume(x < 0x80); vec![x] }
        1 => { let (x, y) = (u8v(), u8v()); assume((x | y) < 0x80); vec![x, y] }
        2 => vec![],
        3 => SHARED[choice(3) as usize].as_bytes().to_vec(),
        4 => { let x = u8v(); assume(x < 0x80); let mut v = vec![b'k'; 17]; v[16] = x; v }
        5 => "é".as_bytes().to_vec(),
        _ => { let x = u8v(); assume(x < 0x80); let mut v = vec![b'k'; 150]; v[149] = x; v }
    }
}
const SHARED: [&str; 3] = ["key", "a", "bb"];
fn shared() -> Arc<SharedKeys> {
    let mut t = SharedKeys::new();
    for k in SHARED { t.encode_and_insert(k); }
    Arc::new(t)
}
/// One operation out of the set `ops`: 0 insert, 1 remove, 2 insert_array, 3 insert_dict, 4 edit a nested collection
fn step(m: &mut MutableDict, l: &mut Map, ops: u64, kinds: u64, keys: u64) {
    let mut n = choice(ops.count_ones() as u64);
    let mut k = 0;
    loop {
        if ops >> k & 1 == 1 { if n == 0 { break } n -= 1 }
        k += 1;
    }
    if k == 4 {
        if l.is_empty() { return }
        let i = choice(l.len() as u64) as usize;
        let key = l[i].0.clone();
        match &mut l[i].1 {
            Item::Array(v) => { let x = u8v(); need!(m.get_array_mut(s(&key)), "nested array").push(&x); v.push(Item::Small(x)); cover(3) }
            Item::Dict(v) => { let x = u8v(); need!(m.get_dict_mut(s(&key)), "nested dict").insert("m", x); put(v, b"m".to_vec(), Item::Small(x)); cover(4) }
            _ => check!(m.get_array_mut(s(&key)).is_none() && m.get_dict_mut(s(&key)).is_none(), "a scalar is no collection"),
        }
        return;
    }
    let key = any_key(keys);
    match k {
        0 => { let it = scalar(kinds); insert(m, &key, &it); if position(l, &key).is_some() { cover(1) } put(l, key, it) }
        1 => { m.remove(s(&key)); if let Some(i) = position(l, &key) { cover(2); l.remove(i); } }
        2 => { let x = u8v(); let mut a = MutableArray::new(); a.push(&x); m.insert_array(s(&key), a); put(l, key, Item::Array(vec![Item::Small(x)])) }
        _ => { let x = u8v(); let mut d = MutableDict::new(); d.insert("k", x); m.insert_dict(s(&key), d); put(l, key, Item::Dict(vec![(b"k".to_vec(), Item::Small(x))])) }
    }
}
fn absent(m: &mut MutableDict, l: &Map, keys: u64) {
    let p = any_key(keys);
    if position(l, &p).is_some() { return }
    let k = s(&p);
    check!(!m.contains_key(k) && m.get(k).is_none() && m.get_array(k).is_none() && m.get_dict(k).is_none() && m.get_array_mut(k).is_none() && m.get_dict_mut(k).is_none(), "a key that isn't there is found");
}
fn new(with: bool) -> MutableDict { if with { MutableDict::new_with_shared_keys(shared()) } else { MutableDict::new() } }
harnesses! {
    /// [operations, set of operations, kinds of values, kinds of keys, with shared keys]
    fn h_c16_history() {
        let (mut m, mut l) = (new(param(4) == 1), Map::new());
        for _ in 0..param(0) { step(&mut m, &mut l, param(1), param(2), param(3)) }
        is_dict(&m, &l);
        absent(&mut m, &l, param(3));
        if l.len() as u64 == param(0) { cover(5) }
    }
    /// [operations before, operations after on either, set of operations, kinds of values, kinds of keys, with shared keys]
    fn h_c16_clone() {
        let (mut m, mut l) = (new(param(5) == 1), Map::new());
        for _ in 0..param(0) { step(&mut m, &mut l, param(2), param(3), param(4)) }
        let (mut n, mut k) = (m.clone(), l.clone());
        for _ in 0..param(1) {
            if choice(2) == 0 { step(&mut m, &mut l, param(2), param(3), param(4)) } else { step(&mut n, &mut k, param(2), param(3), param(4)) }
        }
        is_dict(&m, &l);
        is_dict(&n, &k);
        if choice(2) == 0 { drop(m); is_dict(&n, &k) } else { drop(n); is_dict(&m, &l) }
        cover(6);
    }
    /// a copy of a document, then edited
    fn h_c16_copied() {
        let mut e = Encoder::new();
        if param(4) == 1 { e.set_shared_keys((*shared()).clone()) }
        let mut l = Map::new();
        need_ok!(e.begin_dict(), "begin_dict");
        for _ in 0..param(0) {
            let k = any_key(param(3));
            assume(position(&l, &k).is_none());
            let x = u8v();
            need_ok!(e.write_key(s(&k)), "write_key");
            need_ok!(e.write_value(x), "write_value");
            l.push((k, Item::Small(x)));
        }
        need_ok!(e.end_dict(), "end_dict");
        let scope = e.finish_scoped();
        let mut m = need!(MutableDict::from_scope(&scope), "from_scope");
        is_dict(&m, &l);
        for _ in 0..param(1) { step(&mut m, &mut l, param(2), 1, param(3)) }
        is_dict(&m, &l);
        cover(7);
    }
    /// long keys, strings and data
    fn h_c16_long() {
        let n = LONG[choice(param(0)) as usize];
        let (b, k) = (long_bytes(n), long_ascii(n));
        let mut m = new(choice(2) == 1);
        m.insert("short", b.as_slice());
        m.insert(&k, k.as_str());
        let mut c = m.clone();
        c.insert("short", 7u8);
        for (x, whole) in [(&m, true), (&c, false), (&m.clone(), true)] {
            check!(x.len() == 2, "number of keys");
            let v = need!(x.get("short"), "short key");
            if whole { check!(v.value_type() == ValueType::Data && same(v.to_data(), &b), "other data") } else { check!(v.to_int() == 7, "value") }
            let v = need!(x.get(&k), "long key");
            check!(v.value_type() == ValueType::String && same(v.to_str().as_bytes(), k.as_bytes()), "another string");
            let mut found = 0;
            for (i, _) in x { if same(i.as_bytes(), k.as_bytes()) { found += 1 } else { check!(same(i.as_bytes(), b"short"), "another key") } }
            check!(found == 1, "iteration");
        }
        m.remove(&k);
        check!(m.len() == 1 && !m.contains_key(&k) && c.contains_key(&k), "removal of a long key");
        cover(10);
    }
    fn h_c16_many() {
        let mut m = new(true);
        let mut l = Map::new();
        for i in 0..param(0) as u8 {
            let k = vec![b'A' + i % 26, b'a' + i / 26];
            m.insert(s(&k), i);
            l.push((k, Item::Small(i)));
        }
        let k = any_key(2);
        let x = u8v();
        m.insert(s(&k), x);
        put(&mut l, k, Item::Small(x));
        let k = any_key(2);
        m.remove(s(&k));
        if let Some(i) = position(&l, &k) { l.remove(i); cover(9) }
        is_dict(&m, &l);
        cover(8);
    }
}
