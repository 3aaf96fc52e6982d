//! C26: the output is Fleece, as an independent reader sees it.
use crate::common::*;
use crate::hist::{self, Item, Model};
use crate::wire::*;

/// Writes v as an element of an array (after a neighbour, or after a far one) or a dict and hands what the reader finds to f.
fn seen<T: Encodable>(v: T, f: &dyn Fn(Wire)) {
    let ctx = choice(4);
    let mut e = Encoder::new();
    if ctx == 3 {
        need_ok!(e.begin_dict(), "begin_dict");
        need_ok!(e.write_key("key"), "write_key");
        need_ok!(e.write_value(v), "write_value");
        need_ok!(e.end_dict(), "end_dict");
        let b = e.finish();
        let (mut d, r) = Doc::new(&b, 0);
        let l = d.dict(r);
        check!(l.len() == 1, "number of pairs");
        match &l[0].0 { Ok(k) => check!(same(k, b"key"), "the key"), Err(_) => fail("a shared key without shared keys") }
        let w = d.read(l[0].1);
        f(w);
    } else {
        need_ok!(e.begin_array(3), "begin_array");
        if ctx == 1 { need_ok!(e.write_value(0x0123_4567u32), "write") }
        if ctx == 2 { far_value(&mut e) }
        need_ok!(e.write_value(v), "write_value");
        need_ok!(e.write_value(true), "write");
        need_ok!(e.end_array(), "end_array");
        let b = e.finish();
        let (mut d, r) = Doc::new(&b, 0);
        let l = d.array(r);
        let i = (ctx != 0) as usize;
        check!(l.len() == i + 2, "number of elements");
        if ctx == 1 { is_int(d.read(l[0]), 0x0123_4567, false) }
        if ctx == 2 { match d.read(l[0]) { Wire::Data(x) => check!(x.len() == FAR, "the far element"), _ => fail("the far element") } }
        let w = d.read(l[i]);
        f(w);
        match d.read(l[i + 1]) { Wire::Bool(true) => (), _ => fail("the neighbour") }
    }
    cover(100 + ctx as u32);
}
fn texts(len: usize, ends: usize) -> Vec<u8> {
    let mut b = vec![0x61u8; len];
    for i in 0..len { if i < ends || i + ends >= len { let x = u8v(); assume(x < 0x80); b[i] = x } }
    b
}
fn is_item(d: &mut Doc, w: Slot, m: &Model, it: &Item) {
    match *it {
        Item::Small(x) => is_int(d.read(w), x as u64, false),
        Item::Big(x) => is_int(d.read(w), hist::big(x) as u64, false),
        Item::Num(x) => is_int(d.read(w), x as u64, false),
        Item::Text(x) => match d.read(w) { Wire::Str(s) => check!(same(&s, &hist::text(x)), "a string"), _ => fail("not a string") },
        Item::Coll(i) => is_node(d, w, m, i),
        Item::Inner(x) => {
            let l = d.array(w);
            check!(l.len() == 2, "length of a re-encoded array");
            is_int(d.read(l[0]), hist::big(x) as u64, false);
            is_int(d.read(l[1]), x as u64, false);
        }
    }
}
fn is_node(d: &mut Doc, s: Slot, m: &Model, i: usize) {
    let n = &m.nodes[i];
    if n.dict {
        let l = d.dict(s);
        check!(l.len() == n.items.len(), "number of pairs");
        for (k, v) in l {
            let Ok(k) = k else { fail("a shared key without shared keys") };
            let j = need!(n.keys.iter().position(|x| same(x, &k)), "a key that was not written");
            is_item(d, v, m, &n.items[j]);
        }
    } else {
        let l = d.array(s);
        check!(l.len() == n.items.len(), "number of elements");
        for (v, it) in l.iter().zip(&n.items) { is_item(d, *v, m, it) }
    }
}
const SIZES: [usize; 14] = [0, 1, 2, 3, 127, 128, 255, 256, 2046, 2047, 2048, 2049, 4095, 16384];

harnesses! {
    fn h_c26_integers() {
        match choice(10) {
            0 => { let x = any_signed(1); seen(x as i8, &|w| is_int(w, x as u64, true)) }
            1 => { let x = any_signed(2); seen(x as i16, &|w| is_int(w, x as u64, true)) }
            2 => { let x = any_signed(4); seen(x as i32, &|w| is_int(w, x as u64, true)) }
            3 => { let x = any_i64(); seen(x, &|w| is_int(w, x as u64, true)) }
            4 => { let x = any_i64(); seen(x as isize, &|w| is_int(w, x as u64, true)) }
            5 => { let x = any_unsigned(1); seen(x as u8, &|w| is_int(w, x, false)) }
            6 => { let x = any_unsigned(2); seen(x as u16, &|w| is_int(w, x, false)) }
            7 => { let x = any_unsigned(4); seen(x as u32, &|w| is_int(w, x, false)) }
            8 => { let x = any_u64(); seen(x, &|w| is_int(w, x, false)) }
            _ => { let x = any_u64(); seen(x as usize, &|w| is_int(w, x, false)) }
        }
    }
    fn h_c26_scalars() {
        match choice(7) {
            0 => { let x = u32v(); seen(f32::from_bits(x), &|w| match w { Wire::F32(y) => check!(x == y, "bits of a float"), _ => fail("not a float") }) }
            1 => { let x = u64v(); seen(f64::from_bits(x), &|w| match w { Wire::F64(y) => check!(x == y, "bits of a double"), _ => fail("not a double") }) }
            2 => { let x = choice(2) == 1; seen(x, &|w| match w { Wire::Bool(y) => check!(x == y, "a boolean"), _ => fail("not a boolean") }) }
            3 => seen(NullValue, &|w| match w { Wire::Null => (), _ => fail("not null") }),
            4 => seen(UndefinedValue, &|w| match w { Wire::Undefined => (), _ => fail("not undefined") }),
            5 => seen(None::<u32>, &|w| match w { Wire::Null => (), _ => fail("not null") }),
            _ => { let x = u16v(); seen(Some(x as u64 + 0x1_0000), &|w| is_int(w, x as u64 + 0x1_0000, false)) }
        }
        cover(1);
    }
    fn h_c26_texts() {
        let n = choice(param(0) + 10) as usize;
        let n = if (n as u64) < param(0) { n } else { [126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65536][n - param(0) as usize] };
        let s = texts(n, 4);
        if choice(2) == 0 {
            let t = unsafe { core::str::from_utf8_unchecked(&s) };
            seen(t, &|w| match w { Wire::Str(x) => check!(same(&x, &s), "a string changed"), _ => fail("not a string") });
        } else {
            seen(s.as_slice(), &|w| match w { Wire::Data(x) => check!(same(&x, &s), "data changed"), _ => fail("not data") });
        }
    }
    /// the documents of all histories of calls
    fn h_c26_history() {
        let mut m = Model::new();
        let mut e = Encoder::new();
        for i in 0..param(0) {
            let o = hist::any_op(param(1), i as u8);
            assume(m.apply(o));
            if !hist::call(&mut e, o) { fail("a call that is in order fails") }
        }
        assume(!m.nodes.is_empty());
        if m.nodes.len() > 1 { cover(1) }
        let b = e.finish();
        let (mut d, r) = Doc::new(&b, 0);
        is_node(&mut d, r, &m, 0);
        cover(2);
    }
    /// behind other bytes
    fn h_c26_behind() {
        let n = choice(param(2)) as usize;
        let before = bytes(n);
        let mut m = Model::new();
        let mut e = Encoder::new_to_vec(before.clone());
        for i in 0..param(0) {
            let o = hist::any_op(param(1), i as u8);
            assume(m.apply(o));
            if !hist::call(&mut e, o) { fail("a call that is in order fails") }
        }
        assume(!m.nodes.is_empty());
        let b = e.finish();
        check!(b.len() >= n && same(&b[..n], &before), "the bytes before changed");
        let (mut d, r) = Doc::new(&b, n + n % 2);
        is_node(&mut d, r, &m, 0);
        cover(1);
    }
    /// the order of keys, shared or not
    fn h_c26_keys() {
        let n = choice(param(0) + 1) as usize;
        let shared = choice(3);
        let mut keys: Vec<String> = Vec::new();
        for _ in 0..n {
            let len = [2, 0, 1, 17, 3][choice(param(1)) as usize];
            let s = texts(len, 1);
            for k in &keys { assume(!same(k.as_bytes(), &s)) }
            keys.push(unsafe { String::from_utf8_unchecked(s) });
        }
        let mut e = Encoder::new();
        let mut table = SharedKeys::new();
        // with all of the keys known before, in the opposite order
        if shared == 2 { for k in keys.iter().rev() { table.encode_and_insert(k); } }
        // the numbers the keys get: a table changes only by what is written
        let mut mirror = table.clone();
        if shared > 0 { e.set_shared_keys(table) }
        need_ok!(e.begin_dict(), "begin_dict");
        for (i, k) in keys.iter().enumerate() {
            need_ok!(e.write_key(k), "write_key");
            need_ok!(e.write_value(i as u16), "write_value");
        }
        need_ok!(e.end_dict(), "end_dict");
        let b = e.finish();
        let (mut d, r) = Doc::new(&b, 0);
        let l = d.dict(r);
        check!(l.len() == n, "number of pairs");
        let mut numbers = Vec::new();
        for k in &keys { numbers.push(if shared > 0 && k.len() > 1 { mirror.encode_and_insert(k) } else { None }) }
        let mut left = n;
        for (k, v) in l {
            let i = match k {
                Ok(k) => { let i = need!(keys.iter().position(|x| same(x.as_bytes(), &k)), "a key that was not written"); check!(numbers[i].is_none(), "a key that should be shared"); i }
                Err(x) => { cover(3); need!(numbers.iter().position(|y| y.map_or(false, |y| y as u64 == x)), "a shared key that was not written") }
            };
            is_int(d.read(v), i as u64, false);
            left -= 1;
        }
        check!(left == 0, "number of pairs");
        cover(shared as u32);
    }
    /// both kinds of counts
    fn h_c26_sizes() {
        let n = SIZES[choice(param(0)) as usize];
        let dict = choice(2) == 1;
        let wide = choice(2) == 1 && n > 0;
        let mark = u16v();
        assume(mark < 2048);
        let mut e = Encoder::new();
        if dict { need_ok!(e.begin_dict(), "begin_dict") } else { need_ok!(e.begin_array(n), "begin_array") }
        for i in 0..n {
            let j = n - 1 - i;
            let key = [b'k', b'0' + (j / 4096) as u8, b'0' + (j / 64 % 64) as u8, b'0' + (j % 64) as u8];
            if dict { need_ok!(e.write_key(core::str::from_utf8(&key).unwrap()), "key") }
            if wide && i == 0 { far_value(&mut e) } else { need_ok!(e.write_value(if i + 1 == n { mark } else { i as u16 & 0x7ff }), "write") }
        }
        if dict { need_ok!(e.end_dict(), "end_dict") } else { need_ok!(e.end_array(), "end_array") }
        let b = e.finish();
        let (mut d, r) = Doc::new(&b, 0);
        let l: Vec<Slot> = if dict { d.dict(r).iter().rev().map(|x| x.1).collect() } else { d.array(r) };
        check!(l.len() == n, "number of elements");
        for (i, s) in l.iter().enumerate() {
            if wide && i == 0 { match d.read(*s) { Wire::Data(x) => check!(x.len() == FAR, "the far element"), _ => fail("the far element") } }
            else { is_int(d.read(*s), if i + 1 == n { mark as u64 } else { i as u64 & 0x7ff }, false) }
        }
        if n >= 2047 { cover(1) } else { cover(2) }
    }
    /// pointers on both sides of the limit of narrow ones
    fn h_c26_distance() {
        let n = (param(0) + 2 * choice(param(1))) as usize;
        let dict = choice(2) == 1;
        let mark = u16v();
        let mut e = Encoder::new();
        if dict { need_ok!(e.begin_dict(), "begin_dict"); need_ok!(e.write_key("key"), "key") } else { need_ok!(e.begin_array(2), "begin_array") }
        need_ok!(e.write_value(mark as u64 + 0x1_0000), "write");
        if dict { need_ok!(e.write_key("text"), "key") }
        let filler = vec![0x5au8; n];
        need_ok!(e.write_value(filler.as_slice()), "write");
        if dict { need_ok!(e.end_dict(), "end_dict") } else { need_ok!(e.end_array(), "end_array") }
        let b = e.finish();
        let (mut d, r) = Doc::new(&b, 0);
        if b[r.pos] & 8 != 0 { cover(1) } else { cover(2) }
        let l: Vec<Slot> = if dict { d.dict(r).iter().map(|x| x.1).collect() } else { d.array(r) };
        check!(l.len() == 2, "number of elements");
        is_int(d.read(l[0]), mark as u64 + 0x1_0000, false);
        match d.read(l[1]) { Wire::Data(x) => check!(x.len() == n, "the long element"), _ => fail("the long element") }
    }
}
