//! C09: whatever validation accepts is safe to read.
use crate::common::*;

/// Bytes n symbolic, behind them a root pointing anywhere into them.
fn document(n: usize) -> Vec<u8> {
    let mut b = bytes(n);
    let off = 1 + choice(n as u64 / 2) as u8;
    b.push(0x80);
    b.push(off);
    b
}
/// Reads every byte.
#[inline(never)]
fn touch(b: &[u8]) -> u8 {
    let mut d = 0u8;
    for x in b { d ^= *x }
    d
}
fn scalars(v: &Value, data: &[u8]) {
    let n = v.required_size();
    check!(n >= 2, "required size below two");
    let _ = (v.to_bool(), v.to_short(), v.to_unsigned_short(), v.to_int(), v.to_unsigned_int(), v.is_mutable(), v.is_empty(), v.len());
    let d = v.to_double();
    let f = v.to_float();
    let s = v.to_str();
    let x = v.to_data();
    check!(s.is_empty() || in_range(data, s.as_ptr(), s.len()), "a string lies outside the data");
    check!(x.is_empty() || in_range(data, x.as_ptr(), x.len()), "the bytes of a value lie outside the data");
    let mut t = touch(s.as_bytes()) ^ touch(x);
    if t == 1 && active() { } // keep
}
fn address(v: &Value) -> usize { v as *const Value as *const u8 as usize }
fn walk(v: &Value, data: &[u8], key: &str, depth: usize) {
    check!(in_range(data, address(v) as *const u8, 2), "a value lies outside the data");
    scalars(v, data);
    match v.value_type() {
        ValueType::Array => {
            cover(2);
            let a = need!(v.as_array(), "no array");
            check!(v.as_dict().is_none(), "an array is a dict");
            let n = conc(a.len() as u64) as usize;
            check!(n <= data.len() / 2, "an array longer than the data");
            check!(a.is_empty() == (n == 0), "is_empty");
            check!(a.get(n).is_none() && a.get(usize::MAX).is_none(), "an element past the end");
            let mut it = a.iter();
            check!(it.len() == n, "iterator length");
            for i in 0..n {
                let e = need!(a.get(i), "element missing");
                let f = need!(it.next(), "iteration ends early");
                check!(address(e) == address(f) && e.len() == f.len(), "get and iter disagree");
                walk(e, data, key, depth + 1);
                if depth > 0 { cover(6) }
            }
            check!(it.next().is_none() && it.next().is_none(), "iteration does not end");
        }
        ValueType::Dict => {
            cover(3);
            let d = need!(v.as_dict(), "no dict");
            check!(v.as_array().is_none(), "a dict is an array");
            let n = conc(d.len() as u64) as usize;
            check!(n <= data.len() / 4, "a dict longer than the data");
            check!(d.is_empty() == (n == 0), "is_empty");
            if let Some((k, e)) = d.first() { check!(n > 0, "first of an empty dict"); scalars(k, data); walk(e, data, key, depth + 1); }
            let mut m = 0;
            for (k, e) in d {
                m += 1;
                touch(k.as_bytes());
                walk(e, data, key, depth + 1);
            }
            check!(m <= n, "iteration yields too many pairs");
            if m == n && n > 0 { cover(7) }
            if let Some(e) = d.get(key) { check!(d.contains_key(key), "contains_key"); walk(e, data, key, depth + 1); cover(8) }
            else { check!(!d.contains_key(key), "contains_key"); }
        }
        ValueType::Pointer => fail("a pointer is visible"),
        _ => cover(4),
    }
}
harnesses! {
    fn h_c09_walk() {
        let b = document(param(0) as usize);
        if let Ok(v) = Value::from_bytes(&b) {
            cover(1);
            let key = ascii(choice(param(1)) as usize);
            walk(v, &b, &key, 0);
        }
    }
    /// collections of a fixed shape with anything inside, behind anything
    fn h_c09_shaped() {
        let mut b = bytes(param(0) as usize);
        let k = choice(4) as u8;
        // as many elements as fit into param(1) bytes, but at most two, and if param(3) is 2 only one pair
        let width = if k & 1 == 1 { 4 } else { 2 };
        let pair = if k >= 2 { 2 } else { 1 };
        let n = (param(1) as usize / width / pair).clamp(1, 2 / pair.min(param(3) as usize)) as u8;
        b.push(0x60 + 8 * k);
        b.push(n);
        let count = pair * n as usize;
        b.extend_from_slice(&bytes(width * count));
        b.push(0x80);
        b.push((1 + width * count / 2) as u8);
        if let Ok(v) = Value::from_bytes(&b) {
            cover(10 + k as u32);
            let key = ascii(choice(param(2)) as usize);
            walk(v, &b, &key, 0);
        }
    }
    /// every 64-bit index
    fn h_c09_index() {
        let b = document(param(0) as usize);
        if let Ok(a) = Array::from_bytes(&b) {
            cover(1);
            let i = u64v() as usize;
            match a.get(i) {
                Some(e) => { cover(2); check!(i < a.len(), "an element past the end"); scalars(e, &b) }
                None => { cover(3); check!(i >= a.len(), "element missing") }
            }
        }
    }
    /// copying, re-encoding, scopes
    fn h_c09_copy() {
        let b = document(param(0) as usize);
        let Ok(v) = Value::from_bytes(&b) else { return };
        cover(1);
        match choice(4) {
            0 => {
                if let Some(a) = v.as_array() {
                    cover(2);
                    let m = a.to_mutable();
                    check!(m.len() == a.len(), "a mutable copy has another length");
                    for r in &m { if let Some(x) = r.value() { let _ = (x.to_int(), x.to_double(), x.to_bool()); touch(x.to_data()); touch(x.to_str().as_bytes()); } }
                } else if let Some(d) = v.as_dict() {
                    cover(3);
                    let m = d.to_mutable();
                    check!(m.len() <= d.len(), "a mutable copy is larger");
                    let mut n = 0;
                    for (k, r) in &m { touch(k.as_bytes()); n += 1; let _ = (r.is_value(), r.is_array(), r.is_dict()); }
                    check!(n == m.len(), "iteration of a mutable copy");
                }
            }
            1 => {
                let mut e = Encoder::new();
                need_ok!(e.begin_array(1), "begin_array");
                if e.write_fleece(v).is_ok() { cover(4); }
                let out = e.finish();
                let a = need_ok!(Array::from_bytes(&out), "the re-encoded document does not decode");
                check!(a.len() <= 1, "the re-encoded document has more elements");
            }
            2 => {
                let s = Scope::new(b.clone(), None);
                let r = need!(s.root(), "the scope has no root");
                check!(r.value_type() == v.value_type() && r.value().len() == v.len(), "another root in the scope");
                cover(5);
            }
            _ => {
                let o = need_ok!(Value::clone_from_bytes(&b), "owned copy fails");
                check!(o.value_type() == v.value_type(), "another value in the owned copy");
                let is_arr = v.as_array().is_some();
                let is_dict = v.as_dict().is_some();
                check!(o.clone().to_array().is_some() == is_arr, "to_array");
                check!(o.to_dict().is_some() == is_dict, "to_dict");
                cover(6);
            }
        }
    }
}
