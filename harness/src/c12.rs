//! C12: shared keys are a stable one-to-one mapping.
use crate::common::*;
use crate::keys::*;

fn insert(t: &mut SharedKeys, m: &mut Vec<String>, k: String) {
    let ok = eligible(&k);
    let known = find(m, &k);
    check!(t.encode(&k) == known, "lookup disagrees with what was added");
    if known.is_none() { check!(t.can_add(&k) == (ok && m.len() < 2048), "can_add disagrees with what is added") }
    let got = t.encode_and_insert(&k);
    match known {
        Some(_) => { cover(2); check!(got == known, "a key that is there gets another number") }
        None if ok && m.len() < 2048 => {
            cover(1);
            check!(got == Some(m.len() as u16), "a new key gets another number than the next");
            m.push(k);
        }
        None => { if ok { cover(4) } else { cover(3) } check!(got.is_none(), "a key is added that must not be") }
    }
}
harnesses! {
    fn h_c12_history() {
        let mut t = SharedKeys::new();
        let mut m = Vec::new();
        for _ in 0..param(0) {
            let k = any_key(param(1), param(2));
            insert(&mut t, &mut m, k);
        }
        agrees(&t, &m, 0);
        let probe = any_key(param(1), param(2));
        check!(t.encode(&probe) == find(&m, &probe), "lookup of an arbitrary string");
        let mut n = 0;
        for (i, (k, v)) in t.iter().enumerate() {
            n += 1;
            check!(v as usize == i && same(k.as_bytes(), m[i].as_bytes()), "iteration");
        }
        check!(n == m.len(), "iteration");
        if n == param(0) as usize { cover(5) }
    }
    /// every character of a key matters
    fn h_c12_chars() {
        let n = param(0) as usize;
        let k = ascii(choice(n as u64) as usize + 1);
        let mut t = SharedKeys::new();
        let mut m = Vec::new();
        insert(&mut t, &mut m, k);
        agrees(&t, &m, 0);
        let p = ascii(choice(n as u64) as usize + 1);
        check!(t.encode(&p) == find(&m, &p), "lookup of an arbitrary string");
    }
    /// a copy has the same numbers, and later additions to one don't show in the other
    fn h_c12_clone() {
        let mut t = SharedKeys::new();
        let mut m = Vec::new();
        for _ in 0..param(0) { let k = ascii_key(param(1)); insert(&mut t, &mut m, k); }
        let mut c = t.clone();
        let mut n = m.clone();
        let (a, b) = (ascii_key(param(1)), ascii_key(param(1)));
        insert(&mut t, &mut m, a);
        insert(&mut c, &mut n, b);
        agrees(&t, &m, 0);
        agrees(&c, &n, 0);
    }
    /// around the limit
    fn h_c12_full() {
        let start = 2048 - param(0) as usize;
        let (mut t, mut m) = filled(start);
        for _ in 0..param(0) + 1 { let k = ascii_key(param(1)); insert(&mut t, &mut m, k); }
        // known keys are still found
        let k = m[choice(2) as usize * 1000].clone();
        insert(&mut t, &mut m, k);
        agrees(&t, &m, start - 1);
        if m.len() == 2048 { cover(6) }
    }
}
