//! C05: dicts find exactly the keys that were written.
use crate::common::*;

fn cmp(a: &[u8], b: &[u8]) -> core::cmp::Ordering { a.cmp(b) }
fn key_str(k: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(k) } }

fn build(keys: &[Vec<u8>], far: bool) -> Vec<u8> {
    let mut e = Encoder::new();
    need_ok!(e.begin_dict(), "begin_dict");
    for (i, k) in keys.iter().enumerate() {
        need_ok!(e.write_key(key_str(k)), "write_key");
        if far && i == 0 { far_value(&mut e) } else { need_ok!(e.write_value(1000 + i as u16), "write_value"); }
    }
    need_ok!(e.end_dict(), "end_dict");
    e.finish()
}
fn is_value(v: &Value, i: usize, far: bool) {
    if far && i == 0 { check!(v.value_type() == ValueType::Data && v.to_data().len() == FAR, "value belongs to another key"); }
    else { check!(v.to_unsigned_int() == 1000 + i as u64, "value belongs to another key"); }
}
fn verify(keys: &[Vec<u8>], probe: &[u8], far: bool) {
    let b = build(keys, far);
    let d = need_ok!(Dict::from_bytes(&b), "the document does not decode");
    check!(d.len() == keys.len(), "len");
    check!(d.is_empty() == keys.is_empty(), "is_empty");
    for (i, k) in keys.iter().enumerate() {
        is_value(need!(d.get(key_str(k)), "a written key is not found"), i, far);
        check!(d.contains_key(key_str(k)), "contains_key denies a written key");
    }
    // any other string
    let mut fresh = true;
    for k in keys { if same(k, probe) { fresh = false } }
    if fresh {
        check!(d.get(key_str(probe)).is_none(), "a key that was not written is found");
        check!(!d.contains_key(key_str(probe)), "contains_key invents a key");
        cover(1);
    }
    // iteration: every pair exactly once
    let mut seen = vec![0u32; keys.len()];
    let mut n = 0;
    for (k, v) in d {
        let mut hit = false;
        for (i, w) in keys.iter().enumerate() {
            if same(k.as_bytes(), w) { seen[i] += 1; is_value(v, i, far); hit = true }
        }
        check!(hit, "iteration yields a key that was not written");
        n += 1;
        check!(n <= keys.len(), "iteration yields too many pairs");
    }
    check!(n == keys.len(), "iteration yields too few pairs");
    for s in seen { check!(s == 1, "iteration repeats a key"); }
    match d.first() {
        Some(_) => check!(!keys.is_empty(), "first of an empty dict"),
        None => check!(keys.is_empty(), "no first pair"),
    }
    cover(2);
}
fn distinct(keys: &[Vec<u8>]) {
    for i in 0..keys.len() { for j in 0..i { assume(!same(&keys[i], &keys[j])) } }
}
/// A key of `n` bytes sharing its first `p` bytes with every other such key.
fn tail_key(n: usize, p: usize) -> Vec<u8> {
    let mut k = vec![b'k'; n];
    for i in p.min(n)..n { k[i] = u8v(); assume(k[i] < 0x80) }
    k
}
const LENS: [usize; 10] = [0, 1, 2, 3, 14, 15, 16, 17, 127, 128];

harnesses! {
    /// up to param(0) keys of 0..=param(1) ASCII bytes in any order
    fn h_c05_small() {
        let n = choice(param(0) + 1);
        let mut keys = Vec::new();
        for _ in 0..n { keys.push(ascii(choice(param(1) + 1) as usize).into_bytes()); }
        distinct(&keys);
        let probe = ascii(choice(param(1) + 1) as usize).into_bytes();
        verify(&keys, &probe, false);
        if n == param(0) { cover(3) }
    }
    /// any UTF-8
    fn h_c05_utf8() {
        let n = choice(param(0)) + 1;
        let mut keys = Vec::new();
        for _ in 0..n { keys.push(string(param(1)).into_bytes()); }
        distinct(&keys);
        let probe = string(param(1)).into_bytes();
        verify(&keys, &probe, false);
    }
    /// key lengths around every boundary, common prefixes
    fn h_c05_lengths() {
        let a = LENS[choice(param(0)) as usize];
        let b = LENS[choice(param(0)) as usize];
        let c = LENS[choice(param(0)) as usize];
        let p = a.max(b).max(c).saturating_sub(1);
        let keys = vec![tail_key(a, p.min(a.saturating_sub(1))), tail_key(b, p.min(b.saturating_sub(1)))];
        distinct(&keys);
        let probe = tail_key(c, c.saturating_sub(1));
        verify(&keys, &probe, false);
    }
    /// a wide dict
    fn h_c05_wide() {
        let n = choice(param(0)) + 1;
        let mut keys = Vec::new();
        for _ in 0..n { keys.push(ascii(choice(3) as usize).into_bytes()); }
        distinct(&keys);
        let probe = ascii(choice(3) as usize).into_bytes();
        verify(&keys, &probe, true);
        cover(4);
    }
    /// many keys: the binary search at every size up to param(0)
    fn h_c05_many() {
        let n = choice(param(0)) as usize + 1;
        let mut keys = Vec::new();
        // a scrambled order of n distinct two-byte keys
        for i in 0..n { let j = (i * 37 + 11) % n.max(2); let _ = j; keys.push(vec![b'A' + (i * 7 % 23) as u8, b'a' + (i / 23) as u8]); }
        let probe = ascii(2).into_bytes();
        verify(&keys, &probe, false);
        if n as u64 == param(0) { cover(5) }
    }
}
