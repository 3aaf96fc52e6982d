//! Keys and what a shared-key table makes of them.
use crate::common::*;

pub const LENGTHS: [usize; 8] = [1, 2, 15, 16, 17, 3, 0, 30];
pub const FOREIGN: [&str; 8] = ["é", "ééééééé", "éééééééé", "aééééééé", "aéééééééb", "日本", "\u{0}", "a\u{301}"];

/// An ASCII key: `choice` over the length, the outermost bytes arbitrary, the rest fixed.
pub fn ascii_key(lengths: u64) -> String {
    let n = LENGTHS[choice(lengths) as usize];
    let mut b = vec![b'x'; n];
    if n > 0 {
        b[n - 1] = u8v();
        b[0] = if n > 1 { u8v() } else { b[0] };
        assume((b[0] | b[n - 1]) < 0x80);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn any_key(lengths: u64, foreign: u64) -> String {
    if foreign == 0 || choice(2) == 0 { ascii_key(lengths) } else { FOREIGN[choice(foreign) as usize].into() }
}
fn alnum(c: u8) -> bool { (c | 0x20).wrapping_sub(b'a') < 26 || c.wrapping_sub(b'0') < 10 || c == b'_' || c == b'-' }
/// The rule as documented.
pub fn eligible(k: &str) -> bool {
    if k.len() > 16 { return false }
    if k.bytes().any(|c| c >= 0x80) { return k.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-') }
    let mut ok = true;
    for c in k.bytes() { ok &= alnum(c) }
    ok
}
pub fn find(model: &[String], k: &str) -> Option<u16> {
    for (i, m) in model.iter().enumerate() { if same(m.as_bytes(), k.as_bytes()) { return Some(i as u16) } }
    None
}
/// A table with n keys of no other shape than the ones below.
pub fn filled(n: usize) -> (SharedKeys, Vec<String>) {
    let mut t = SharedKeys::new();
    let mut m = Vec::new();
    for i in 0..n {
        let k = [b'k', b'0' + (i / 1000) as u8, b'0' + (i / 100 % 10) as u8, b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8];
        let s = unsafe { core::str::from_utf8_unchecked(&k) };
        check!(t.encode_and_insert(s) == Some(i as u16), "a new key gets another number than the next");
        m.push(s.into());
    }
    (t, m)
}
/// The table is exactly the model.
pub fn agrees(t: &SharedKeys, m: &[String], from: usize) {
    check!(t.len() as usize == m.len() && t.is_empty() == m.is_empty(), "number of keys");
    for (i, k) in m.iter().enumerate().skip(from) {
        check!(same(need!(t.decode(i as u16), "a number decodes to nothing").as_bytes(), k.as_bytes()), "a number decodes to another key");
        check!(t.encode(k) == Some(i as u16), "a key has another number than it was given");
    }
    check!(t.decode(m.len() as u16).is_none() && t.decode(u16::MAX).is_none(), "a number beyond the last one decodes");
}
