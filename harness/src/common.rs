//! The interface between harnesses and whoever runs them.
extern "C" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_choice(n: u64) -> u64;
    fn sym_cover(id: u32);
    fn sym_param(i: u64) -> u64;
    fn sym_conc(v: u64) -> u64;
    fn sym_fail(p: *const u8, n: usize) -> !;
    fn sym_active() -> bool;
    fn sym_reuse(how: u64);
    fn sym_live() -> u64;
    fn sym_log(p: *const u8, n: usize, v: u64);
}
#[inline(always)] pub fn u8v() -> u8 { unsafe { sym_u8() } }
#[inline(always)] pub fn u16v() -> u16 { unsafe { sym_u16() } }
#[inline(always)] pub fn u32v() -> u32 { unsafe { sym_u32() } }
#[inline(always)] pub fn u64v() -> u64 { unsafe { sym_u64() } }
/// n symbolic bytes
#[inline(never)]
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 { unsafe { sym_bytes(v.as_mut_ptr(), n) } }
    v
}
pub fn array<const N: usize>() -> [u8; N] {
    let mut v = [0u8; N];
    if N > 0 { unsafe { sym_bytes(v.as_mut_ptr(), N) } }
    v
}
/// Restrict the inputs considered.
#[inline(always)] pub fn assume(c: bool) { unsafe { sym_assume(c) } }
/// A number in 0..n; every value is explored on a path of its own.
#[inline(always)] pub fn choice(n: u64) -> u64 { unsafe { sym_choice(n) } }
/// Marks a situation that has to be reached for the check to mean anything.
#[inline(always)] pub fn cover(id: u32) { unsafe { sym_cover(id) } }
#[inline(always)] pub fn param(i: u64) -> u64 { unsafe { sym_param(i) } }
/// Split on the value of v: a path per possible value.
#[inline(always)] pub fn conc(v: u64) -> u64 { unsafe { sym_conc(v) } }
/// Running symbolically?
pub fn active() -> bool { unsafe { sym_active() } }
/// From now on let freed heap addresses be handed out again.
/// 1: blocks of the same size, 2: of about the same size.
pub fn reuse(how: u64) { unsafe { sym_reuse(how) } }
/// The number of heap blocks.
pub fn live() -> u64 { unsafe { sym_live() } }
#[inline(always)]
pub fn log(s: &str, v: u64) { unsafe { sym_log(s.as_ptr(), s.len(), v) } }
#[cold]
#[inline(never)]
pub fn fail(msg: &str) -> ! { unsafe { sym_fail(msg.as_ptr(), msg.len()) } }

/// The property's assertion.
macro_rules! check {
    ($c:expr, $m:expr) => { if !($c) { $crate::common::fail($m) } };
}
/// Ends the path as a violation if the value is not there.
macro_rules! need {
    ($e:expr, $m:expr) => { match $e { Some(v) => v, None => $crate::common::fail($m) } };
}
macro_rules! need_ok {
    ($e:expr, $m:expr) => { match $e { Ok(v) => v, Err(_) => $crate::common::fail($m) } };
}
macro_rules! harnesses {
    ($($(#[$a:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$a])* #[no_mangle] pub extern "C" fn $n() $b)*
        pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}

pub use fleece::*;
pub use fleece::encoder::{Encodable, EncodeError, NullValue, UndefinedValue};

/// Byte-wise equality without a branch per byte.
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}

/// A symbolic string of at most n bytes: `choice` over the length, all UTF-8 contents.
pub fn string(n: u64) -> String {
    let len = choice(n + 1) as usize;
    string_exact(len)
}
pub fn string_exact(len: usize) -> String {
    let b = bytes(len);
    assume(core::str::from_utf8(&b).is_ok());
    unsafe { String::from_utf8_unchecked(b) }
}
/// ASCII string of exactly n symbolic bytes (no branching).
pub fn ascii(len: usize) -> String {
    let b = bytes(len);
    let mut d = 0u8;
    for x in &b { d |= *x; }
    assume(d < 0x80);
    unsafe { String::from_utf8_unchecked(b) }
}
/// Sizes around which the stored form of a string or data changes.
pub const LONG: [usize; 12] = [127, 128, 129, 126, 255, 256, 257, 16383, 16384, 400, 16385, 65536];
/// n bytes, the outermost and a middle one arbitrary
pub fn long_bytes(n: usize) -> Vec<u8> {
    let mut b = vec![b'x'; n];
    b[0] = u8v();
    b[n / 2] = u8v();
    b[n - 1] = u8v();
    b
}
pub fn long_ascii(n: usize) -> String {
    let b = long_bytes(n);
    assume((b[0] | b[n / 2] | b[n - 1]) < 0x80);
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn in_range(outer: &[u8], inner: *const u8, n: usize) -> bool {
    let s = outer.as_ptr() as usize;
    let p = inner as usize;
    p >= s && p + n <= s + outer.len()
}

/// Write something so large that any collection pointing behind it has to be wide.
pub const FAR: usize = 40_000;
pub fn far_value(e: &mut Encoder) {
    let filler = vec![0u8; FAR];
    need_ok!(e.write_value(filler.as_slice()), "write filler");
}

/// The places a value can be written to.  Writes `v` with neighbours around it and hands
/// the element read back to `f`.
#[inline(never)]
pub fn in_context<T: Encodable>(v: T, contexts: u64, f: &dyn Fn(&Value)) {
    let ctx = choice(contexts);
    let mut e = Encoder::new();
    match ctx {
        // an array: with a neighbour before it or not, always one after; narrow or wide
        0 | 1 | 2 => {
            need_ok!(e.begin_array(3), "begin_array");
            if ctx == 1 { need_ok!(e.write_value("abc"), "write neighbour"); }
            if ctx == 2 { far_value(&mut e); }
            need_ok!(e.write_value(v), "write_value");
            need_ok!(e.write_value(12345u64), "write neighbour");
            need_ok!(e.end_array(), "end_array");
            let b = e.finish();
            let a = need_ok!(Array::from_bytes(&b), "the document does not decode");
            let i = (ctx != 0) as usize;
            check!(a.len() == i + 2, "element count");
            if a.is_wide() { cover(105) }
            if ctx == 1 { check!(same(need!(a.get(0), "neighbour").to_str().as_bytes(), b"abc"), "neighbour changed"); }
            if ctx == 2 { check!(need!(a.get(0), "neighbour").to_data().len() == FAR, "neighbour changed"); }
            f(need!(a.get(i), "element missing"));
            f(need!(a.iter().nth(i), "element missing from the iteration"));
            check!(need!(a.get(i + 1), "neighbour").to_unsigned_int() == 12345, "neighbour changed");
        }
        // a dict, narrow or wide
        _ => {
            need_ok!(e.begin_dict(), "begin_dict");
            if ctx == 4 {
                need_ok!(e.write_key("f"), "write_key");
                far_value(&mut e);
            }
            need_ok!(e.write_key("key"), "write_key");
            need_ok!(e.write_value(v), "write_value");
            need_ok!(e.end_dict(), "end_dict");
            let b = e.finish();
            let d = need_ok!(Dict::from_bytes(&b), "the document does not decode");
            check!(d.len() == 1 + (ctx == 4) as usize, "entry count");
            if d.is_wide() { cover(106) }
            f(need!(d.get("key"), "entry missing"));
            let last = need!(d.iter().last(), "iteration is empty");
            check!(same(last.0.as_bytes(), b"key"), "key changed");
            f(last.1);
        }
    }
    cover(100 + ctx as u32);
}

/// Any unsigned number of `width` bytes, a path for each number of significant bytes.
pub fn any_unsigned(width: u32) -> u64 {
    let b = bytes(width as usize);
    let n = choice(width as u64 + 1) as usize;
    let mut x = 0;
    for i in 0..n { x |= (b[i] as u64) << (8 * i) }
    for i in n..b.len() { assume(b[i] == 0) }
    assume(n == 0 || b[n - 1] != 0);
    x
}
/// Any signed number of `width` bytes, a path for each sign and number of significant bytes.
pub fn any_signed(width: u32) -> i64 {
    let x = any_unsigned(width);
    assume(x >> (8 * width - 1) & 1 == 0);
    if choice(2) == 0 { x as i64 } else { !x as i64 }
}
pub fn any_u64() -> u64 { any_unsigned(8) }
pub fn any_i64() -> i64 { any_signed(8) }
pub fn any_char() -> char {
    let c = u32v();
    assume(c < 0x11_0000 && !(0xd800..0xe000).contains(&c));
    unsafe { char::from_u32_unchecked(c) }
}
