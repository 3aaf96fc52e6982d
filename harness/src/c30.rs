//! C30: the fleece! macro builds the document it spells.
use crate::common::*;
use crate::mirror::*;
use fleece::alloced::{AllocedArray, AllocedDict};
use fleece::fleece;

struct Shape;
impl Shape {
    fn array(f: impl FnOnce(&mut Encoder)) -> Vec<u8> { let mut e = Encoder::new(); need_ok!(e.begin_array(0), "begin_array"); f(&mut e); need_ok!(e.end_array(), "end_array"); e.finish() }
    fn dict(f: impl FnOnce(&mut Encoder)) -> Vec<u8> { let mut e = Encoder::new(); need_ok!(e.begin_dict(), "begin_dict"); f(&mut e); need_ok!(e.end_dict(), "end_dict"); e.finish() }
}
fn put<T: Encodable>(e: &mut Encoder, v: T) { need_ok!(e.write_value(v), "write_value") }
fn key(e: &mut Encoder, k: &str) { need_ok!(e.write_key(k), "write_key") }
fn open(e: &mut Encoder) { need_ok!(e.begin_array(0), "begin_array") }
fn close(e: &mut Encoder) { need_ok!(e.end_array(), "end_array") }
fn open_dict(e: &mut Encoder) { need_ok!(e.begin_dict(), "begin_dict") }
fn close_dict(e: &mut Encoder) { need_ok!(e.end_dict(), "end_dict") }
fn is_array(a: AllocedArray, b: Vec<u8>) {
    same_array(&a, need_ok!(Array::from_bytes(&b), "the document does not decode"), true);
    copy_of_array(&MutableArray::from(a), need_ok!(Array::from_bytes(&b), "the document does not decode"), true);
    cover(1)
}
fn is_dict(d: AllocedDict, b: Vec<u8>) {
    same_dict(&d, need_ok!(Dict::from_bytes(&b), "the document does not decode"), true);
    copy_of_dict(&MutableDict::from(d), need_ok!(Dict::from_bytes(&b), "the document does not decode"), true);
    cover(2)
}
harnesses! {
    /// [longest text]
    fn h_c30_macro() {
        let x = any_i64();
        let t = ascii(choice(param(0) + 1) as usize);
        let t = t.as_str();
        let y = u16v();
        match choice(12) {
            0 => is_array(fleece![(x)], Shape::array(|e| put(e, x))),
            1 => is_array(fleece![1, (t), true, (x), 0.5,], Shape::array(|e| { put(e, 1); put(e, t); put(e, true); put(e, x); put(e, 0.5) })),
            2 => is_array(fleece![[(x)], (y)], Shape::array(|e| { open(e); put(e, x); close(e); put(e, y) })),
            3 => is_array(fleece![[], {}, [[]], (t)], Shape::array(|e| { open(e); close(e); open_dict(e); close_dict(e); open(e); open(e); close(e); close(e); put(e, t) })),
            4 => is_array(fleece![{ "a": (x), "key": [(t), (y)] }, "last"], Shape::array(|e| { open_dict(e); key(e, "a"); put(e, x); key(e, "key"); open(e); put(e, t); put(e, y); close(e); close_dict(e); put(e, "last") })),
            5 => is_dict(fleece!{}, Shape::dict(|_| {})),
            6 => is_dict(fleece!{ "key": (x) }, Shape::dict(|e| { key(e, "key"); put(e, x) })),
            7 => is_dict(fleece!{ "z": (t), "y": (y), "": 7u8, "a longer key": (x), }, Shape::dict(|e| { key(e, "z"); put(e, t); key(e, "y"); put(e, y); key(e, ""); put(e, 7u8); key(e, "a longer key"); put(e, x) })),
            8 => is_dict(fleece!{ "k": { "b": { "c": (x) }, "a": [[(t)], (y)] }, "j": [] }, Shape::dict(|e| { key(e, "k"); open_dict(e); key(e, "b"); open_dict(e); key(e, "c"); put(e, x); close_dict(e); key(e, "a"); open(e); open(e); put(e, t); close(e); put(e, y); close(e); close_dict(e); key(e, "j"); open(e); close(e) })),
            9 => is_dict(fleece!{ "null": (fleece::encoder::NullValue), "some": (Some(y)), "none": (None::<u8>) }, Shape::dict(|e| { key(e, "null"); put(e, fleece::encoder::NullValue); key(e, "some"); put(e, Some(y)); key(e, "none"); put(e, None::<u8>) })),
            10 => is_array(fleece![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, (t), { "in": (x) }], Shape::array(|e| { for i in 0..12 { put(e, i) } put(e, t); open_dict(e); key(e, "in"); put(e, x); close_dict(e) })),
            _ => { let far = "x".repeat(0x8010); let far = far.as_str(); is_array(fleece![(t), (far), { "k": (y), "l": [(x)] }], Shape::array(|e| { put(e, t); put(e, far); open_dict(e); key(e, "k"); put(e, y); key(e, "l"); open(e); put(e, x); close(e); close_dict(e) })); cover(3) }
        }
    }
}
