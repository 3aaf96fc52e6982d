//! An independent reader of the Fleece format, which shares nothing with the crate's decoder and
//! takes nothing on trust.
use crate::common::*;

pub enum Wire { Int(u64, bool), F32(u32), F64(u64), Null, Undefined, Bool(bool), Str(Vec<u8>), Data(Vec<u8>), Array(Vec<Slot>), Dict(Vec<(Slot, Slot)>) }
/// Where a value is, and how many bytes it may take.
#[derive(Clone, Copy)]
pub struct Slot { pub pos: usize, room: usize, inline: bool }
pub struct Doc<'a> { b: &'a [u8], used: Vec<bool> }

impl<'a> Doc<'a> {
    /// The document in the bytes b (from `start` on) and its root.
    pub fn new(b: &'a [u8], start: usize) -> (Self, Slot) {
        check!(b.len() % 2 == 0 && b.len() >= start + 2, "size of the output");
        let mut d = Doc { b, used: vec![false; b.len()] };
        for i in 0..start { d.used[i] = true }
        let at = b.len() - 2;
        d.claim(at, 2);
        check!(b[at] & 0x80 != 0, "the root is not a pointer");
        let s = d.follow(at, 2);
        (d, s)
    }
    fn claim(&mut self, pos: usize, n: usize) {
        check!(pos + n <= self.b.len(), "a value ends behind the document");
        for i in pos..pos + n {
            check!(!self.used[i], "two values overlap");
            self.used[i] = true;
        }
    }
    /// The value of the slot of the given width, through pointers.
    fn follow(&mut self, at: usize, width: usize) -> Slot {
        if self.b[at] & 0x80 == 0 { return Slot { pos: at, room: width, inline: true } }
        let (mut at, mut width) = (at, width);
        loop {
            check!(self.b[at] & 0x40 == 0, "an external pointer");
            let mut off = (self.b[at] & 0x3f) as usize;
            for i in 1..width { off = off << 8 | self.b[at + i] as usize }
            let off = 2 * off;
            check!(off > 0 && off <= at, "a pointer leads out of the document");
            let to = at - off;
            check!(to % 2 == 0, "a value at an odd address");
            if self.b[to] & 0x80 == 0 { return Slot { pos: to, room: off, inline: false } }
            // a pointer to a pointer, which is a wide one
            self.claim(to, 4);
            at = to;
            width = 4;
        }
    }
    fn count(&self, pos: usize) -> (usize, usize) {
        let mut n = 0usize;
        let mut i = 0;
        loop {
            check!(i < 10 && pos + i < self.b.len(), "an endless number");
            let c = self.b[pos + i];
            n |= ((c & 0x7f) as usize) << (7 * i);
            i += 1;
            if c & 0x80 == 0 {
                check!(i == 1 || c != 0, "a number longer than necessary");
                return (n, i);
            }
        }
    }
    pub fn read(&mut self, s: Slot) -> Wire {
        let b = self.b;
        let p = s.pos;
        let t = b[p];
        let (w, size) = match t >> 4 {
            0 => {
                let x = ((t & 0x0f) as u64) << 8 | b[p + 1] as u64;
                (Wire::Int((x ^ 0x800).wrapping_sub(0x800), false), 2)
            }
            1 => {
                let n = (t & 7) as usize + 1;
                check!(n + 1 <= s.room, "an integer overlaps what points to it");
                let unsigned = t & 8 != 0;
                let mut x = 0u64;
                for i in 0..n { x |= (b[p + 1 + i] as u64) << (8 * i) }
                let top = b[p + n];
                if unsigned {
                    check!(top != 0, "an integer takes more bytes than necessary");
                } else {
                    if n < 8 { x = (x ^ (1u64 << (8 * n - 1))).wrapping_sub(1u64 << (8 * n - 1)) }
                    if n > 1 {
                        let next = b[p + n - 1];
                        check!(!((top == 0) & (next < 0x80)) & !((top == 0xff) & (next >= 0x80)), "an integer takes more bytes than necessary");
                    }
                }
                (Wire::Int(x, unsigned), n + 1)
            }
            2 => {
                check!(b[p + 1] == 0, "second byte of a float");
                check!(s.room >= if t & 8 != 0 { 10 } else { 6 }, "a float overlaps what points to it");
                if t == 0x20 { (Wire::F32(u32::from_le_bytes([b[p + 2], b[p + 3], b[p + 4], b[p + 5]])), 6) }
                else {
                    check!(t == 0x28, "kind of float");
                    (Wire::F64(u64::from_le_bytes([b[p + 2], b[p + 3], b[p + 4], b[p + 5], b[p + 6], b[p + 7], b[p + 8], b[p + 9]])), 10)
                }
            }
            3 => (match t & 15 { 0 => Wire::Null, 4 => Wire::Bool(false), 8 => Wire::Bool(true), 12 => Wire::Undefined, _ => fail("an unknown special value") }, 2),
            4 | 5 => {
                let (head, n) = if t & 15 == 15 { let (n, k) = self.count(p + 1); check!(n >= 15, "a short length written long"); (1 + k, n) } else { (1, (t & 15) as usize) };
                check!(head + n <= s.room, "a string overlaps what points to it");
                let v = b[p + head..p + head + n].to_vec();
                (if t >> 4 == 4 { Wire::Str(v) } else { Wire::Data(v) }, head + n)
            }
            6 | 7 => {
                let dict = t >> 4 == 7;
                let width = if t & 8 != 0 { 4 } else { 2 };
                let n = ((t & 7) as usize) << 8 | b[p + 1] as usize;
                let (n, head) = if n == 0x7ff {
                    let (n, k) = self.count(p + 2);
                    check!(n >= 0x7ff, "a short count written long");
                    (n, 2 + k + k % 2)
                } else { (n, 2) };
                let elems = if dict { 2 * n } else { n };
                check!(head + width * elems <= s.room, "a collection overlaps what points to it");
                self.claim(p, head + width * elems);
                let mut l = Vec::new();
                for i in 0..elems { let e = self.follow(p + head + width * i, width); l.push(e) }
                if !dict { return Wire::Array(l) }
                return Wire::Dict(l.chunks(2).map(|x| (x[0], x[1])).collect());
            }
            _ => fail("a pointer to a pointer that is not one"),
        };
        check!(size <= s.room, "a value doesn't fit its slot");
        if !s.inline { self.claim(p, size) }
        w
    }
    pub fn array(&mut self, s: Slot) -> Vec<Slot> { match self.read(s) { Wire::Array(l) => l, _ => fail("not an array") } }
    /// Keys and values; checks the order: shared keys first, by number, then strings, by their bytes.
    pub fn dict(&mut self, s: Slot) -> Vec<(core::result::Result<Vec<u8>, u64>, Slot)> {
        let Wire::Dict(l) = self.read(s) else { fail("not a dict") };
        let mut r: Vec<(core::result::Result<Vec<u8>, u64>, Slot)> = Vec::new();
        for (k, v) in l {
            let k = match self.read(k) { Wire::Str(k) => Ok(k), Wire::Int(n, false) => Err(n), _ => fail("a key is neither a string nor shared") };
            if let Some((last, _)) = r.last() {
                match (last, &k) {
                    (Err(a), Err(b)) => check!(a < b, "shared keys are not in order"),
                    (Ok(a), Ok(b)) => check!(less(a, b), "keys are not in order"),
                    (Ok(_), Err(_)) => fail("a shared key behind a string"),
                    _ => (),
                }
            }
            r.push((k, v));
        }
        r
    }
}
pub fn less(a: &[u8], b: &[u8]) -> bool {
    let n = a.len().min(b.len());
    for i in 0..n { if a[i] != b[i] { return a[i] < b[i] } }
    a.len() < b.len()
}
pub fn is_int(w: Wire, bits: u64, signed: bool) {
    let Wire::Int(x, unsigned) = w else { fail("not an integer") };
    check!(x == bits, "an integer is written as another");
    // above i64::MAX or below zero the sign matters
    if bits >> 63 != 0 { check!(unsigned != signed, "sign of an integer") }
}
