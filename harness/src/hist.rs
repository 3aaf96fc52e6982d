//! A model of what an encoder has been told so far.
use crate::common::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Op { BeginArray, BeginDict, EndArray, EndDict, Key(u8), LongKey(u8), Small(u8), Big(u8), Text(u8), Fleece(u8), FleeceArray(u8), Num(u32), AnyKey([u8; 2]) }

pub enum Item { Small(u8), Big(u8), Num(u32), Text(u8), Coll(usize), Inner(u8) }
pub struct Node { pub dict: bool, pub keys: Vec<Vec<u8>>, pub items: Vec<Item>, pub pending: bool, pub open: bool }
pub struct Model { pub nodes: Vec<Node>, pub stack: Vec<usize>, pub closed: bool }

pub fn text(x: u8) -> [u8; 3] { [b'a' + (x & 15), b't', b'A' + (x >> 4)] }
pub fn long_key(x: u8) -> [u8; 4] { [b'k', b'e', b'y', x] }
pub fn big(x: u8) -> u32 { 0x01_0000 + x as u32 }

impl Model {
    pub fn new() -> Self { Model { nodes: Vec::new(), stack: Vec::new(), closed: false } }
    fn top(&mut self) -> Option<&mut Node> { let i = *self.stack.last()?; Some(&mut self.nodes[i]) }
    /// May a value be written now?
    fn takes_value(&mut self) -> bool { match self.top() { None => false, Some(n) => !n.dict || n.pending } }
    fn put(&mut self, it: Item) { let n = self.top().unwrap(); n.items.push(it); n.pending = false }
    /// Does the call have to succeed?  If so, it is carried out.
    pub fn apply(&mut self, op: Op) -> bool {
        match op {
            Op::BeginArray | Op::BeginDict => {
                if self.closed || (!self.stack.is_empty() && !self.takes_value()) { return false }
                let i = self.nodes.len();
                if !self.stack.is_empty() { self.put(Item::Coll(i)) }
                self.nodes.push(Node { dict: op == Op::BeginDict, keys: Vec::new(), items: Vec::new(), pending: false, open: true });
                self.stack.push(i);
                true
            }
            Op::EndArray | Op::EndDict => {
                let Some(n) = self.top() else { return false };
                if n.dict != (op == Op::EndDict) || n.pending { return false }
                n.open = false;
                self.stack.pop();
                if self.stack.is_empty() { self.closed = true }
                true
            }
            Op::Key(_) | Op::LongKey(_) | Op::AnyKey(_) => {
                let Some(n) = self.top() else { return false };
                if !n.dict || n.pending { return false }
                let key = key(op);
                for k in &n.keys { assume(!same(k, &key)) }
                n.keys.push(key);
                n.pending = true;
                true
            }
            Op::Small(x) => { if !self.takes_value() { return false } self.put(Item::Small(x)); true }
            Op::Big(x) => { if !self.takes_value() { return false } self.put(Item::Big(x)); true }
            Op::Num(x) => { if !self.takes_value() { return false } self.put(Item::Num(x)); true }
            Op::Text(x) => { if !self.takes_value() { return false } self.put(Item::Text(x)); true }
            Op::Fleece(x) => { if !self.takes_value() { return false } self.put(Item::Big(x)); true }
            Op::FleeceArray(x) => {
                if self.closed || (!self.stack.is_empty() && !self.takes_value()) { return false }
                if self.stack.is_empty() {
                    // it becomes the document
                    self.nodes.push(Node { dict: false, keys: Vec::new(), items: vec![Item::Big(x), Item::Small(x)], pending: false, open: false });
                    self.closed = true;
                } else { self.put(Item::Inner(x)) }
                true
            }
        }
    }
}
pub fn call(e: &mut Encoder, op: Op) -> bool {
    match op {
        Op::BeginArray => e.begin_array(1).is_ok(),
        Op::BeginDict => e.begin_dict().is_ok(),
        Op::EndArray => e.end_array().is_ok(),
        Op::EndDict => e.end_dict().is_ok(),
        Op::Key(_) | Op::LongKey(_) | Op::AnyKey(_) => e.write_key(unsafe { core::str::from_utf8_unchecked(&key(op)) }).is_ok(),
        Op::Num(x) => e.write_value(x).is_ok(),
        Op::Small(x) => e.write_value(x).is_ok(),
        Op::Big(x) => e.write_value(big(x)).is_ok(),
        Op::Text(x) => e.write_value(unsafe { core::str::from_utf8_unchecked(&text(x)) }).is_ok(),
        Op::Fleece(x) => {
            let n = big(x).to_le_bytes();
            let d = [0x1A, n[0], n[1], n[2], 0x80, 2];
            e.write_fleece(need_ok!(Value::from_bytes(&d), "fixture")).is_ok()
        }
        Op::FleeceArray(x) => {
            let n = big(x).to_le_bytes();
            let d = [0x1A, n[0], n[1], n[2], 0x60, 2, 0x80, 3, 0, x, 0x80, 3];
            e.write_fleece(need_ok!(Value::from_bytes(&d), "fixture")).is_ok()
        }
    }
}
pub fn key(op: Op) -> Vec<u8> {
    match op { Op::Key(k) => vec![k], Op::LongKey(k) => long_key(k).to_vec(), Op::AnyKey(k) => k.to_vec(), _ => Vec::new() }
}
/// One of the operations in the set `kinds`, with symbolic values; `i` tells it from others.
pub fn any_op(kinds: u64, i: u8) -> Op {
    let mut n = choice(kinds.count_ones() as u64);
    let mut k = 0;
    loop {
        if kinds >> k & 1 == 1 { if n == 0 { break } n -= 1 }
        k += 1;
    }
    match k {
        11 => {
            // two, three or four bytes; the top byte is fixed so that the size is, too
            let b: [u8; 3] = array();
            Op::Num(match choice(3) { 0 => u32::from_le_bytes([b[0], 0x80, 0, 0]), 1 => u32::from_le_bytes([b[0], b[1], 1, 0]), _ => u32::from_le_bytes([b[0], b[1], b[2], 0xFF]) })
        }
        12 => {
            let k = [u8v(), u8v()];
            assume((k[0] | k[1]) < 0x80);
            Op::AnyKey(k)
        }
        _ => op(k, i, u8v()),
    }
}
/// The operation number k of `kinds`, with the fresh key `i` and the value x.
pub fn op(k: u64, i: u8, x: u8) -> Op {
    match k {
        0 => Op::BeginArray, 1 => Op::EndArray, 2 => Op::BeginDict, 3 => Op::EndDict,
        4 => Op::LongKey(b'a' + i), 5 => Op::Small(x), 6 => Op::Big(x), 7 => Op::Key(b'a' + i),
        8 => Op::Fleece(x), 9 => Op::Text(x), _ => Op::FleeceArray(x),
    }
}
fn is_inner(v: &Value, x: u8) {
    let a = need!(v.as_array(), "a re-encoded array is not an array");
    check!(a.len() == 2, "length of a re-encoded array");
    check!(need!(a.get(0), "element").to_unsigned_int() == big(x) as u64 && need!(a.get(1), "element").to_unsigned_int() == x as u64, "elements of a re-encoded array");
}
impl Model {
    fn is_item(&self, v: &Value, it: &Item) {
        match *it {
            Item::Small(x) => check!(v.to_unsigned_int() == x as u64 && v.value_type() == ValueType::Short, "a small value"),
            Item::Big(x) => check!(v.to_unsigned_int() == big(x) as u64 && v.value_type() == ValueType::UnsignedInt, "a large value"),
            Item::Num(x) => check!(v.to_unsigned_int() == x as u64 && v.to_int() == x as i64, "a number"),
            Item::Text(x) => check!(same(v.to_str().as_bytes(), &text(x)), "a string"),
            Item::Coll(i) => self.is_node(v, i),
            Item::Inner(x) => is_inner(v, x),
        }
    }
    /// v reads as the model's node i, with a dangling key dropped.
    pub fn is_node(&self, v: &Value, i: usize) {
        let n = &self.nodes[i];
        if n.dict {
            let d = need!(v.as_dict(), "not a dict");
            check!(d.len() == n.items.len(), "number of pairs");
            for (it, key) in n.items.iter().zip(&n.keys) {
                let v = need!(d.get(unsafe { core::str::from_utf8_unchecked(key) }), "a key is missing");
                self.is_item(v, it);
            }
            if n.keys.len() > n.items.len() { cover(40) }
        } else {
            let a = need!(v.as_array(), "not an array");
            check!(a.len() == n.items.len(), "number of elements");
            for (j, it) in n.items.iter().enumerate() { self.is_item(need!(a.get(j), "element"), it) }
        }
    }
}
