//! C19: what is serialized deserializes to an equal value.
use crate::common::*;
use crate::serial::*;
use serde::{Deserialize, Serialize};

/// A value of a type that stands for several, chosen by a path of its own.
fn small(depth: u64) -> Any<Box<Tree>, u16> {
    match choice(if depth == 0 { 4 } else { 7 }) {
        0 => Any::Unit,
        1 => Any::Nothing(),
        2 => Any::Empty {},
        3 => Any::AVeryLongVariantName(u16v()),
        4 => Any::N(tree(depth - 1)),
        5 => Any::Two(tree(depth - 1), 3000),
        _ => Any::Fields { v: tree(depth - 1), other_field: 70 },
    }
}
#[derive(Serialize, Deserialize)]
struct Tree { of: Any<Box<Tree>, u16>, more: Option<Box<Tree>> }
impl Same for Tree { fn same(&self, o: &Self) -> bool { self.of.same(&o.of) && self.more.same(&o.more) } }
fn tree(depth: u64) -> Box<Tree> {
    Box::new(Tree { of: small(depth), more: if depth > 0 && choice(2) == 1 { Some(tree(depth - 1)) } else { None } })
}
harnesses! {
    /// every number in every place
    fn h_c19_integers() {
        shapes(any_integer())
    }
    fn h_c19_scalars() { shapes(any_other()) }
    fn h_c19_texts() { shapes(any_text(param(0))) }
    /// [longest]  strings of any characters
    fn h_c19_utf8() { let s = string(param(0)); trip(&vec![s.clone()], &|w: &Vec<String>| w.len() == 1 && w[0].same(&s)); cover(1) }
    /// maps by their keys  [keys, longest]
    fn h_c19_maps() {
        let n = choice(param(0) + 1);
        let mut keys: Vec<String> = Vec::new();
        let mut p = Vec::new();
        for _ in 0..n {
            let k = if choice(2) == 0 { ascii(choice(param(1) + 1) as usize) } else { String::from(["a key that is too long", "é", "number_1"][choice(3) as usize]) };
            for x in &keys { assume(!same(x.as_bytes(), k.as_bytes())) }
            keys.push(k.clone());
            p.push((k, u8v()));
        }
        let p = Pairs(p, choice(2) == 0);
        trip(&p, &|w| p.same(w));
        cover(1);
    }
    /// keys of other types that are strings
    fn h_c19_keys() {
        let c = || if choice(2) == 0 { let b = u8v(); assume(b < 0x80); b as char } else { ['é', 'ÿ', '߿', 'ࠀ', '日', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '🂡', '\u{10ffff}'][choice(11) as usize] };
        match choice(4) {
            0 => { let p = Pairs(vec![(c(), 5u8)], false); trip(&p, &|w| p.same(w)) }
            1 => { let p = Pairs(vec![(New(c()), 5u8)], true); trip(&p, &|w| p.same(w)) }
            2 => { let p = Pairs(vec![(Some(c()), 5u8)], false); trip(&p, &|w| p.same(w)) }
            _ => { let p = Pairs(vec![(New(ascii(2)), Unit)], false); trip(&p, &|w| p.same(w)) }
        }
        cover(1);
    }
    /// nested enums, options and boxes  [depth]
    fn h_c19_trees() {
        let t = tree(param(0));
        if choice(2) == 0 { trip(&t, &|w| t.same(w)) } else { trip(&t.of, &|w| t.of.same(w)) }
        cover(1);
    }
    /// sequences and maps of every length
    fn h_c19_lengths() {
        let n = choice(param(0)) as usize;
        match choice(4) {
            0 => { let v = Seq((0..n).map(|i| 256 * i as u16 + u8v() as u16).collect()); trip(&v, &|w| v.same(w)) }
            1 => { let v: Vec<Unit> = (0..n).map(|_| Unit).collect(); trip(&v, &|w| v.same(w)) }
            2 => { let v: Vec<Option<Vec<u8>>> = (0..n).map(|i| if i % 2 == 0 { None } else { Some(bytes(i % 3)) }).collect(); trip(&v, &|w| v.same(w)) }
            _ => { let v = Pairs((0..n).map(|i| (format_key(i), u8v())).collect(), true); trip(&v, &|w| v.same(w)) }
        }
        cover(1);
    }
    /// wide collections
    fn h_c19_wide() {
        let blob = || Blob(vec![0u8; FAR]);
        let x = u32v();
        assume(x >> 24 == 0x12);
        match choice(7) {
            0 => { let v = (blob(), Any::<u32, u16>::N(x), Any::<u32, u16>::Fields { v: x, other_field: 3 }); trip(&v, &|w| v.same(w)) }
            1 => { let v = Any::<Blob, u32>::N(blob()); trip(&v, &|w| v.same(w)) }
            2 => { let v = Any::<Blob, u32>::Two(blob(), x); trip(&v, &|w| v.same(w)) }
            3 => { let v = Any::<Blob, u32>::Fields { v: blob(), other_field: x }; trip(&v, &|w| v.same(w)) }
            4 => { let v = Three { v: blob(), other_field: x, c: Some(Unit) }; trip(&v, &|w| v.same(w)) }
            5 => { let v = vec![Any::<Blob, u32>::AVeryLongVariantName(x), Any::Unit, Any::N(blob()), Any::Two(Blob(vec![1, 2]), x), Any::Nothing()]; trip(&v, &|w| v.same(w)) }
            _ => { let v = Pairs(vec![('a', Any::<Blob, u32>::Unit), ('é', Any::N(blob())), ('b', Any::Two(Blob(vec![1]), x))], false); trip(&v, &|w| v.same(w)) }
        }
        cover(1);
    }
}
fn format_key(i: usize) -> String {
    let mut s = String::from("k");
    s.push((b'0' + (i / 10) as u8) as char);
    s.push((b'0' + (i % 10) as u8) as char);
    s
}
