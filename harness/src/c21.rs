//! C21: scopes are found for exactly the data they retain.
use crate::common::*;
use std::sync::Arc;

struct Live { scope: Arc<Scope>, keys: Option<Arc<SharedKeys>>, registered: bool, root: u8 }
struct World { live: Vec<Live>, held: Vec<Arc<[u8]>>, starts: Vec<usize> }

fn table() -> SharedKeys { let mut t = SharedKeys::new(); t.encode_and_insert("key"); t }
const SIZES: [usize; 5] = [2, 0, 6, 30, 48];
/// Turn d into an empty array.
fn document(d: &mut [u8]) {
    let n = d.len();
    if n > 2 { d[n - 4] = 0x60; d[n - 2] = 0x80; d[n - 1] = 1 } else if n == 2 { d[0] = 0x60 }
}
/// A scope made in one of several ways.
fn create(ways: u64, sizes: u64) -> Live {
    match choice(ways) {
        0 => {
            let n = SIZES[choice(sizes) as usize];
            let mut d = vec![0u8; n];
            document(&mut d);
            let keys = if choice(2) == 1 { Some(Arc::new(table())) } else { None };
            let scope = Scope::new(d, keys.clone());
            Live { scope, keys, registered: n > 0, root: (n > 0) as u8 }
        }
        1 => {
            let mut e = Encoder::new();
            e.set_shared_keys(table());
            need_ok!(e.begin_dict(), "begin_dict");
            need_ok!(e.write_key("key"), "write_key");
            need_ok!(e.write_value(5u8), "write_value");
            need_ok!(e.end_dict(), "end_dict");
            let scope = e.finish_scoped();
            let keys = scope.shared_keys().cloned();
            check!(keys.is_some(), "a scope lost its shared keys");
            Live { scope, keys, registered: true, root: 2 }
        }
        // data which is no document
        2 => {
            let scope = Scope::new(vec![0xffu8; 3], None);
            Live { scope, keys: None, registered: true, root: 0 }
        }
        _ => {
            let d: Arc<[u8]> = Arc::from(&[0x60u8, 0, 0x80, 1][..]);
            let scope = Scope::new(d, None);
            Live { scope, keys: None, registered: true, root: 1 }
        }
    }
}
fn add(w: &mut World, l: Live) {
    if let Some(r) = l.scope.range() { w.starts.push(r.start) }
    w.live.push(l);
}
/// Who is found for any address at all?
#[inline(never)]
fn probe(w: &World, near: bool) {
    // any address, or - so that it means the same in a replay - one near where some scope is or was
    let all = w.starts.len() as u64;
    let n = if near { all } else { all.min(1) };
    let i = all - n + choice(n + 1);
    if i == all {
        let p = u64v() as usize;
        look_anywhere(w, p as *const u8)
    } else {
        let p = w.starts[i as usize].wrapping_add(u8v() as usize).wrapping_sub(32);
        look_near(w, p as *const u8)
    }
}
#[inline(never)]
fn look_anywhere(w: &World, p: *const u8) { look(w, p); cover(7) }
#[inline(never)]
fn look_near(w: &World, p: *const u8) { look(w, p); cover(8) }
#[inline(never)]
fn look(w: &World, p: *const u8) {
    let mut expected: Option<&Live> = None;
    for l in &w.live {
        if !l.registered { continue }
        let r = need!(l.scope.range(), "the scope's data is gone");
        if (p as usize) >= r.start && (p as usize) < r.end { expected = Some(l); break }
    }
    match (expected, Scope::containing(p)) {
        (None, None) => cover(1),
        (Some(l), Some(s)) => { check!(Arc::ptr_eq(&l.scope, &s), "another scope is found"); cover(2) }
        (Some(_), None) => fail("a scope is not found"),
        (None, Some(_)) => fail("a scope is found for an address outside its data"),
    }
    match (expected.and_then(|l| l.keys.as_ref()), Scope::find_shared_keys(p)) {
        (None, None) => {}
        (Some(a), Some(b)) => { check!(Arc::ptr_eq(a, &b), "other shared keys are found"); cover(3) }
        (Some(_), None) => fail("shared keys are not found"),
        (None, Some(_)) => fail("shared keys are found for an address outside"),
    }
}
/// Each scope still has its data and root.
fn intact(w: &World) {
    for l in &w.live {
        let d = need!(l.scope.data(), "the scope's data is gone");
        let r = need!(l.scope.range(), "the scope's data is gone");
        check!(r.start == d.as_ptr() as usize && r.end == r.start + d.len(), "range");
        check!(l.scope.shared_keys().is_some() == l.keys.is_some(), "shared keys");
        match (l.root, l.scope.root()) {
            (0, None) => {}
            (1, Some(v)) => check!(need!(v.as_array(), "root").is_empty(), "root"),
            (2, Some(v)) => {
                let x = need!(v.as_dict(), "root");
                check!(x.len() == 1, "root");
                match x.get("key") {
                    Some(v) => check!(l.registered && v.to_int() == 5, "root"),
                    None => check!(!l.registered, "a registered scope's keys are not found"),
                }
                cover(4);
            }
            _ => fail("root"),
        }
    }
}
harnesses! {
    /// [operations, ways to create, sizes, reuse, hold data]
    fn h_c21_history() {
        reuse(param(3));
        let mut w = World { live: Vec::new(), held: Vec::new(), starts: Vec::new() };
        for _ in 0..param(0) {
            let n = w.live.len() as u64;
            let k = choice(1 + (2 + param(4)) * n);
            if k == 0 { let l = create(param(1), param(2)); add(&mut w, l); continue }
            let i = ((k - 1) % n) as usize;
            match (k - 1) / n {
                0 => { w.live.swap_remove(i); cover(5) }
                1 => { let l = &mut w.live[i]; l.scope.remove(); l.registered = false; cover(6) }
                _ => { let d = need!(w.live[i].scope.data(), "data"); w.held.push(d) }
            }
        }
        intact(&w);
        probe(&w, true);
        // everything can be created and removed from here
        let l = create(1, 3);
        add(&mut w, l);
        intact(&w);
        for l in &mut w.live { l.scope.remove(); l.registered = false }
        probe(&w, false);
    }
    /// the data of each scope takes the block that the one before it left  [scopes, sizes]
    fn h_c21_replaced() {
        reuse(2);
        let mut w = World { live: Vec::with_capacity(8), held: Vec::new(), starts: Vec::with_capacity(8) };
        if choice(2) == 1 { let l = create(1, 3); add(&mut w, l) }
        for i in 0..param(0) {
            let n = SIZES[choice(param(1)) as usize];
            let mut d = vec![0u8; n];
            document(&mut d);
            let keys = if n == 30 { Some(Arc::new(table())) } else { None };
            if i > 0 {
                let l = need!(w.live.pop(), "scope");
                match choice(3) {
                    0 => {}
                    1 => { l.scope.remove(); cover(10) }
                    // outlives its own registration, and then that of the next one
                    _ => { let s = l.scope.clone(); drop(l); drop(s) }
                }
            }
            let scope = Scope::new(d, keys.clone());
            if let (Some(r), Some(x)) = (scope.range(), w.starts.last()) { if r.start == *x && n > 0 { cover(9) } }
            add(&mut w, Live { scope, keys, registered: n > 0, root: (n > 0) as u8 });
        }
        intact(&w);
        if choice(2) == 1 { if let Some(l) = w.live.last_mut() { l.scope.remove(); l.registered = false } }
        probe(&w, true);
    }
    /// many scopes at once, any one of them dropped and any one removed  [scopes]
    fn h_c21_many() {
        reuse(2);
        let mut w = World { live: Vec::new(), held: Vec::new(), starts: Vec::new() };
        let n = param(0);
        for i in 0..n {
            let mut d = vec![0u8; 2 + 2 * (i as usize % 4)];
            document(&mut d);
            let keys = if i % 3 == 0 { Some(Arc::new(table())) } else { None };
            let scope = Scope::new(d, keys.clone());
            add(&mut w, Live { scope, keys, registered: true, root: 1 });
        }
        let (i, j) = (choice(n) as usize, choice(n - 1) as usize);
        w.live.remove(i);
        w.live[j].scope.remove();
        w.live[j].registered = false;
        intact(&w);
        probe(&w, true);
    }
}
