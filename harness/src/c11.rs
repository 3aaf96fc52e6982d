//! C11: finished output is always valid Fleece.
use crate::common::*;
use crate::hist::*;

fn valid(out: &[u8], m: &Model) {
    check!(out.len() % 2 == 0, "the output has an odd size");
    let v = need_ok!(Value::from_bytes(out), "the output does not decode");
    m.is_node(v, 0);
}
harnesses! {
    /// any history, finished at any time
    fn h_c11_finish() {
        let mut m = Model::new();
        let mut e = Encoder::new();
        for i in 0..param(0) {
            let o = any_op(param(1), i as u8);
            // out-of-order calls are C10's subject
            assume(m.apply(o));
            if !call(&mut e, o) { fail("a call that is in order fails") }
        }
        cover(1);
        if m.stack.len() > 1 { cover(2) }
        if m.closed { cover(3) }
        let out = e.finish();
        valid(&out, &m);
    }
    /// with calls that fail in between
    fn h_c11_misuse() {
        let mut m = Model::new();
        let mut e = Encoder::new();
        for i in 0..param(0) {
            let o = any_op(param(1), i as u8);
            m.apply(o);
            call(&mut e, o);
        }
        if !m.nodes.is_empty() { cover(1); valid(&e.finish(), &m) }
    }
    /// behind existing bytes
    fn h_c11_append() {
        let n = [0usize, 1, 2, 3, 4, 7, 16, 17, 40000, 40001][choice(param(2)) as usize];
        let before = if n < 100 { bytes(n) } else { let mut v = vec![0x5A; n]; v[0] = u8v(); v[n - 1] = u8v(); v };
        let mut m = Model::new();
        let mut e = Encoder::new_to_vec(before.clone());
        for i in 0..param(0) {
            let o = any_op(param(1), i as u8);
            assume(m.apply(o));
            if !call(&mut e, o) { fail("a call that is in order fails") }
        }
        let out = e.finish();
        check!(out.len() > n && same(&out[..n], &before), "the existing bytes changed");
        valid(&out, &m);
        cover(1);
        if n % 2 == 1 { cover(2) } else if n > 0 { cover(3) }
    }
    /// the other ways to finish
    fn h_c11_ways() {
        let mut m = Model::new();
        let mut e = Encoder::new();
        for i in 0..param(0) {
            let o = any_op(param(1), i as u8);
            assume(m.apply(o));
            if !call(&mut e, o) { fail("a call that is in order fails") }
        }
        if choice(2) == 0 {
            let v = e.finish_value();
            m.is_node(&v, 0);
            cover(1);
        } else {
            let s = e.finish_scoped();
            let r = need!(s.root(), "no root");
            m.is_node(&r, 0);
            cover(2);
        }
    }
}
