//! C10: the encoder rejects misuse and loses nothing.
use crate::common::*;
use crate::hist::*;

fn history(steps: u64, kinds: u64, failures: u64, shared: bool) {
    let mut m = Model::new();
    let mut e = Encoder::new();
    let mut clean = Encoder::new();
    if shared { e.set_shared_keys(SharedKeys::new()); clean.set_shared_keys(SharedKeys::new()); }
    let mut wrong = 0;
    for i in 0..steps {
        let o = any_op(kinds, i as u8);
        let expect = m.apply(o);
        let got = call(&mut e, o);
        if expect {
            check!(got, "a call that is in order fails");
            if !call(&mut clean, o) { fail("a call that is in order fails without the failed calls before it") }
        } else {
            check!(!got, "a call that is out of order succeeds");
            wrong += 1;
            assume(wrong <= failures);
        }
    }
    if wrong == failures { cover(1) }
    if wrong == 0 { cover(2) }
    if m.closed { cover(3) }
    let a = e.finish();
    let b = clean.finish();
    check!(same(&a, &b), "a failed call leaves traces in the document");
    if !m.nodes.is_empty() {
        let v = need_ok!(Value::from_bytes(&a), "the document does not decode");
        if !shared { m.is_node(v, 0) }
        cover(4);
    }
}
harnesses! {
    fn h_c10_history() { history(param(0), param(1), param(2), false) }
    fn h_c10_shared() { history(param(0), param(1), param(2), true) }
    /// deep nesting, then every call once, then everything closed again
    fn h_c10_nested() {
        let mut m = Model::new();
        let mut e = Encoder::new();
        let mut clean = Encoder::new();
        let depth = choice(param(0)) + 1;
        let mut step = |m: &mut Model, o: Op| {
            let expect = m.apply(o);
            let got = call(&mut e, o);
            check!(expect == got, "another outcome than expected");
            if expect { call(&mut clean, o); }
        };
        for i in 0..depth {
            if choice(2) == 0 { step(&mut m, Op::BeginArray); }
            else { step(&mut m, Op::BeginDict); if i + 1 < depth || choice(2) == 1 { step(&mut m, Op::LongKey(b'A' + i as u8)); } }
        }
        let x = u8v();
        // out of order or not, twice in a row
        let k = choice(11);
        step(&mut m, op(k, 0, x));
        step(&mut m, op(k, 1, x));
        for _ in 0..depth { step(&mut m, Op::EndArray); step(&mut m, Op::EndDict); }
        let a = e.finish();
        check!(same(&a, &clean.finish()), "a failed call leaves traces in the document");
        m.is_node(need_ok!(Value::from_bytes(&a), "the document does not decode"), 0);
        cover(1);
        if depth == param(0) { cover(2) }
    }
}
