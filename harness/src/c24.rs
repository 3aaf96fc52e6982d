//! C24: encodable values honour their announced size.
use crate::common::*;

const FILL: u8 = 0xE5;
/// Writes v into a buffer of every size up to `most`, narrow and wide.
fn honest<T: Encodable + ?Sized>(v: &T, most: u64) {
    let n = v.fleece_size();
    let b = choice(most + 1) as usize;
    let wide = choice(2) == 1;
    check!(n >= 2, "announced size below two");
    let need = if wide && n == 2 { 4 } else { n };
    let mut buf = vec![FILL; b];
    let r = v.write_fleece_to(&mut buf, wide);
    if b < need {
        check!(r.is_none(), "a value is said to be written to a buffer that is too small");
        cover(1);
    } else {
        let w = need!(r, "a value is not written to a buffer that is large enough").get();
        check!(w == need, "another number of bytes than announced");
        let need = conc(need as u64) as usize;
        for i in need..b { check!(buf[i] == FILL, "written beyond the announced size"); }
        if wide && n == 2 { check!(buf[2] == 0 && buf[3] == 0, "padding"); }
        cover(if wide { 2 } else { 3 });
        // the type can be told from the first byte, and a small value is what is put into a slot
        match v.to_sized_value() {
            Some(s) => {
                check!(n == 2, "a slot value that is larger than a slot");
                let mut other = vec![FILL; b];
                let q = need!(s.write_fleece_to(&mut other, wide), "a slot value is not written").get();
                check!(q == need && s.fleece_size() == n, "a slot value has another size");
                check!(same(&buf[..need], &other[..need]), "a slot value has other contents");
                for i in need..b { check!(other[i] == FILL, "a slot value is written beyond its size"); }
                cover(4);
            }
            None => { check!(n > 2, "a value that fits a slot has no slot value"); cover(5) }
        }
    }
}
harnesses! {
    fn h_c24_i64() { honest(&(u64v() as i64), param(0)) }
    fn h_c24_u64() { honest(&u64v(), param(0)) }
    fn h_c24_isize() { honest(&(u64v() as isize), param(0)) }
    fn h_c24_usize() { honest(&(u64v() as usize), param(0)) }
    fn h_c24_i32() { honest(&(u32v() as i32), param(0)) }
    fn h_c24_u32() { honest(&u32v(), param(0)) }
    fn h_c24_i16() { honest(&(u16v() as i16), param(0)) }
    fn h_c24_u16() { honest(&u16v(), param(0)) }
    fn h_c24_i8() { honest(&(u8v() as i8), param(0)) }
    fn h_c24_u8() { honest(&u8v(), param(0)) }
    fn h_c24_f32() { honest(&f32::from_bits(u32v()), param(0)) }
    fn h_c24_f64() { honest(&f64::from_bits(u64v()), param(0)) }
    fn h_c24_other() {
        match choice(8) {
            0 => honest(&true, param(0)), 1 => honest(&false, param(0)),
            2 => honest(&NullValue, param(0)), 3 => honest(&UndefinedValue, param(0)),
            4 => honest(&None::<f64>, param(0)), 5 => honest(&Some(f32::from_bits(u32v())), param(0)),
            6 => honest(&Some(&u16v()), param(0)), _ => honest(&Some(Some(true)), param(0)),
        }
    }
    /// strings and data of every length up to param(1)
    fn h_c24_bytes() {
        let n = choice(param(1) + 1) as usize;
        let s = ascii(n);
        match choice(3) {
            0 => honest(s.as_str(), param(1) + 4),
            1 => honest(s.as_bytes(), param(1) + 4),
            _ => honest(&Some(s.as_str()), param(1) + 4),
        }
        if n == 16 { cover(6) }
    }
    /// around the lengths at which the length prefix grows
    fn h_c24_long() {
        let n = [126usize, 127, 128, 129, 16382, 16383, 16384][choice(7) as usize];
        let v = vec![u8v(); n];
        let size = v.as_slice().fleece_size();
        let b = size - 2 + choice(5) as usize;
        let mut buf = vec![FILL; b];
        let r = v.as_slice().write_fleece_to(&mut buf, choice(2) == 1);
        if b < size { check!(r.is_none(), "too small"); cover(1) }
        else {
            check!(need!(r, "not written").get() == size, "another number of bytes than announced");
            for i in size..b { check!(buf[i] == FILL, "written beyond the announced size"); }
            check!(same(&buf[size - n..size], &v), "contents");
            cover(2);
        }
    }
}
