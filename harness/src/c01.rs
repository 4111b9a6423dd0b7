//! C01: JSON input of any kind yields a value or an error; never a panic, an
//! out-of-bounds access, an endless loop or a leak.
use crate::all::common::*;
use crate::all::sym::*;
use deser_json::Deserializer;
use std::collections::BTreeMap;

fn run<T: deser::de::Deserialize>(b: &[u8]) {
    let before = live();
    let r = Deserializer::new(b).deserialize::<T>();
    out(r.is_ok() as u64);
    reach(if r.is_ok() { 1 } else { 2 });
    drop(r);
    check(live() == before, "memory leaked by parsing");
}
fn numeric(b: &mut [u8]) {
    for x in b {
        let c = byte();
        assume(((c >= b'0') & (c <= b'9')) | (c == b'.') | (c == b'e') | (c == b'E') | (c == b'-') | (c == b'+'));
        *x = c;
    }
}
harness! {
    c01_doc { run::<Doc>(&bytes(param(0) as usize)) }
    c01_vec { run::<Vec<Option<i8>>>(&bytes(param(0) as usize)) }
    c01_map { run::<BTreeMap<String, Vec<()>>>(&bytes(param(0) as usize)) }
    c01_str {
        // a string body of arbitrary bytes
        let n = param(0) as usize;
        let mut b = vec![b'"'];
        b.extend(bytes(n));
        run::<String>(&b)
    }
    c01_num {
        let mut b = vec![0u8; param(0) as usize];
        numeric(&mut b);
        run::<f64>(&b)
    }
    c01_exp {
        // i.f e s dddddddddd : exponents over the whole 32-bit range and
        // beyond, after i integer and f fraction digits
        let (n, i, f) = (param(0) as usize, param(1), param(2));
        let mut b = Vec::new();
        let d = b'0' + choose(2) as u8;
        b.push(d);
        if i > 1 { assume(d != b'0'); }
        for _ in 1..i { b.push(b'7'); }
        if f > 0 { b.push(b'.'); }
        for _ in 0..f { b.push(d); }
        b.push(b'e');
        b.push(if boolean() { b'+' } else { b'-' });
        for i in 0..n {
            let d = digit();
            if i == 0 && n > 3 {
                assume(d != b'0');
            }
            b.push(d);
        }
        run::<f64>(&b)
    }
}
