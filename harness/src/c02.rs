//! C02: the parser accepts exactly the JSON grammar (RFC 8259).
use crate::all::common::*;
use crate::all::oracle::*;
use crate::all::sym::*;
use deser_json::Deserializer;

pub fn restricted(n: usize, alphabet: &[u8]) -> Vec<u8> {
    let mut b = vec![0u8; n];
    for x in b.iter_mut() {
        let c = byte();
        let mut ok = false;
        for &a in alphabet {
            ok |= c == a;
        }
        assume(ok);
        *x = c;
    }
    b
}
fn verdict(b: &[u8]) {
    let got = Deserializer::new(b).deserialize::<Doc>().is_ok();
    let want = Reader::new(b).document();
    out(got as u64);
    match want {
        Verdict::Valid => {
            reach(1);
            check(got, "valid JSON rejected")
        }
        Verdict::Invalid => {
            reach(2);
            check(!got, "invalid JSON accepted")
        }
        Verdict::Huge => reach(3),
    }
}
harness! {
    c02_doc { verdict(&bytes(param(0) as usize)) }
    c02_struct { verdict(&restricted(param(0) as usize, b"[]{},:\"1 ")) }
    c02_seq { verdict(&restricted(param(0) as usize, b"[],1\n")) }
    c02_map { verdict(&restricted(param(0) as usize, b"{}:,\"")) }
    c02_num { verdict(&restricted(param(0) as usize, b"0123456789+-.eE")) }
    c02_word {
        // literals with arbitrary bytes in and after them
        let n = param(0) as usize;
        let mut b = Vec::new();
        let w: &[u8] = match choose(3) { 0 => b"null", 1 => b"true", _ => b"false" };
        let cut = choose(6) as usize;
        assume(cut <= w.len());
        b.extend_from_slice(&w[..cut]);
        b.extend(bytes(n));
        verdict(&b)
    }
}
