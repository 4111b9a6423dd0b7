//! C06: a parsed document is delivered completely, in order and unchanged.
use crate::all::c02::restricted;
use crate::all::common::*;
use crate::all::oracle::*;
use crate::all::sym::*;
use deser_json::Deserializer;

fn structure(b: &[u8]) {
    let r = Deserializer::new(b).deserialize::<Doc>();
    let mut rd = Reader::new(b);
    if rd.document() == Verdict::Invalid {
        return;
    }
    let doc = match r {
        Ok(d) => d,
        Err(_) => {
            check(rd.huge, "valid document rejected");
            return;
        }
    };
    reach(1);
    out(doc.0.len() as u64);
    check(doc.0.len() == rd.events.len(), "number of events differs from the document");
    for (g, w) in doc.0.iter().zip(rd.events.iter()) {
        check(matches(g, w), "event differs from the document");
    }
}
fn ws(b: &mut Vec<u8>) {
    if boolean() {
        let c = byte();
        assume((c == b' ') | (c == b'\t') | (c == b'\n') | (c == b'\r'));
        b.push(c);
    }
}
fn gen(b: &mut Vec<u8>, want: &mut Vec<Ev>, fuel: &mut u64, depth: u64, spaces: bool) {
    if *fuel > 0 {
        *fuel -= 1;
    }
    let kinds = if depth == 0 || *fuel == 0 { 3 } else { 5 };
    match choose(kinds) {
        0 => {
            b.extend_from_slice(b"null");
            want.push(Ev::Null);
        }
        1 => {
            let d = digit();
            b.push(d);
            want.push(Ev::Int { neg: false, mag: (d - b'0') as u64 });
        }
        2 => {
            let c = byte();
            assume((c >= 0x20) & (c < 0x7f) & (c != b'"') & (c != b'\\'));
            b.extend_from_slice(&[b'"', c, b'"']);
            want.push(Ev::Str(vec![c]));
        }
        3 => {
            b.push(b'[');
            want.push(Ev::SeqStart);
            if spaces { ws(b); }
            let mut first = true;
            while *fuel > 0 && boolean() {
                if !first {
                    b.push(b',');
                    if spaces { ws(b); }
                }
                first = false;
                gen(b, want, fuel, depth - 1, spaces);
                if spaces { ws(b); }
            }
            b.push(b']');
            want.push(Ev::SeqEnd);
        }
        _ => {
            b.push(b'{');
            want.push(Ev::MapStart);
            if spaces { ws(b); }
            let mut first = true;
            while *fuel > 0 && boolean() {
                if !first {
                    b.push(b',');
                    if spaces { ws(b); }
                }
                first = false;
                let c = byte();
                assume((c >= b'a') & (c <= b'z'));
                b.extend_from_slice(&[b'"', c, b'"']);
                want.push(Ev::Str(vec![c]));
                if spaces { ws(b); }
                b.push(b':');
                if spaces { ws(b); }
                gen(b, want, fuel, depth - 1, spaces);
                if spaces { ws(b); }
            }
            b.push(b'}');
            want.push(Ev::MapEnd);
        }
    }
}
/// One character of a string, spelled out or escaped, up to `n`.
fn string(n: u64, b: &mut Vec<u8>) -> Ev {
    let mut want = Vec::new();
    b.push(b'"');
    for _ in 0..choose(n + 1) {
        match choose(3) {
            0 => {
                let c = byte();
                assume((c >= 0x20) & (c < 0x7f) & (c != b'"') & (c != b'\\'));
                b.push(c);
                want.push(c);
            }
            1 => {
                b.extend_from_slice(b"\\n");
                want.push(b'\n');
            }
            _ => {
                let d = digit();
                b.extend_from_slice(&[b'\\', b'u', b'0', b'0', b'3', d]);
                want.push(d);
            }
        }
    }
    b.push(b'"');
    Ev::Str(want)
}
harness! {
    // strings one after the other; params: longest, how many
    c06_strings {
        let (mut b, mut want) = (Vec::new(), Vec::new());
        let n = param(1);
        let map = boolean();
        b.push(if map { b'{' } else { b'[' });
        want.push(if map { Ev::MapStart } else { Ev::SeqStart });
        for i in 0..n {
            if i > 0 { b.push(if map && i % 2 == 1 { b':' } else { b',' }) }
            want.push(string(param(0), &mut b));
        }
        if map && n % 2 == 1 {
            b.extend_from_slice(b":1.5e3");
            want.push(Ev::Float { neg: false });
        }
        b.push(if map { b'}' } else { b']' });
        want.push(if map { Ev::MapEnd } else { Ev::SeqEnd });
        match Deserializer::new(&b).deserialize::<Doc>() {
            Err(_) => check(false, "valid document rejected"),
            Ok(doc) => {
                reach(1);
                check(doc.0.len() == want.len(), "number of events differs from the document");
                for (g, w) in doc.0.iter().zip(want.iter()) {
                    check(matches(g, w), "event differs from the document");
                }
            }
        }
    }
    c06_doc { structure(&bytes(param(0) as usize)) }
    c06_struct { structure(&restricted(param(0) as usize, b"[]{},:\"1 ")) }
    c06_gen {
        // documents generated from the grammar: nodes, depth, optional white space
        let mut fuel = param(0);
        let spaces = param(2) != 0;
        let (mut b, mut want) = (Vec::new(), Vec::new());
        if spaces { ws(&mut b); }
        gen(&mut b, &mut want, &mut fuel, param(1), spaces);
        if spaces { ws(&mut b); }
        match Deserializer::new(&b).deserialize::<Doc>() {
            Err(_) => check(false, "valid document rejected"),
            Ok(doc) => {
                reach(1);
                out(doc.0.len() as u64);
                check(doc.0.len() == want.len(), "number of events differs from the document");
                for (g, w) in doc.0.iter().zip(want.iter()) {
                    check(matches(g, w), "event differs from the document");
                }
            }
        }
    }
}
