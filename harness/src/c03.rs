//! C03: JSON strings decode to exactly the text they denote.
use crate::all::oracle::*;
use crate::all::sym::*;
use deser_json::Deserializer;

fn decode(b: &[u8]) {
    let got = Deserializer::new(b).deserialize::<String>();
    let mut rd = Reader::new(b);
    let want = rd.document();
    match got {
        Ok(s) => {
            out_bytes(s.as_bytes());
            check(utf8(s.as_bytes()), "decoded string is not valid UTF-8");
            check(want == Verdict::Valid && rd.events.len() == 1, "invalid string accepted");
            if let Some(Ev::Str(w)) = rd.events.first() {
                reach(1);
                check(same(s.as_bytes(), w), "string decoded to different text");
            } else {
                check(false, "not a string");
            }
        }
        Err(_) => {
            out(999);
            let is_str = rd.events.len() == 1 && matches!(rd.events[0], Ev::Str(_));
            reach(2);
            check(!(want == Verdict::Valid && is_str), "valid string rejected");
        }
    }
}
fn quoted(body: &[u8]) {
    let mut b = vec![b'"'];
    b.extend_from_slice(body);
    b.push(b'"');
    decode(&b)
}
harness! {
    c03_body { quoted(&bytes(param(0) as usize)) }
    c03_u {
        // \u followed by four arbitrary bytes, with text around it
        let mut b = Vec::new();
        let around = boolean();
        if around { b.push(b'x'); }
        b.extend_from_slice(b"\\u");
        b.extend(bytes(4));
        if around { b.push(b'y'); }
        quoted(&b)
    }
    c03_pair {
        // a high surrogate followed by arbitrary bytes
        let mut b = b"\\uD8".to_vec();
        match choose(3) {
            0 => b.extend_from_slice(b"00"),
            1 => { b[3] = b'9'; b.extend_from_slice(b"3d") }
            _ => { b[2] = b'd'; b[3] = b'b'; b.extend_from_slice(b"FF") }
        }
        b.extend(bytes(param(0) as usize));
        quoted(&b)
    }
    c03_pairhi {
        // all high surrogates before a fixed low one
        let mut b = b"\\u".to_vec();
        b.extend(bytes(4));
        b.extend_from_slice(if boolean() { b"\\uDE00" } else { b"\\udc0F" });
        quoted(&b)
    }
    c03_mixed {
        // escapes between plain text: every byte after a backslash, twice
        let mut b = Vec::new();
        for _ in 0..param(0) {
            if boolean() { b.push(b'a'); }
            b.push(b'\\');
            b.push(byte());
        }
        if boolean() { b.extend_from_slice("é".as_bytes()); }
        quoted(&b)
    }
    c03_long {
        // a long literal with one arbitrary byte anywhere
        let n = param(0) as usize;
        let mut b = vec![b'a'; n];
        let at = choose(n as u64) as usize;
        b[at] = byte();
        quoted(&b)
    }
}
