//! C08: every string is written as a literal the reference reader and the
//! parser read back as the same string.
use crate::all::oracle::Reader;
use crate::all::sym::*;
use deser_json::{from_str, to_string};
use std::collections::BTreeMap;

fn literal(text: &str, s: &str) {
    let mut r = Reader::new(text.as_bytes());
    match r.string() {
        Ok(b) => {
            check(r.at_end(), "text after the literal");
            check(same(&b, s.as_bytes()), "the literal spells another string");
        }
        Err(()) => check(false, "not a string literal"),
    }
    // what needs no escape is kept: without escapes the literal is the string
    let mut plain = true;
    for &b in s.as_bytes() {
        plain = plain & (b >= 0x20) & (b != b'"') & (b != b'\\');
    }
    if plain {
        check(text.len() == s.len() + 2, "a character that needs no escape was escaped");
    }
}
fn escaped(r: Result<String, deser::Error>, s: &str, n: usize) {
    match r {
        Ok(text) => {
            for &b in text.as_bytes() {
                out(b as u64);
            }
            literal(&text[n..text.len() - n - (n > 0) as usize * 4], s);
            reach(1);
        }
        Err(_) => check(false, "a string was refused"),
    }
}

harness! {
    // params: characters (any scalar value each)
    c08_str {
        let s = string(param(0));
        let text = to_string(&s);
        escaped(text, &s, 0);
    }
    // any characters below 0x80; params: characters
    c08_ascii {
        let mut v = Vec::new();
        for _ in 0..param(0) { let c = byte(); assume(c < 0x80); v.push(c) }
        let s = unsafe { String::from_utf8_unchecked(v) };
        escaped(to_string(&s), &s, 0);
    }
    c08_char {
        let c = character();
        let mut b = [0; 4];
        let s: &str = c.encode_utf8(&mut b);
        escaped(to_string(&c), s, 0);
    }
    // as a map key: {"...":[]}
    c08_key {
        let s = string(param(0));
        let mut m = BTreeMap::new();
        m.insert(&s[..], 1u64);
        match to_string(&m) {
            Ok(text) => {
                check(text.len() >= 6, "no map");
                let b = text.as_bytes();
                check(b[0] == b'{' && text.ends_with(":1}"), "the key is not a literal followed by its value");
                literal(&text[1..text.len() - 3], &s);
                reach(1);
            }
            Err(_) => check(false, "a string key was refused"),
        }
    }
    c08_charkey {
        let c = character();
        let mut b = [0; 4];
        let s: &str = c.encode_utf8(&mut b);
        let mut m = BTreeMap::new();
        m.insert(c, 1u64);
        match to_string(&m) {
            Ok(text) => {
                check(text.ends_with(":1}"), "the key is not a literal followed by its value");
                literal(&text[1..text.len() - 3], s);
                reach(1);
            }
            Err(_) => check(false, "a character key was refused"),
        }
    }
    // through the parser; params: characters
    c08_back {
        let s = string(param(0));
        match to_string(&s) {
            Ok(text) => match from_str::<String>(&text) {
                Ok(t) => { check(same(t.as_bytes(), s.as_bytes()), "read back as another string"); reach(1) }
                Err(_) => check(false, "not read back"),
            },
            Err(_) => check(false, "a string was refused"),
        }
    }
}
