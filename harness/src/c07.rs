//! C07: the JSON text written for a value is read by the reference reader as
//! exactly the value's structure.
use crate::all::oracle::{matches, Ev, Num, Reader, Verdict};
use crate::all::sym::*;
use crate::all::tree::*;
use deser::{Atom, Error, ErrorKind, Event, Serialize};
use deser_json::to_string;
use std::borrow::Cow;
use std::collections::BTreeMap;

fn read(text: &str) -> Vec<Ev> {
    let mut r = Reader::new(text.as_bytes());
    let v = r.document();
    check(v != Verdict::Invalid, "the output is not one well-formed JSON document");
    r.events
}
fn is(got: &[Ev], want: &[Event]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| matches(w, g))
}
fn written(r: Result<String, Error>, want: &[Event]) {
    match r {
        Ok(text) => {
            for &b in text.as_bytes() {
                out(b as u64);
            }
            check(is(&read(&text), want), "the output is not the structure of the value");
            reach(1);
        }
        Err(_) => check(false, "a value JSON can express was refused"),
    }
}
fn refused(r: Result<String, Error>) {
    match r {
        Ok(_) => check(false, "output for a value JSON cannot express"),
        Err(e) => check(e.kind() == ErrorKind::UnsupportedType, "wrong kind of error"),
    }
    reach(2);
}
/// Can JSON express it: are all keys strings?
fn fine(t: &Tree) -> bool {
    match &t.node {
        Node::Seq(v) => v.iter().all(fine),
        Node::Map(v) => v.iter().all(|(k, v)| matches!(k.node, Node::S(_)) && fine(v)),
        Node::Struct(v) => v.iter().all(|(_, v)| fine(v)),
        _ => true,
    }
}
/// A value serializing as a single atom.
struct One(Atom<'static>);
impl Serialize for One {
    fn serialize(&self, _: &deser::ser::SerializerState) -> Result<deser::ser::Chunk, Error> {
        Ok(deser::ser::Chunk::Atom(self.0.clone()))
    }
}
fn one(a: Atom<'static>) {
    let e = [Event::Atom(a.clone())];
    written(to_string(&One(a)), &e);
}
/// The number text of a u64 or i64: sign, digits, value.
fn number(v: u64, signed: bool) {
    let a = if signed { Atom::I64(v as i64) } else { Atom::U64(v) };
    let neg = signed && (v as i64) < 0;
    let mag = if neg { 0u64.wrapping_sub(v) } else { v };
    match to_string(&One(a)) {
        Ok(text) => {
            let b = text.as_bytes();
            for &x in b {
                out(x as u64);
            }
            let digits = if neg {
                check(b[0] == b'-', "a negative number without a sign");
                &b[1..]
            } else {
                b
            };
            let n = digits.len();
            check(n >= 1 && n <= 20, "number of digits");
            check((n == 1) | (digits[0] != b'0'), "leading zero");
            let mut sum = 0u128;
            let mut ok = true;
            for &d in digits {
                ok = ok & (d >= b'0') & (d <= b'9');
                sum = sum * 10 + (d & 15) as u128;
            }
            check(ok, "not a digit");
            check(sum == mag as u128, "the digits are not those of the number");
            reach(1);
        }
        Err(_) => check(false, "a number was refused"),
    }
}

harness! {
    // params: fuel, depth, kinds, leaves, keys
    c07_tree {
        let mut g = Gen::new(param(0), param(1));
        g.kinds = param(2);
        g.leaves = param(3);
        g.keys = param(4);
        g.small = true;
        let t = g.tree();
        let mut want = Vec::new();
        events(&t, &mut want);
        let want: Vec<Event> = want.into_iter().map(|x| x.0).collect();
        let r = to_string(&t);
        if fine(&t) { written(r, &want) } else { refused(r) }
    }
    // any u64 (0) or i64 (1) of at most this many bits, or that far around a bound (1: the
    // ends of the type, 2: the middle, 3: a power of ten); params: signed, bits, where
    c07_int {
        let bits = param(1) as u32;
        let d = u(bits);
        let v = match param(2) {
            0 => d,
            1 if param(0) == 1 => (1u64 << 63).wrapping_sub(d),
            1 => u64::MAX - d,
            2 => (1u64 << 63) - (1u64 << (bits - 1)) + d,
            _ => {
                let k = choose(15) + 5;
                10u64.pow(k as u32) - (1u64 << (bits - 1)) + d
            }
        };
        number(if param(0) == 1 && boolean() { 0u64.wrapping_sub(v) } else { v }, param(0) == 1)
    }
    // atoms of every kind, on their own and inside of containers
    c07_atoms {
        let a = match choose(9) {
            0 => Atom::Null,
            1 => Atom::Bool(boolean()),
            2 => Atom::Str(Cow::Owned(ascii(2))),
            3 => Atom::Char({ let c = byte(); assume((c >= 0x20) & (c < 0x7f)); c as char }),
            4 => Atom::U64(u(4)),
            5 => Atom::I64(u(4) as i64 - 8),
            6 => Atom::Bytes(Cow::Owned(bytes(choose(3) as usize))),
            7 => {
                // every infinity and NaN
                let bits = u(64);
                assume((bits >> 52) & 0x7ff == 0x7ff);
                Atom::F64(f64::from_bits(bits))
            }
            _ => {
                // some finite numbers; printing them is the job of the standard library
                let l = [0.0, -0.0, 1.5, -2.25, 1e21, -1e-7, 0.1, 5e-324, f64::MAX];
                Atom::F64(l[choose(9) as usize])
            }
        };
        let want = match a {
            Atom::Char(c) => Event::Atom(Atom::Str(Cow::Owned(c.to_string()))),
            Atom::F64(v) if !v.is_finite() => Event::Atom(Atom::Null),
            ref other => Event::Atom(other.clone()),
        };
        let bytes = matches!(a, Atom::Bytes(_));
        let float = match a { Atom::F64(v) if v.is_finite() => Some(v), _ => None };
        let key = matches!(a, Atom::Str(_) | Atom::Char(_));
        let deep = choose(4);
        let (r, w) = match deep {
            0 => (to_string(&One(a)), vec![want]),
            1 => (to_string(&vec![One(a), One(Atom::Null)]), vec![Event::SeqStart, want, Atom::Null.into(), Event::SeqEnd]),
            2 => {
                let mut m = BTreeMap::new();
                m.insert("k", One(a));
                (to_string(&m), vec![Event::MapStart, Event::from("k"), want, Event::MapEnd])
            }
            _ => {
                // as a key
                struct M(One);
                struct E<'a>(&'a One, bool);
                impl Serialize for M {
                    fn serialize(&self, _: &deser::ser::SerializerState) -> Result<deser::ser::Chunk, Error> {
                        Ok(deser::ser::Chunk::Map(Box::new(E(&self.0, false))))
                    }
                }
                impl<'a> deser::ser::MapEmitter for E<'a> {
                    fn next_key(&mut self, _: &deser::ser::SerializerState) -> Result<Option<deser::ser::SerializeHandle>, Error> {
                        if self.1 { return Ok(None) }
                        self.1 = true;
                        Ok(Some(deser::ser::SerializeHandle::to(self.0)))
                    }
                    fn next_value(&mut self, _: &deser::ser::SerializerState) -> Result<deser::ser::SerializeHandle, Error> {
                        Ok(deser::ser::SerializeHandle::boxed(true))
                    }
                }
                (to_string(&M(One(a))), vec![Event::MapStart, want, Event::from(true), Event::MapEnd])
            }
        };
        if bytes || (deep == 3 && !key) {
            refused(r)
        } else if let Some(v) = float {
            match r {
                Ok(text) => {
                    let mut text = &text[..];
                    check(read(text).len() == w.len(), "a float is not one number");
                    let number = |s: &str| { let mut r = Reader::new(s.as_bytes()); let n = r.number(); matches!(n, Ok(Num::Int { .. } | Num::Float { .. })) };
                    if deep == 1 { text = &text[1..text.len() - 6] }
                    if deep == 2 { text = &text[5..text.len() - 1] }
                    check(number(text), "a float is not written as a number");
                    check(text.parse::<f64>().map_or(false, |x| x.to_bits() == v.to_bits()), "a float is written as another number");
                    reach(3);
                }
                Err(_) => check(false, "a float was refused"),
            }
        } else {
            written(r, &w)
        }
    }
    // standard containers
    c07_std {
        let n = |v: u64| Event::from(v);
        match choose(12) {
            0 => { let v: Vec<Option<u16>> = vec![Some(7), None]; written(to_string(&v), &[Event::SeqStart, n(7), Atom::Null.into(), Event::SeqEnd]) }
            1 => written(to_string(&()), &[Atom::Null.into()]),
            2 => { let b = boolean(); written(to_string(&(b, "x", 'y')), &[Event::SeqStart, Event::from(b), Event::from("x"), Event::from("y"), Event::SeqEnd]) }
            3 => written(to_string(&[[1u16, 2], [3, 4]]), &[Event::SeqStart, Event::SeqStart, n(1), n(2), Event::SeqEnd, Event::SeqStart, n(3), n(4), Event::SeqEnd, Event::SeqEnd]),
            4 => { let mut m = BTreeMap::new(); m.insert('b', vec![1u16]); m.insert('a', vec![]);
                   written(to_string(&m), &[Event::MapStart, Event::from("a"), Event::SeqStart, Event::SeqEnd, Event::from("b"), Event::SeqStart, n(1), Event::SeqEnd, Event::MapEnd]) }
            5 => { let mut m = BTreeMap::new(); m.insert(1u16, true); refused(to_string(&m)) }
            6 => { let mut m = BTreeMap::new(); m.insert(vec!["k"], true); refused(to_string(&m)) }
            7 => refused(to_string(&vec![1u8, 2])),
            8 => refused(to_string(&[&b"x"[..]])),
            9 => { let m: BTreeMap<u8, u8> = BTreeMap::new(); written(to_string(&m), &[Event::MapStart, Event::MapEnd]) }
            10 => { let v: Vec<Vec<u16>> = vec![vec![], vec![]]; written(to_string(&v), &[Event::SeqStart, Event::SeqStart, Event::SeqEnd, Event::SeqStart, Event::SeqEnd, Event::SeqEnd]) }
            _ => { let mut m = BTreeMap::new(); m.insert(true, 1u16); refused(to_string(&vec![m])) }
        }
    }
    // chains of containers; params: depth
    c07_deep {
        let mut g = Gen::new(0, 0);
        let mut t = g.leaf();
        for i in 0..param(0) {
            let l = g.mk(Node::Bool(true));
            let node = match i % 3 {
                0 => Node::Seq(vec![t, l]),
                1 => { let (a, b) = (g.mk(Node::S(ascii(1))), g.mk(Node::S(String::new()))); Node::Map(vec![(a, t), (b, l)]) }
                _ => Node::Struct(vec![("x".into(), l), (ascii(1), t)]),
            };
            t = g.mk(node);
        }
        let mut want = Vec::new();
        events(&t, &mut want);
        let want: Vec<Event> = want.into_iter().map(|x| x.0).collect();
        written(to_string(&t), &want);
    }
}
