//! C30: conversions of events and scalars.
use crate::all::sym::*;
use deser::{Atom, Error, ErrorKind, Event};
use std::borrow::Cow;

/// A scalar by kind; strings and byte strings borrow from `s`.
fn scalar<'a>(kind: u64, s: &'a str, owned: bool, v: u64) -> Atom<'a> {
    match kind {
        0 => Atom::Null,
        1 => Atom::Bool(v & 1 == 1),
        2 => Atom::Str(if owned { Cow::Owned(s.to_string()) } else { Cow::Borrowed(s) }),
        3 => Atom::Bytes(if owned { Cow::Owned(s.as_bytes().to_vec()) } else { Cow::Borrowed(s.as_bytes()) }),
        4 => {
            let c = (v & 0x1fffff) as u32;
            assume(c < 0xd800 || (c > 0xdfff && c <= 0x10ffff));
            Atom::Char(unsafe { char::from_u32_unchecked(c) })
        }
        5 => Atom::U64(v),
        6 => Atom::I64(v as i64),
        _ => Atom::F64(f64::from_bits(v)),
    }
}
/// Kind and content, bit by bit.
fn is(a: &Atom, kind: u64, s: &[u8], v: u64) -> bool {
    match a {
        Atom::Null => kind == 0,
        Atom::Bool(x) => kind == 1 && *x as u64 == v & 1,
        Atom::Str(x) => kind == 2 && same(x.as_bytes(), s),
        Atom::Bytes(x) => kind == 3 && same(x, s),
        Atom::Char(x) => kind == 4 && *x as u64 == v & 0x1fffff,
        Atom::U64(x) => kind == 5 && *x == v,
        Atom::I64(x) => kind == 6 && *x == v as i64,
        Atom::F64(x) => kind == 7 && x.to_bits() == v,
        _ => false,
    }
}
const NAMES: [&str; 8] = ["null", "bool", "string", "bytes", "char", "unsigned integer", "signed integer", "float"];
fn atom_of<'a, 'b>(e: &'b Event<'a>) -> &'b Atom<'a> {
    match e {
        Event::Atom(a) => a,
        _ => {
            check(false, "a scalar became a container");
            unreachable!()
        }
    }
}
fn borrowed(a: &Atom) -> bool {
    matches!(a, Atom::Str(Cow::Borrowed(_)) | Atom::Bytes(Cow::Borrowed(_)))
}

harness! {
    // params: characters
    conv_atom {
        let live0 = live();
        {
            let s = string(param(0));
            let keep = s.clone();
            let (k, v) = (choose(8), u(64));
            let stat: (Atom<'static>, Event<'static>, Atom<'static>) = {
                let a = scalar(k, &s, boolean(), v);
                check(is(&a, k, s.as_bytes(), v), "the scalar is not itself");
                check(same(a.name().as_bytes(), NAMES[k as usize].as_bytes()), "a wrong name for a kind");
                let e: Event = a.clone().into();
                check(is(atom_of(&e), k, s.as_bytes(), v), "a scalar became another event");
                let c = e.clone();
                check(is(atom_of(&c), k, s.as_bytes(), v), "a copy is another event");
                (a.to_static(), e.to_static(), a.clone().to_static())
            };
            // the original is gone
            let mut s = s.into_bytes();
            s.iter_mut().for_each(|b| *b = b'?');
            drop(s);
            check(!borrowed(&stat.0) && !borrowed(atom_of(&stat.1)), "independent data is still borrowed");
            check(is(&stat.0, k, keep.as_bytes(), v), "an independent copy has another value");
            check(is(atom_of(&stat.1), k, keep.as_bytes(), v), "an independent event has another value");
            check(is(&stat.2, k, keep.as_bytes(), v), "an independent copy has another value");
            reach(1);
        }
        check(live() == live0, "memory is not released");
    }
    // params: characters
    conv_eq {
        let (s, t) = (string(param(0)), string(param(0)));
        let (k, v, l, w) = (choose(8), u(64), choose(8), u(64));
        let (a, b) = (scalar(k, &s, boolean(), v), scalar(l, &t, boolean(), w));
        let want = k == l && match k {
            0 => true,
            1 => v & 1 == w & 1,
            2 | 3 => s.len() == t.len() && same(s.as_bytes(), t.as_bytes()),
            4 => v & 0x1fffff == w & 0x1fffff,
            5 | 6 => v == w,
            _ => f64::from_bits(v) == f64::from_bits(w),
        };
        check((a == b) == want, "comparison of scalars disagrees with kind and value");
        check((Event::Atom(a.clone()) == Event::Atom(b.clone())) == want, "comparison of events disagrees with kind and value");
        if want { reach(1) } else { reach(2) }
    }
    conv_marks {
        let m = [Event::MapStart, Event::MapEnd, Event::SeqStart, Event::SeqEnd];
        let (i, j) = (choose(4) as usize, choose(5) as usize);
        if j == 4 {
            let a = Event::Atom(scalar(choose(8), "x", false, u(64)));
            check(m[i] != a, "a mark equals a scalar");
        } else {
            check((m[i] == m[j]) == (i == j), "marks are confused");
        }
        let t = m[i].to_static();
        check(t == m[i] && matches!((&t, i), (Event::MapStart, 0) | (Event::MapEnd, 1) | (Event::SeqStart, 2) | (Event::SeqEnd, 3)), "a mark changed");
        check(m[i].clone() == m[i], "a copy of a mark changed");
        reach(1);
    }
    // params: characters
    conv_from {
        let s = string(param(0));
        let v = u(64);
        let (e, k): (Event, u64) = match choose(16) {
            0 => (v.into(), 5),
            1 => ((v as i64).into(), 6),
            2 => (f64::from_bits(v).into(), 7),
            3 => ((v as usize).into(), 5),
            4 => ((v as isize).into(), 6),
            5 => ((v & 1 == 1).into(), 1),
            6 => {
                let c = (v & 0x1fffff) as u32;
                assume(c < 0xd800 || (c > 0xdfff && c <= 0x10ffff));
                (unsafe { char::from_u32_unchecked(c) }.into(), 4)
            }
            7 => (().into(), 0),
            8 => ((&s[..]).into(), 2),
            9 => (Cow::Borrowed(&s[..]).into(), 2),
            10 => (Cow::<str>::Owned(s.clone()).into(), 2),
            11 => (s.as_bytes().into(), 3),
            12 => (s.clone().into(), 2),
            n => {
                let k = (n - 13) * 2 + 2;
                (scalar(k, &s, false, v).into(), k)
            }
        };
        check(is(atom_of(&e), k, s.as_bytes(), v), "a conversion changed kind or value");
        reach(1);
    }
    conv_error {
        let k = choose(8);
        let e: Error = scalar(k, "x", false, u(64)).unexpected_error("thing");
        check(e.kind() == ErrorKind::Unexpected, "another kind of error");
        let text = e.to_string();
        check(text.contains(NAMES[k as usize]) && text.contains("thing"), "the error does not name the kind");
        reach(1);
    }
}
