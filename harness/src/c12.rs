//! C12 to C16: what every standard target type makes of every document, against
//! the statement in model.rs.
use crate::all::check_for;
use crate::all::model::*;
use crate::all::sym::*;
use crate::all::types::*;
use crate::each_type;
use deser::de::{Deserialize, DeserializeDriver};
use deser::{Atom, Event};
use std::collections::*;

/// Feeds a document; the value that came out, or nothing if it was refused.
pub fn read<T: Deserialize>(n: &N) -> Option<T> {
    read_over(n, None)
}
/// The same into a place that holds a value already.
pub fn read_over<T: Deserialize>(n: &N, mut out: Option<T>) -> Option<T> {
    let mut ev = Events::new();
    n.events(&mut ev);
    let mut ok = true;
    {
        let mut d = DeserializeDriver::new(&mut out);
        for e in ev {
            if d.emit(e).is_err() {
                ok = false;
                break;
            }
        }
    }
    if ok {
        sym_some(&out);
        out
    } else {
        None
    }
}
fn sym_some<T>(out: &Option<T>) {
    check(out.is_some(), "a document was accepted but left no value");
}
fn prop() -> u32 {
    crate::all::PROP
}
/// The document yields what the model says.
pub fn judge<T: Model>(n: &N) {
    let want = T::want(n);
    match (read::<T>(n), &want) {
        (None, None) => reach(2),
        (Some(a), Some(b)) => {
            check_for(prop(), a.same(b), "another value came out");
            reach(1)
        }
        (None, Some(_)) => check_for(prop(), false, "a value the type accepts was refused"),
        (Some(_), None) => check_for(prop(), false, "a value came out of a document the type does not accept"),
    }
}
fn kept(live0: u64) {
    check(live() == live0, "memory is not released");
}
pub fn near<T: Model>() {
    let live0 = live();
    {
        let mut g = Gen { wrongs: param(2), len: param(1) };
        let n = g.gen::<T>();
        judge::<T>(&n);
    }
    kept(live0);
}
fn number<T: Model>() {
    let n = match param(1) {
        0 => A(Atom::U64(u(64))),
        1 => A(Atom::I64(u(64) as i64)),
        _ => A(Atom::F64(f64::from_bits(u(64)))),
    };
    let n = match param(2) {
        0 => n,
        _ => return wrapped::<T>(n),
    };
    judge::<T>(&n)
}
/// The same as an element, a key and a value.
fn wrapped<T: Model>(n: N) {
    match param(2) {
        1 => judge::<Vec<Option<Box<T>>>>(&Seq(vec![n])),
        2 => judge::<(T, [T; 1])>(&Seq(vec![n.clone(), Seq(vec![n])])),
        _ => judge::<BTreeMap<(), T>>(&Map(vec![(A(Atom::Null), n)])),
    }
}
/// Two documents into the same place.
fn again<T: Model>() {
    let live0 = live();
    {
        let mut g = Gen { wrongs: 0, len: param(1) };
        let old = read::<T>(&g.gen::<T>());
        assume(old.is_some());
        let n = g.gen::<T>();
        let want = T::want(&n);
        match (read_over(&n, old), &want) {
            (None, None) => reach(2),
            (Some(a), Some(b)) => {
                check_for(prop(), a.same(b), "the value depends on what was there before");
                reach(1)
            }
            (None, Some(_)) => check_for(prop(), false, "a value the type accepts was refused"),
            (Some(_), None) => check_for(prop(), false, "a value came out of a document the type does not accept"),
        }
    }
    kept(live0);
}
fn option<T: Model>() {
    let mut g = Gen { wrongs: param(2), len: param(1) };
    let n = g.gen::<T>();
    let mut ev = Events::new();
    n.events(&mut ev);
    let null = matches!(n, A(Atom::Null));
    // step by step: the optional type reacts exactly as the inner type
    let (mut a, mut b): (Option<Option<T>>, Option<T>) = (None, None);
    let mut ok = true;
    {
        let mut da = DeserializeDriver::new(&mut a);
        let mut db = DeserializeDriver::new(&mut b);
        for e in ev {
            let r = da.emit(e.clone());
            if null {
                check_for(15, r.is_ok(), "null was refused by an optional type");
                continue;
            }
            let s = db.emit(e);
            check_for(15, r.is_ok() == s.is_ok(), "an optional type reacts differently from its inner type");
            if let (Err(r), Err(s)) = (&r, &s) {
                check_for(15, r.kind() == s.kind(), "an optional type gives another error than its inner type");
            }
            ok = r.is_ok();
            if !ok {
                break;
            }
        }
    }
    if null {
        check_for(15, matches!(a, Some(None)), "null did not become absent");
        reach(3)
    } else if ok {
        match (a, b) {
            (Some(Some(a)), Some(b)) => check_for(15, a.same(&b), "an optional type gives another value"),
            _ => check_for(15, false, "an optional type lost the value"),
        }
        reach(1)
    } else {
        reach(2)
    }
}
harness! {
    // params: target, kind of source event, position
    #[cfg(feature = "c12")]
    m_num {
        each_type! { number:
            0 u8; 1 u16; 2 u32; 3 u64; 4 usize; 5 i8; 6 i16; 7 i32; 8 i64; 9 isize; 10 f32; 11 f64;
        }
    }
    // params: type, longest container, places off the shape
    #[cfg(feature = "c13")]
    m_kind {
        each_type! { near:
            0 bool; 1 (); 2 u8; 3 u16; 4 u32; 5 u64; 6 usize; 7 i8; 8 i16; 9 i32; 10 i64; 11 isize; 12 f32; 13 f64; 14 char; 15 String;
            16 Vec<bool>; 17 Vec<u8>; 18 Vec<Vec<()>>; 19 BTreeMap<u8, bool>; 20 BTreeMap<String, Vec<char>>; 21 HashMap<bool, (), PlainState>;
            22 BTreeSet<bool>; 23 HashSet<u8, PlainState>; 24 Box<bool>; 25 Box<Vec<Box<u8>>>; 26 (bool,); 27 (u8, String); 28 [bool; 2]; 29 [u8; 2];
            30 [(); 0]; 31 Option<bool>; 32 Option<Vec<u8>>; 33 Vec<Option<char>>; 34 Option<BTreeMap<char, f64>>; 35 [[u8; 1]; 1]; 36 Vec<(bool, Vec<u8>)>;
            37 BTreeMap<(bool, u8), [char; 1]>; 38 Option<Box<[Option<bool>; 1]>>;
        }
    }
    // params: type, longest container, places off the shape
    #[cfg(feature = "c14")]
    m_fixed {
        each_type! { near:
            0 [String; 0]; 1 [String; 1]; 2 [Box<u8>; 2]; 3 [String; 3]; 4 [Vec<Box<u8>>; 2]; 5 [[String; 1]; 2]; 6 [u8; 0]; 7 [u8; 1]; 8 [u8; 3];
            9 [Option<Box<bool>>; 2]; 10 [Box<[Box<bool>; 2]>; 2]; 11 [(); 3]; 12 [[(); 0]; 2];
            20 (Box<bool>,); 21 (String, Box<u8>); 22 (Box<bool>, Vec<Box<bool>>, String); 23 ((Box<bool>, bool), [Box<bool>; 2]);
            24 (u8, bool, u8, bool); 25 (bool, bool, bool, bool, Box<bool>); 26 (u8, u8, u8, u8, u8, u8); 27 ((), (), (), (), (), (), ());
            28 (u8, u8, u8, u8, u8, u8, u8, u8); 29 (u8, u8, u8, u8, u8, u8, u8, u8, u8); 30 (bool, u8, bool, u8, bool, u8, bool, u8, bool, u8);
            31 (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8); 32 (u8, u16, i8, i16, (), bool, char, u32, i32, u64, i64, f64);
            33 Vec<[Box<u8>; 2]>; 34 BTreeMap<[bool; 2], (Box<bool>,)>; 35 Option<[String; 2]>; 36 Option<(Box<bool>, u8)>; 37 [[u8; 2]; 2]; 38 Vec<(u8, u8)>;
        }
    }
    // params: inner type, longest container, places off the shape
    #[cfg(feature = "c15")]
    m_option {
        each_type! { option:
            0 bool; 1 u8; 2 f32; 3 char; 4 String; 5 Vec<u8>; 6 Vec<Vec<bool>>; 7 BTreeMap<u8, bool>; 8 HashMap<bool, u8, PlainState>; 9 BTreeSet<u8>;
            10 HashSet<bool, PlainState>; 11 (bool, u8); 12 [u8; 2]; 13 [bool; 0]; 14 Box<u8>; 15 Box<Vec<String>>; 16 [Box<String>; 2]; 17 Vec<Option<u8>>;
            18 BTreeMap<String, Option<Vec<u8>>>; 19 (Option<bool>, Option<[u8; 1]>); 20 Box<Box<[bool; 1]>>; 21 i64; 22 Vec<()>; 23 BTreeMap<(), ()>;
        }
    }
    // a place that held a value before; params: type, longest container
    #[cfg(feature = "c15")]
    m_again {
        each_type! { again:
            0 Option<bool>; 1 Option<u8>; 2 Option<String>; 3 Option<Vec<u8>>; 4 Option<Box<u8>>; 5 Box<Option<u8>>; 6 Option<(bool, u8)>; 7 Option<[u8; 1]>; 8 Option<BTreeMap<u8, bool>>;
            9 Vec<Option<bool>>; 10 (Option<bool>, Option<u8>); 11 [Option<bool>; 2]; 12 BTreeMap<bool, Option<bool>>; 13 Option<f64>; 14 Option<char>; 15 Option<BTreeSet<bool>>;
        }
    }
    // params: type, longest container, places off the shape
    #[cfg(feature = "c16")]
    m_collect {
        each_type! { near:
            0 BTreeMap<u8, bool>; 1 BTreeMap<bool, u8>; 2 BTreeMap<String, u8>; 3 BTreeMap<i16, String>; 4 BTreeMap<char, bool>; 5 BTreeMap<(bool, bool), u8>;
            6 BTreeMap<u8, Vec<bool>>; 7 BTreeMap<bool, BTreeMap<bool, bool>>; 8 BTreeMap<Option<bool>, u8>; 9 BTreeMap<Vec<bool>, bool>;
            10 HashMap<u8, bool, PlainState>; 11 HashMap<bool, String, PlainState>; 12 HashMap<(bool, bool), u8, PlainState>; 13 HashMap<Option<bool>, Vec<u8>, PlainState>;
            14 BTreeSet<u8>; 15 BTreeSet<String>; 16 BTreeSet<(bool, bool)>; 17 BTreeSet<Option<bool>>; 18 HashSet<u8, PlainState>; 19 HashSet<bool, PlainState>;
            20 HashSet<Option<bool>, PlainState>; 21 Vec<u16>; 22 Vec<String>; 23 Vec<Vec<u8>>; 24 Vec<(u8, bool)>; 25 Vec<()>; 26 Vec<BTreeMap<bool, bool>>; 27 BTreeMap<u64, u64>;
            28 Vec<Option<bool>>; 29 Vec<BTreeSet<bool>>;
        }
    }
}
