//! Typed values: symbolic values of many types, the events they stand for and
//! exact comparison.
use crate::all::sym::*;
use deser::de::Deserialize;

use deser::{Atom, Event};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};

pub type Events = Vec<Event<'static>>;
pub trait Val: Deserialize {
    fn arb() -> Self;
    fn ev(&self, out: &mut Events);
    fn same(&self, o: &Self) -> bool;
}
/// A hasher without secrets.
#[derive(Default, Clone)]
pub struct Plain(u64);
impl Hasher for Plain {
    fn finish(&self) -> u64 {
        concrete(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64 & 1);
        }
    }
}
pub type PlainState = BuildHasherDefault<Plain>;

/// Decimal text of wide numbers is expensive to reason about: with JSON,
/// integers wider than this are taken from windows at both ends of the range.
const WIDE: u32 = if cfg!(feature = "json") { 16 } else { 64 };

macro_rules! int {
    ($($t:ident $atom:ident $as:ident;)*) => {$(
        impl Val for $t {
            fn arb() -> Self {
                if $t::BITS <= WIDE {
                    return u($t::BITS) as $t;
                }
                match choose(4) {
                    0 => u(8) as $t,
                    1 => $t::MAX - u(3) as $t,
                    2 => $t::MIN + u(3) as $t,
                    _ => ((1u64 << ($t::BITS - 8)) as $t).wrapping_add(u(2) as $t),
                }
            }
            fn ev(&self, out: &mut Events) { out.push(Event::Atom(Atom::$atom(*self as $as))) }
            fn same(&self, o: &Self) -> bool { self == o }
        }
    )*};
}
int! { u8 U64 u64; u16 U64 u64; u32 U64 u64; u64 U64 u64; usize U64 u64; i8 I64 i64; i16 I64 i64; i32 I64 i64; i64 I64 i64; isize I64 i64; }
impl Val for bool {
    fn arb() -> Self { boolean() }
    fn ev(&self, out: &mut Events) { out.push(Event::Atom(Atom::Bool(*self))) }
    fn same(&self, o: &Self) -> bool { self == o }
}
impl Val for () {
    fn arb() -> Self {}
    fn ev(&self, out: &mut Events) { out.push(Event::Atom(Atom::Null)) }
    fn same(&self, _: &Self) -> bool { true }
}
impl Val for f64 {
    fn arb() -> Self { f64::from_bits(u(64)) }
    fn ev(&self, out: &mut Events) { out.push(Event::Atom(Atom::F64(*self))) }
    fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() }
}
impl Val for f32 {
    fn arb() -> Self {
        let v = f32::from_bits(u(32) as u32);
        // the payload of a NaN is not preserved by conversions
        assume(!v.is_nan());
        v
    }
    fn ev(&self, out: &mut Events) { out.push(Event::Atom(Atom::F64(*self as f64))) }
    fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() }
}
pub fn arb_char() -> char {
    let c = u(21) as u32;
    assume(c < 0xd800 || (c > 0xdfff && c <= 0x10ffff));
    unsafe { char::from_u32_unchecked(c) }
}
impl Val for char {
    fn arb() -> Self { arb_char() }
    fn ev(&self, out: &mut Events) { out.push(Event::Atom(Atom::Char(*self))) }
    fn same(&self, o: &Self) -> bool { self == o }
}
impl Val for String {
    fn arb() -> Self {
        let mut s = String::new();
        for _ in 0..choose(len().min(2) + 1) {
            s.push(arb_char());
        }
        s
    }
    fn ev(&self, out: &mut Events) { out.push(Event::Atom(Atom::Str(Cow::Owned(self.clone())))) }
    fn same(&self, o: &Self) -> bool { same(self.as_bytes(), o.as_bytes()) }
}
/// Largest container that is generated.
fn len() -> u64 {
    param(1)
}
/// A list of bytes is one atom.
fn blob<T: Val>(v: &[T], out: &mut Events) -> bool {
    if std::any::type_name::<T>() != "u8" {
        return false;
    }
    let b: &[u8] = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len()) };
    out.push(Event::Atom(Atom::Bytes(Cow::Owned(b.to_vec()))));
    true
}
fn items<'a, T: Val + 'a>(i: impl Iterator<Item = &'a T>, out: &mut Events) {
    out.push(Event::SeqStart);
    for x in i {
        x.ev(out);
    }
    out.push(Event::SeqEnd);
}
fn all_same<'a, T: Val + 'a>(mut a: impl Iterator<Item = &'a T>, mut b: impl Iterator<Item = &'a T>) -> bool {
    loop {
        match (a.next(), b.next()) {
            (None, None) => return true,
            (Some(a), Some(b)) if a.same(b) => {}
            _ => return false,
        }
    }
}
impl<T: Val> Val for Vec<T> {
    fn arb() -> Self { (0..choose(len() + 1)).map(|_| T::arb()).collect() }
    fn ev(&self, out: &mut Events) {
        if !blob(self, out) {
            items(self.iter(), out)
        }
    }
    fn same(&self, o: &Self) -> bool { all_same(self.iter(), o.iter()) }
}
impl<T: Val, const N: usize> Val for [T; N] {
    fn arb() -> Self { std::array::from_fn(|_| T::arb()) }
    fn ev(&self, out: &mut Events) {
        if !blob(self, out) {
            items(self.iter(), out)
        }
    }
    fn same(&self, o: &Self) -> bool { all_same(self.iter(), o.iter()) }
}
impl<T: Val> Val for Option<T> {
    fn arb() -> Self { if boolean() { Some(T::arb()) } else { None } }
    fn ev(&self, out: &mut Events) {
        match self {
            Some(x) => x.ev(out),
            None => out.push(Event::Atom(Atom::Null)),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<T: Val> Val for Box<T> {
    fn arb() -> Self { Box::new(T::arb()) }
    fn ev(&self, out: &mut Events) { (**self).ev(out) }
    fn same(&self, o: &Self) -> bool { (**self).same(o) }
}
fn pairs<'a, K: Val + 'a, V: Val + 'a>(i: impl Iterator<Item = (&'a K, &'a V)>, out: &mut Events) {
    out.push(Event::MapStart);
    for (k, v) in i {
        k.ev(out);
        v.ev(out);
    }
    out.push(Event::MapEnd);
}
impl<K: Val + Ord, V: Val> Val for BTreeMap<K, V> {
    fn arb() -> Self { (0..choose(len() + 1)).map(|_| (K::arb(), V::arb())).collect() }
    fn ev(&self, out: &mut Events) { pairs(self.iter(), out) }
    fn same(&self, o: &Self) -> bool { all_same(self.keys(), o.keys()) && all_same(self.values(), o.values()) }
}
impl<T: Val + Ord> Val for BTreeSet<T> {
    fn arb() -> Self { (0..choose(len() + 1)).map(|_| T::arb()).collect() }
    fn ev(&self, out: &mut Events) { items(self.iter(), out) }
    fn same(&self, o: &Self) -> bool { all_same(self.iter(), o.iter()) }
}
impl<K: Val + Hash + Eq, V: Val> Val for HashMap<K, V, PlainState> {
    fn arb() -> Self { (0..choose(len() + 1)).map(|_| (K::arb(), V::arb())).collect() }
    fn ev(&self, out: &mut Events) { pairs(self.iter(), out) }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map_or(false, |x| x.same(v))) }
}
impl<T: Val + Hash + Eq> Val for HashSet<T, PlainState> {
    fn arb() -> Self { (0..choose(len() + 1)).map(|_| T::arb()).collect() }
    fn ev(&self, out: &mut Events) { items(self.iter(), out) }
    fn same(&self, o: &Self) -> bool { self == o }
}
impl Val for HashSet<u16> {
    fn arb() -> Self { [7u16, 9].iter().take(choose(3) as usize).copied().collect() }
    fn ev(&self, out: &mut Events) { items(self.iter(), out) }
    fn same(&self, o: &Self) -> bool { self == o }
}
macro_rules! tuple {
    ($($n:ident $i:tt)*) => {
        impl<$($n: Val),*> Val for ($($n,)*) {
            fn arb() -> Self { ($($n::arb(),)*) }
            fn ev(&self, out: &mut Events) {
                out.push(Event::SeqStart);
                $(self.$i.ev(out);)*
                out.push(Event::SeqEnd);
            }
            fn same(&self, o: &Self) -> bool { true $(&& self.$i.same(&o.$i))* }
        }
    };
}
tuple!(A 0);
tuple!(A 0 B 1);
tuple!(A 0 B 1 C 2);
tuple!(A 0 B 1 C 2 D 3);
tuple!(A 0 B 1 C 2 D 3 E 4);
tuple!(A 0 B 1 C 2 D 3 E 4 F 5);
tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6);
tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7);
tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8);
tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9);
tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10);
tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11);


/// Calls the generic function with the type selected by parameter 0.
#[macro_export]
macro_rules! each_type {
    ($f:ident: $($n:literal $t:ty;)*) => {
        match param(0) { $($n => $f::<$t>(),)* _ => panic!("no such type") }
    };
}
/// Types whose every value the event stream can express (JSON cannot express
/// bytes and keys that are not text).
#[macro_export]
macro_rules! std_types {
    ($f:ident) => {{
        use std::collections::*;
        use $crate::all::types::PlainState;
        $crate::each_type! { $f:
            0 bool; 1 (); 2 u8; 3 u16; 4 u32; 5 u64; 6 usize; 7 i8; 8 i16; 9 i32; 10 i64; 11 isize; 12 f32; 13 f64; 14 char; 15 String;
            16 Vec<u8>; 17 [u8; 3]; 18 Vec<()>; 19 Vec<u16>; 20 Vec<String>; 21 Vec<Vec<bool>>; 22 Vec<Option<i8>>;
            23 [bool; 0]; 24 [u16; 1]; 25 [String; 2]; 26 [Option<u32>; 3]; 27 [[u8; 2]; 2];
            28 (u16,); 29 (bool, String); 30 (u8, (), i64); 31 (String, Vec<u8>, Option<bool>, char);
            32 Option<bool>; 33 Option<String>; 34 Option<Vec<Option<u8>>>; 35 Option<(u8, bool)>; 36 Box<u64>; 37 Box<Vec<Box<bool>>>; 38 Option<Box<i16>>;
            39 BTreeMap<u8, bool>; 40 BTreeMap<String, Vec<u8>>; 41 BTreeMap<(u8, bool), Option<u8>>; 42 BTreeMap<char, BTreeMap<bool, u16>>;
            43 BTreeSet<u8>; 44 BTreeSet<String>; 45 BTreeSet<(bool, bool)>; 46 HashMap<u8, bool, PlainState>; 47 HashMap<String, u16, PlainState>;
            48 HashSet<u16>; 49 Vec<BTreeMap<bool, [Option<u8>; 1]>>; 50 Vec<f64>; 51 Option<[f32; 2]>; 52 Vec<[(); 2]>; 53 BTreeMap<(), ()>;
            54 (bool, bool, bool, bool, bool); 55 (u8, u8, u8, u8, u8, u8); 56 (u8, u8, u8, u8, u8, u8, u8); 57 (u8, u8, u8, u8, u8, u8, u8, u8);
            58 (u8, u8, u8, u8, u8, u8, u8, u8, u8); 59 (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8); 60 (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
            61 (u8, u16, i8, i16, (), bool, char, u32, i32, u64, i64, f64); 62 [Box<bool>; 3]; 63 Vec<(u8, Vec<u8>)>; 64 Vec<Option<Box<[Option<u8>; 2]>>>;
        }
    }};
}


