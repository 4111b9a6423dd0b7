//! Derived types with an independent statement of what they read and write.
use crate::all::model::*;
use crate::all::sym::*;
use crate::all::types::*;
use deser::{Atom, Deserialize, Event, Serialize};
use std::borrow::Cow;

/// Members that can share a map.
pub trait Flat: Model {
    /// Is this one of the names read by the member?
    fn owns(key: &str) -> bool;
    /// A key of the member and a value for it.
    fn entry(g: &mut Gen) -> (N, N);
    /// The value its entries denote.
    fn collect(v: Vec<(N, N)>) -> Option<Self> {
        Self::want(&Map(v))
    }
    /// Names and values written, `all_skip` = absent optionals are left out.
    fn write(&self, all_skip: bool, out: &mut Events);
}
pub fn key_of(n: &N) -> Option<&str> {
    match n {
        A(Atom::Str(s)) => Some(s),
        _ => None,
    }
}
pub fn eq(a: &str, b: &str) -> bool {
    a.len() == b.len() && same(a.as_bytes(), b.as_bytes())
}
pub fn name(s: &'static str) -> N {
    A(Atom::Str(Cow::Borrowed(s)))
}
/// The entries of a map with text keys.
pub fn pairs(n: &N) -> Option<Vec<(&str, &N)>> {
    match n {
        Map(v) => v.iter().map(|(k, v)| Some((key_of(k)?, v))).collect(),
        _ => None,
    }
}
/// Is an absent optional (or nothing at all) written?
pub trait Absent {
    fn absent(&self) -> bool {
        false
    }
}
impl<T> Absent for Option<T> {
    fn absent(&self) -> bool {
        self.is_none()
    }
}
impl Absent for () {
    fn absent(&self) -> bool {
        true
    }
}
impl<T: Absent> Absent for Box<T> {
    fn absent(&self) -> bool {
        (**self).absent()
    }
}
macro_rules! present {
    ($($t:ty),*) => { $( impl Absent for $t {} )* };
}
present!(u8, u16, bool, String, char);
impl<T> Absent for Vec<T> {}

/// A key nobody knows: any text of up to two characters is possible.
pub fn stray(g: &mut Gen) -> (N, N) {
    let k = text(choose(3));
    let _ = g;
    (k, match choose(4) {
        0 => A(Atom::Null),
        1 => Seq(vec![A(Atom::U64(u(64))), Map(vec![])]),
        2 => Map(vec![(A(Atom::Bool(true)), Seq(vec![A(Atom::Null)]))]),
        _ => any(),
    })
}
/// Some entries in any order, mostly about the right keys.
pub fn record<T: Flat>(g: &mut Gen) -> N {
    let mut v = Vec::new();
    for _ in 0..g.count() {
        if g.wrong() {
            if boolean() {
                v.push(stray(g));
            } else {
                let e = T::entry(g);
                v.push((any(), e.1));
            }
        } else {
            v.push(T::entry(g));
        }
    }
    Map(v)
}

/// `skip` (of the container), then the fields: name, type, names read (the first
/// is written), value when missing, condition for leaving it out; `flat` fields.
macro_rules! fields {
    ($t:ident, skip $all:literal; $($f:ident: $ft:ty, [$($n:literal)*], $missing:expr, $cond:expr;)* => $($g:ident: $gt:ty, $gcond:expr;)*
        $(+ $($h:ident: $ht:ty, [$($hn:literal)*], $hmissing:expr, $hcond:expr;)*)?) => {
        impl Val for $t {
            fn arb() -> Self { $t { $($f: <$ft>::arb(),)* $($g: <$gt>::arb(),)* $($($h: <$ht>::arb(),)*)? } }
            fn ev(&self, out: &mut Events) {
                out.push(Event::MapStart);
                self.write(false, out);
                out.push(Event::MapEnd);
            }
            #[allow(unused)]
            fn same(&self, o: &Self) -> bool { true $(&& self.$f.same(&o.$f))* $(&& self.$g.same(&o.$g))* $($(&& self.$h.same(&o.$h))*)? }
        }
        impl Absent for $t {}
        impl Model for $t {
            fn near(g: &mut Gen) -> N { record::<$t>(g) }
            #[allow(unused)]
            fn want(n: &N) -> Option<Self> {
                let p = pairs(n)?;
                $(let mut $f: Option<$ft> = $missing;)*
                $(let mut $g: Vec<(N, N)> = Vec::new();)*
                $($(let mut $h: Option<$ht> = $hmissing;)*)?
                for (k, v) in p {
                    $( if $(eq(k, $n) ||)* false { $f = Some(<$ft>::want(v)?); continue; } )*
                    $($( if $(eq(k, $hn) ||)* false { $h = Some(<$ht>::want(v)?); continue; } )*)?
                    $( if <$gt as Flat>::owns(k) { $g.push((A(Atom::Str(Cow::Owned(k.to_string()))), v.clone())); continue; } )*
                }
                Some($t { $($f: $f?,)* $($g: <$gt as Flat>::collect($g)?,)* $($($h: $h?,)*)? })
            }
        }
        impl Flat for $t {
            #[allow(unused)]
            fn owns(key: &str) -> bool { $( $(eq(key, $n) ||)* )* $($( $(eq(key, $hn) ||)* )*)? $(<$gt as Flat>::owns(key) ||)* false }
            #[allow(unused)]
            fn entry(g: &mut Gen) -> (N, N) {
                let names: &[u64] = &[$($(fields!(@one $n),)*)* $($($(fields!(@one $hn),)*)*)?];
                let flats: &[u64] = &[$(fields!(@one $g),)*];
                let mut c = choose((names.len() + 2 * flats.len()) as u64);
                $($( if c == 0 { return (name($n), g.gen::<$ft>()); } c = c.wrapping_sub(1); )*)*
                $($($( if c == 0 { return (name($hn), g.gen::<$ht>()); } c = c.wrapping_sub(1); )*)*)?
                $( if c < 2 { return <$gt as Flat>::entry(g); } c = c.wrapping_sub(2); )*
                unreachable!()
            }
            #[allow(unused)]
            fn write(&self, all_skip: bool, out: &mut Events) {
                let all = all_skip || $all;
                $(
                    let cond: fn(&$ft) -> bool = $cond;
                    if !cond(&self.$f) && !(all && self.$f.absent()) {
                        out.push(Event::Atom(Atom::Str(Cow::Borrowed(fields!(@first $($n)*)))));
                        self.$f.ev(out);
                    }
                )*
                $(
                    let cond: fn(&$gt) -> bool = $gcond;
                    if !cond(&self.$g) { self.$g.write(all, out); }
                )*
                $($(
                    let cond: fn(&$ht) -> bool = $hcond;
                    if !cond(&self.$h) && !(all && self.$h.absent()) {
                        out.push(Event::Atom(Atom::Str(Cow::Borrowed(fields!(@first $($hn)*)))));
                        self.$h.ev(out);
                    }
                )*)?
            }
        }
    };
    (@one $($x:tt)*) => { 0 };
    (@first $n:literal $($x:literal)*) => { $n };
}
fn never<T>(_: &T) -> bool {
    false
}
// ------------------------------------------------------------------- structs
fn forty() -> u16 {
    40
}
fn is_zero(v: &u8) -> bool {
    *v == 0
}
#[derive(Serialize, Deserialize)]
pub struct Plain5 {
    a: u8,
    b: Option<bool>,
    #[deser(default)]
    c: u8,
    #[deser(default = "forty")]
    d: u16,
    #[deser(rename = "E", alias = "ee", alias = "e3")]
    e: bool,
}
fields! { Plain5, skip false;
    a: u8, ["a"], None, never; b: Option<bool>, ["b"], Some(None), never; c: u8, ["c"], Some(0), never;
    d: u16, ["d"], Some(40), never; e: bool, ["E" "ee" "e3"], None, never; => }
#[derive(Serialize, Deserialize)]
#[deser(default, skip_serializing_optionals)]
pub struct Filled {
    x: u8,
    y: Option<u8>,
    #[deser(default = "forty", skip_serializing_if = "is_forty")]
    z: u16,
    #[deser(default)]
    s: String,
    w: bool,
}
fn is_forty(v: &u16) -> bool {
    *v == 40
}
impl Default for Filled {
    fn default() -> Filled {
        Filled { x: 5, y: Some(6), z: 7, s: String::from("q"), w: true }
    }
}
fields! { Filled, skip true;
    x: u8, ["x"], Some(5), never; y: Option<u8>, ["y"], Some(Some(6)), never; z: u16, ["z"], Some(40), is_forty;
    s: String, ["s"], Some(String::new()), never; w: bool, ["w"], Some(true), never; => }
fn filled2() -> Filled2 {
    Filled2 { x: 9, y: None, inner: Some(Few { p: 3, q: None }) }
}
#[derive(Serialize, Deserialize)]
#[deser(default = "filled2")]
pub struct Filled2 {
    #[deser(skip_serializing_if = "is_zero")]
    x: u8,
    #[deser(skip_serializing_if = "Option::is_some")]
    y: Option<u8>,
    inner: Option<Few>,
}
fields! { Filled2, skip false;
    x: u8, ["x"], Some(9), is_zero; y: Option<u8>, ["y"], Some(None), Option::is_some; inner: Option<Few>, ["inner"], Some(Some(Few { p: 3, q: None })), never; => }
#[derive(Serialize, Deserialize)]
pub struct Few {
    p: u8,
    q: Option<bool>,
}
fields! { Few, skip false; p: u8, ["p"], None, never; q: Option<bool>, ["q"], Some(None), never; => }
#[derive(Serialize, Deserialize)]
#[deser(skip_serializing_optionals)]
pub struct Holder {
    l: Vec<Few>,
    m: Option<Box<Few>>,
    u: (),
    n: Box<Option<u8>>,
}
fields! { Holder, skip true;
    l: Vec<Few>, ["l"], None, never; m: Option<Box<Few>>, ["m"], Some(None), never; u: (), ["u"], Some(()), never; n: Box<Option<u8>>, ["n"], Some(Box::new(None)), never; => }
#[derive(Serialize, Deserialize)]
pub struct Empty {}
fields! { Empty, skip false; => }
#[derive(Serialize, Deserialize)]
#[deser(rename = "X", rename_all = "camelCase")]
pub struct Skips {
    #[deser(skip_serializing_if = "is_zero")]
    one_a: u8,
    #[deser(skip_serializing_if = "is_zero", rename = "two")]
    b: u8,
    three_c: Option<u8>,
    #[deser(skip_serializing_if = "Option::is_none")]
    d: Option<u8>,
    #[deser(skip_serializing_if = "String::is_empty")]
    e: String,
}
fields! { Skips, skip false;
    one_a: u8, ["oneA"], None, is_zero; b: u8, ["two"], None, is_zero; three_c: Option<u8>, ["threeC"], Some(None), never;
    d: Option<u8>, ["d"], Some(None), Option::is_none; e: String, ["e"], None, |s| s.is_empty(); => }
/// With parameters.
#[derive(Serialize, Deserialize)]
#[deser(rename_all = "UPPERCASE")]
pub struct Both<A: Serialize + Deserialize, B: Serialize + Deserialize> {
    a: A,
    #[deser(default, alias = "b")]
    b: Vec<B>,
    c: Option<A>,
}
pub type Pair = Both<u8, bool>;
fields! { Pair, skip false; a: u8, ["A"], None, never; b: Vec<bool>, ["B" "b"], Some(vec![]), never; c: Option<u8>, ["C"], Some(None), never; => }
/// What is left out is what the field is filled with.
#[derive(Serialize, Deserialize)]
#[deser(skip_serializing_optionals, rename_all = "kebab-case")]
pub struct Slim {
    an_option: Option<u8>,
    #[deser(default, skip_serializing_if = "Vec::is_empty", rename = "")]
    l: Vec<Few>,
    #[deser(default, skip_serializing_if = "is_zero")]
    a_zero: u8,
    b: Box<Option<bool>>,
    u: (),
    #[deser(default = "three", skip_serializing_if = "is_three")]
    t: u8,
}
fn three() -> u8 {
    3
}
fn is_three(v: &u8) -> bool {
    *v == 3
}
fields! { Slim, skip true;
    an_option: Option<u8>, ["an-option"], Some(None), never; l: Vec<Few>, [""], Some(vec![]), Vec::is_empty; a_zero: u8, ["a-zero"], Some(0), is_zero;
    b: Box<Option<bool>>, ["b"], Some(Box::new(None)), never; u: (), ["u"], Some(()), never; t: u8, ["t"], Some(3), is_three; => }
#[derive(Serialize, Deserialize)]
#[deser(skip_serializing_optionals)]
pub struct AllOpt {
    a: Option<u8>,
    b: Option<Vec<u16>>,
    c: Box<Option<bool>>,
    d: (),
    #[deser(skip_serializing_if = "is_zero")]
    e: u8,
}
fields! { AllOpt, skip true;
    a: Option<u8>, ["a"], Some(None), never; b: Option<Vec<u16>>, ["b"], Some(None), never; c: Box<Option<bool>>, ["c"], Some(Box::new(None)), never;
    d: (), ["d"], Some(()), never; e: u8, ["e"], None, is_zero; => }
// ------------------------------------------------------------------ flattened
#[derive(Serialize, Deserialize)]
pub struct Outer {
    a: u8,
    z: Option<u8>,
    #[deser(flatten)]
    i: Inner,
}
#[derive(Serialize, Deserialize)]
pub struct Inner {
    b: u8,
    #[deser(default)]
    c: u8,
}
fields! { Inner, skip false; b: u8, ["b"], None, never; c: u8, ["c"], Some(0), never; => }
fields! { Outer, skip false; a: u8, ["a"], None, never; z: Option<u8>, ["z"], Some(None), never; => i: Inner, never; }
/// two members, one of them optional, one nested, in front of plain fields
#[derive(Serialize, Deserialize)]
pub struct Deep {
    x: Option<bool>,
    #[deser(flatten)]
    m: Mid,
    #[deser(flatten, skip_serializing_if = "Option::is_none")]
    o: Option<Few>,
}
#[derive(Serialize, Deserialize)]
pub struct Mid {
    #[deser(alias = "kk")]
    k: u8,
    #[deser(flatten)]
    t: Box<Tip>,
}
#[derive(Serialize, Deserialize)]
pub struct Tip {
    #[deser(skip_serializing_if = "is_zero", default)]
    t: u8,
    v: Option<u8>,
}
fields! { Tip, skip false; t: u8, ["t"], Some(0), is_zero; v: Option<u8>, ["v"], Some(None), never; => }
fields! { Mid, skip false; k: u8, ["k" "kk"], None, never; => t: Box<Tip>, never; }
fields! { Deep, skip false; x: Option<bool>, ["x"], Some(None), never; => m: Mid, never; o: Option<Few>, Option::is_none; }
/// members shadowed by the parent, absent optionals left out everywhere
#[derive(Serialize, Deserialize)]
#[deser(skip_serializing_optionals)]
pub struct Shadow {
    b: Option<u8>,
    #[deser(flatten)]
    i: Box<Tip>,
    #[deser(flatten)]
    e: Empty,
    #[deser(flatten)]
    j: Own,
}
#[derive(Serialize, Deserialize)]
pub struct Own {
    b: Option<u8>,
    t: Option<u8>,
    y: Option<u8>,
}
fields! { Own, skip false; b: Option<u8>, ["b"], Some(None), never; t: Option<u8>, ["t"], Some(None), never; y: Option<u8>, ["y"], Some(None), never; => }
fields! { Shadow, skip true; b: Option<u8>, ["b"], Some(None), never; => i: Box<Tip>, never; e: Empty, never; j: Own, never; }

/// members in front of everything else
#[derive(Serialize, Deserialize)]
pub struct Front {
    #[deser(flatten)]
    m: Tip,
    #[deser(flatten)]
    i: Inner,
    k: u8,
    z: Option<u8>,
}
fields! { Front, skip false; => m: Tip, never; i: Inner, never; + k: u8, ["k"], None, never; z: Option<u8>, ["z"], Some(None), never; }
/// members in the middle, each skipped or not
#[derive(Serialize, Deserialize)]
pub struct Middle {
    a: Option<bool>,
    #[deser(flatten, skip_serializing_if = "no_tip")]
    m: Tip,
    #[deser(flatten, skip_serializing_if = "Option::is_none")]
    o: Option<Few>,
    #[deser(flatten)]
    n: Box<Own>,
    #[deser(skip_serializing_if = "Option::is_none")]
    k: Option<u8>,
    w: bool,
}
fn no_tip(t: &Tip) -> bool {
    t.t == 0 && t.v.is_none()
}
fields! { Middle, skip false; a: Option<bool>, ["a"], Some(None), never; => m: Tip, no_tip; o: Option<Few>, Option::is_none; n: Box<Own>, never;
    + k: Option<u8>, ["k"], Some(None), Option::is_none; w: bool, ["w"], None, never; }

/// members in front, skipped or not
#[derive(Serialize, Deserialize)]
pub struct Lead {
    #[deser(flatten, skip_serializing_if = "Option::is_none")]
    o: Option<Few>,
    #[deser(flatten, skip_serializing_if = "no_tip")]
    m: Tip,
    k: u8,
}
fields! { Lead, skip false; => o: Option<Few>, Option::is_none; m: Tip, no_tip; + k: u8, ["k"], None, never; }
/// optionals in optionals
#[derive(Serialize, Deserialize)]
#[deser(skip_serializing_optionals)]
pub struct Nest {
    a: Option<Option<u8>>,
    b: Option<()>,
    c: Box<Option<Box<()>>>,
    d: Option<Box<Option<bool>>>,
    e: ((),),
    f: [(); 1],
}
fields! { Nest, skip true; a: Option<Option<u8>>, ["a"], Some(None), never; b: Option<()>, ["b"], Some(None), never; c: Box<Option<Box<()>>>, ["c"], Some(Box::new(None)), never;
    d: Option<Box<Option<bool>>>, ["d"], Some(None), never; e: ((),), ["e"], None, never; f: [(); 1], ["f"], None, never; => }
impl<T> Absent for (T,) {}

impl<T: Flat> Flat for Box<T> {
    fn owns(key: &str) -> bool { T::owns(key) }
    fn entry(g: &mut Gen) -> (N, N) { T::entry(g) }
    fn collect(v: Vec<(N, N)>) -> Option<Self> { T::collect(v).map(Box::new) }
    fn write(&self, all_skip: bool, out: &mut Events) { (**self).write(all_skip, out) }
}
/// Absent when none of its keys occurs.
impl<T: Flat> Flat for Option<T> {
    fn owns(key: &str) -> bool { T::owns(key) }
    fn entry(g: &mut Gen) -> (N, N) { T::entry(g) }
    fn collect(v: Vec<(N, N)>) -> Option<Self> { if v.is_empty() { Some(None) } else { T::collect(v).map(Some) } }
    fn write(&self, all_skip: bool, out: &mut Events) {
        if let Some(x) = self {
            x.write(all_skip, out)
        }
    }
}

// ------------------------------------------------------- enums and newtypes
macro_rules! units {
    ($t:ident: $($v:ident [$first:literal $($n:literal)*])*) => {
        impl Val for $t {
            fn arb() -> Self {
                let all = [$($t::$v),*];
                all[choose(all.len() as u64) as usize].clone()
            }
            fn ev(&self, out: &mut Events) {
                out.push(Event::Atom(Atom::Str(Cow::Borrowed(match self { $($t::$v => $first),* }))))
            }
            fn same(&self, o: &Self) -> bool { self == o }
        }
        impl Absent for $t {}
        impl Model for $t {
            fn near(_: &mut Gen) -> N {
                let all = [$($first, $($n,)*)*];
                name(all[choose(all.len() as u64) as usize])
            }
            fn want(n: &N) -> Option<Self> {
                let k = key_of(n)?;
                $( if eq(k, $first) $(|| eq(k, $n))* { return Some($t::$v); } )*
                None
            }
        }
    };
}
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Clone)]
pub enum Simple { A, Bc, #[deser(rename = "x y")] D, #[deser(alias = "F", alias = "")] E }
units! { Simple: A ["A"] Bc ["Bc"] D ["x y"] E ["E" "F" ""] }
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Clone)]
#[deser(rename_all = "snake_case")]
pub enum Snake { Red, DarkRed, #[deser(rename = "DarkBlue")] Blue, #[deser(alias = "DarkRed")] Up }
units! { Snake: Red ["red"] DarkRed ["dark_red"] Blue ["DarkBlue"] Up ["up" "DarkRed"] }
#[derive(Serialize, Deserialize, PartialEq, Clone)]
pub enum Single { One }
units! { Single: One ["One"] }

macro_rules! newtype {
    ($($t:ident $i:ty;)*) => {$(
        #[derive(Serialize, Deserialize)]
        pub struct $t(pub $i);
        impl Val for $t {
            fn arb() -> Self { $t(<$i>::arb()) }
            fn ev(&self, out: &mut Events) { self.0.ev(out) }
            fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
        }
        impl Absent for $t { fn absent(&self) -> bool { self.0.absent() } }
        impl Model for $t {
            fn near(g: &mut Gen) -> N { <$i>::near(g) }
            fn want(n: &N) -> Option<Self> { <$i>::want(n).map($t) }
        }
    )*};
}
newtype! { N8 u8; NOpt Option<bool>; NVec Vec<String>; NFew Few; NMap std::collections::BTreeMap<bool, u8>; NN N8; NArr [u8; 2]; NEnum Snake; NTup (u8, bool); NBox Box<NOpt>; NSelf Vec<NN>; NTip Tip; NUnit (); }
impl<K, V> Absent for std::collections::BTreeMap<K, V> {}
impl<T, const L: usize> Absent for [T; L] {}
impl<A, B> Absent for (A, B) {}
impl Flat for NTip {
    fn owns(key: &str) -> bool { Tip::owns(key) }
    fn entry(g: &mut Gen) -> (N, N) { Tip::entry(g) }
    fn collect(v: Vec<(N, N)>) -> Option<Self> { Tip::collect(v).map(NTip) }
    fn write(&self, all_skip: bool, out: &mut Events) { self.0.write(all_skip, out) }
}
/// newtypes as fields: optional, left out, flattened
#[derive(Serialize, Deserialize)]
#[deser(skip_serializing_optionals)]
pub struct WithNew { n: NN, o: NOpt, b: NBox, u: NUnit, #[deser(flatten)] t: NTip }
fields! { WithNew, skip true;
    n: NN, ["n"], None, never; o: NOpt, ["o"], Some(NOpt(None)), never; b: NBox, ["b"], Some(NBox(Box::new(NOpt(None)))), never; u: NUnit, ["u"], Some(NUnit(())), never;
    => t: NTip, never;
}
