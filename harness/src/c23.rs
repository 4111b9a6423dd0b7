//! C23: the names derived types read and write, for every key text.
use crate::all::check_for;
use crate::all::sym::*;
use deser::de::DeserializeDriver;
use deser::ser::SerializeDriver;
use deser::{Atom, Deserialize, Event, Serialize};
use std::borrow::Cow;

/// Names of each field or variant: the written one first, then those also read.
trait Names: Serialize + Deserialize {
    const NAMES: &'static [&'static [&'static str]];
    /// Which fields are present (structs), which variant it is (enums).
    fn has(&self, i: usize) -> bool;
    /// A value of all fields; a value of this variant.
    fn make(i: usize) -> Self;
}
macro_rules! records {
    ($($t:ident $attr:tt { $($(#[$fa:meta])* $f:ident [$($n:literal)*])* })*) => {$(
        #[derive(Serialize, Deserialize)]
        #[allow(non_snake_case)]
        #[deser $attr]
        pub struct $t { $($(#[$fa])* $f: Option<u8>,)* }
        impl Names for $t {
            const NAMES: &'static [&'static [&'static str]] = &[$(&[$($n),*]),*];
            fn has(&self, i: usize) -> bool { [$(self.$f == Some(77)),*][i] }
            fn make(_: usize) -> Self { $t { $($f: Some(77)),* } }
        }
    )*};
}
macro_rules! units {
    ($($t:ident $attr:tt { $($(#[$fa:meta])* $f:ident [$($n:literal)*])* })*) => {$(
        #[derive(Serialize, Deserialize, Clone, Copy, PartialEq)]
        #[deser $attr]
        pub enum $t { $($(#[$fa])* $f,)* }
        impl Names for $t {
            const NAMES: &'static [&'static [&'static str]] = &[$(&[$($n),*]),*];
            fn has(&self, i: usize) -> bool { [$($t::$f),*][i] == *self }
            fn make(i: usize) -> Self { [$($t::$f),*][i] }
        }
    )*};
}
records! {
    RNone (rename = "other") {
        a ["a"] foo ["foo"] foo_bar ["foo_bar"] foo_bar_2 ["foo_bar_2"] _lead ["_lead"] x__y ["x__y"] tail_ ["tail_"] b9z ["b9z"]
        #[deser(rename = "Ex plicit_N")] ren_amed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "foo-bar", alias = "")] with_al ["with_al" "al_ias" "foo-bar" ""] }
    RLower (rename_all = "lowercase") {
        a ["a"] foo ["foo"] foo_bar ["foo_bar"] foo_bar_2 ["foo_bar_2"] _lead ["_lead"] x__y ["x__y"] tail_ ["tail_"] b9z ["b9z"]
        #[deser(rename = "Ex plicit_N")] ren_amed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "foo-bar", alias = "")] with_al ["with_al" "al_ias" "foo-bar" ""] }
    RUpper (rename_all = "UPPERCASE") {
        a ["A"] foo ["FOO"] foo_bar ["FOO_BAR"] foo_bar_2 ["FOO_BAR_2"] _lead ["_LEAD"] x__y ["X__Y"] tail_ ["TAIL_"] b9z ["B9Z"]
        #[deser(rename = "Ex plicit_N")] ren_amed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "foo-bar", alias = "")] with_al ["WITH_AL" "al_ias" "foo-bar" ""] }
    RPascal (rename_all = "PascalCase") {
        a ["A"] foo ["Foo"] foo_bar ["FooBar"] foo_bar_2 ["FooBar2"] _lead ["Lead"] x__y ["XY"] tail_ ["Tail"] b9z ["B9z"]
        #[deser(rename = "Ex plicit_N")] ren_amed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "foo-bar", alias = "")] with_al ["WithAl" "al_ias" "foo-bar" ""] }
    RCamel (rename_all = "camelCase") {
        a ["a"] foo ["foo"] foo_bar ["fooBar"] foo_bar_2 ["fooBar2"] _lead ["lead"] x__y ["xY"] tail_ ["tail"] b9z ["b9z"]
        #[deser(rename = "Ex plicit_N")] ren_amed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "foo-bar", alias = "")] with_al ["withAl" "al_ias" "foo-bar" ""] }
    RSnake (rename_all = "snake_case") {
        a ["a"] foo ["foo"] foo_bar ["foo_bar"] foo_bar_2 ["foo_bar_2"] _lead ["_lead"] x__y ["x__y"] tail_ ["tail_"] b9z ["b9z"]
        #[deser(rename = "Ex plicit_N")] ren_amed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "foo-bar", alias = "")] with_al ["with_al" "al_ias" "foo-bar" ""] }
    RScreaming (rename_all = "SCREAMING_SNAKE_CASE") {
        a ["A"] foo ["FOO"] foo_bar ["FOO_BAR"] foo_bar_2 ["FOO_BAR_2"] _lead ["_LEAD"] x__y ["X__Y"] tail_ ["TAIL_"] b9z ["B9Z"]
        #[deser(rename = "Ex plicit_N")] ren_amed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "foo-bar", alias = "")] with_al ["WITH_AL" "al_ias" "foo-bar" ""] }
    RKebab (rename_all = "kebab-case") {
        a ["a"] foo ["foo"] foo_bar ["foo-bar"] foo_bar_2 ["foo-bar-2"] _lead ["-lead"] x__y ["x--y"] tail_ ["tail-"] b9z ["b9z"]
        #[deser(rename = "Ex plicit_N")] ren_amed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "FooBar", alias = "")] with_al ["with-al" "al_ias" "FooBar" ""] }
    RCobol (rename_all = "SCREAMING-KEBAB-CASE") {
        a ["A"] foo ["FOO"] foo_bar ["FOO-BAR"] foo_bar_2 ["FOO-BAR-2"] _lead ["-LEAD"] x__y ["X--Y"] tail_ ["TAIL-"] b9z ["B9Z"]
        #[deser(rename = "Ex plicit_N")] ren_amed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "foo-bar", alias = "")] with_al ["WITH-AL" "al_ias" "foo-bar" ""] }
}
units! {
    UNone (rename = "other") {
        A ["A"] Foo ["Foo"] FooBar ["FooBar"] FooBarBaz ["FooBarBaz"] X2 ["X2"] AbC ["AbC"] D9Ef ["D9Ef"]
        #[deser(rename = "Ex plicit_N")] Renamed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "fooBarB", alias = "")] WithAl ["WithAl" "al_ias" "fooBarB" ""] }
    ULower (rename_all = "lowercase") {
        A ["a"] Foo ["foo"] FooBar ["foobar"] FooBarBaz ["foobarbaz"] X2 ["x2"] AbC ["abc"] D9Ef ["d9ef"]
        #[deser(rename = "Ex plicit_N")] Renamed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "fooBarB", alias = "")] WithAl ["withal" "al_ias" "fooBarB" ""] }
    UUpper (rename_all = "UPPERCASE") {
        A ["A"] Foo ["FOO"] FooBar ["FOOBAR"] FooBarBaz ["FOOBARBAZ"] X2 ["X2"] AbC ["ABC"] D9Ef ["D9EF"]
        #[deser(rename = "Ex plicit_N")] Renamed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "fooBarB", alias = "")] WithAl ["WITHAL" "al_ias" "fooBarB" ""] }
    UPascal (rename_all = "PascalCase") {
        A ["A"] Foo ["Foo"] FooBar ["FooBar"] FooBarBaz ["FooBarBaz"] X2 ["X2"] AbC ["AbC"] D9Ef ["D9Ef"]
        #[deser(rename = "Ex plicit_N")] Renamed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "fooBarB", alias = "")] WithAl ["WithAl" "al_ias" "fooBarB" ""] }
    UCamel (rename_all = "camelCase") {
        A ["a"] Foo ["foo"] FooBar ["fooBar"] FooBarBaz ["fooBarBaz"] X2 ["x2"] AbC ["abC"] D9Ef ["d9Ef"]
        #[deser(rename = "Ex plicit_N")] Renamed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "fooBarB", alias = "")] WithAl ["withAl" "al_ias" "fooBarB" ""] }
    USnake (rename_all = "snake_case") {
        A ["a"] Foo ["foo"] FooBar ["foo_bar"] FooBarBaz ["foo_bar_baz"] X2 ["x2"] AbC ["ab_c"] D9Ef ["d9_ef"]
        #[deser(rename = "Ex plicit_N")] Renamed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "fooBarB", alias = "")] WithAl ["with_al" "al_ias" "fooBarB" ""] }
    UScreaming (rename_all = "SCREAMING_SNAKE_CASE") {
        A ["A"] Foo ["FOO"] FooBar ["FOO_BAR"] FooBarBaz ["FOO_BAR_BAZ"] X2 ["X2"] AbC ["AB_C"] D9Ef ["D9_EF"]
        #[deser(rename = "Ex plicit_N")] Renamed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "fooBarB", alias = "")] WithAl ["WITH_AL" "al_ias" "fooBarB" ""] }
    UKebab (rename_all = "kebab-case") {
        A ["a"] Foo ["foo"] FooBar ["foo-bar"] FooBarBaz ["foo-bar-baz"] X2 ["x2"] AbC ["ab-c"] D9Ef ["d9-ef"]
        #[deser(rename = "Ex plicit_N")] Renamed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "fooBarB", alias = "")] WithAl ["with-al" "al_ias" "fooBarB" ""] }
    UCobol (rename_all = "SCREAMING-KEBAB-CASE") {
        A ["A"] Foo ["FOO"] FooBar ["FOO-BAR"] FooBarBaz ["FOO-BAR-BAZ"] X2 ["X2"] AbC ["AB-C"] D9Ef ["D9-EF"]
        #[deser(rename = "Ex plicit_N")] Renamed ["Ex plicit_N"] #[deser(alias = "al_ias", alias = "fooBarB", alias = "")] WithAl ["WITH-AL" "al_ias" "fooBarB" ""] }
}
/// Any text: `n` ASCII characters, or with `wide` any `n` characters.
fn key(n: u64, wide: bool) -> String {
    if wide {
        return string(n);
    }
    let mut v = Vec::new();
    for _ in 0..n {
        let c = byte();
        assume(c < 0x80);
        v.push(c);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn named(k: &str, i: usize, names: &[&[&str]]) -> bool {
    names[i].iter().any(|n| same(k.as_bytes(), n.as_bytes()))
}
fn fields<T: Names>() {
    let n = choose(param(1) + 1);
    let keys: Vec<String> = (0..1 + param(3)).map(|_| key(n, param(2) == 1)).collect();
    let mut out: Option<T> = None;
    let mut ok = true;
    {
        let mut d = DeserializeDriver::new(&mut out);
        ok &= d.emit(Event::MapStart).is_ok();
        for k in &keys {
            ok &= d.emit(Event::Atom(Atom::Str(Cow::Borrowed(k)))).is_ok();
            ok &= d.emit(77u64).is_ok();
        }
        ok &= d.emit(Event::MapEnd).is_ok();
    }
    check_for(23, ok & out.is_some(), "a map of optional fields was refused");
    let t = out.unwrap();
    let mut any = false;
    for i in 0..T::NAMES.len() {
        let want = keys.iter().any(|k| named(k, i, T::NAMES));
        check_for(23, t.has(i) == want, "a field is not read from exactly its names");
        any |= want;
    }
    reach(if any { 1 } else { 2 });
}
fn variants<T: Names>() {
    let k = key(choose(param(1) + 1), param(2) == 1);
    let mut out: Option<T> = None;
    let ok = DeserializeDriver::new(&mut out).emit(Event::Atom(Atom::Str(Cow::Borrowed(&k)))).is_ok();
    check_for(23, ok == out.is_some(), "a variant name was accepted without yielding a value");
    let mut any = false;
    for i in 0..T::NAMES.len() {
        let want = named(&k, i, T::NAMES);
        check_for(23, out.as_ref().map_or(false, |v| v.has(i)) == want, "a variant is not read from exactly its names");
        any |= want;
    }
    check_for(23, ok == any, "an unknown variant name was accepted");
    reach(if any { 1 } else { 2 });
}
fn written<T: Names>() {
    let which = choose(T::NAMES.len() as u64) as usize;
    let t = T::make(which);
    let mut texts: Vec<String> = Vec::new();
    {
        let mut d = SerializeDriver::new(&t);
        loop {
            match d.next() {
                Ok(Some((Event::Atom(Atom::Str(s)), _, _))) => texts.push(s.into_owned()),
                Ok(Some(_)) => {}
                Ok(None) => break,
                Err(_) => check_for(23, false, "an error nobody raised"),
            }
        }
    }
    if param(0) < 20 {
        check_for(23, texts.len() == T::NAMES.len(), "wrong number of names written");
        for i in 0..texts.len() {
            check_for(23, same(texts[i].as_bytes(), T::NAMES[i][0].as_bytes()), "a field is written under another name");
        }
    } else {
        check_for(23, texts.len() == 1 && same(texts[0].as_bytes(), T::NAMES[which][0].as_bytes()), "a variant is written under another name");
    }
    reach(1);
}
macro_rules! each {
    ($f:ident: $($n:literal $t:ty;)*) => {
        match param(0) { $( $n => $f::<$t>(), )* _ => unreachable!() }
    };
}
harness! {
    // params: style, most characters, 1 = any characters, further keys
    n_fields { each! { fields: 0 RNone; 1 RLower; 2 RUpper; 3 RPascal; 4 RCamel; 5 RSnake; 6 RScreaming; 7 RKebab; 8 RCobol; } }
    n_variants { each! { variants: 20 UNone; 21 ULower; 22 UUpper; 23 UPascal; 24 UCamel; 25 USnake; 26 UScreaming; 27 UKebab; 28 UCobol; } }
    // params: style
    n_written { each! { written: 0 RNone; 1 RLower; 2 RUpper; 3 RPascal; 4 RCamel; 5 RSnake; 6 RScreaming; 7 RKebab; 8 RCobol;
        20 UNone; 21 ULower; 22 UUpper; 23 UPascal; 24 UCamel; 25 USnake; 26 UScreaming; 27 UKebab; 28 UCobol; } }
}
