//! An independent statement of what the standard target types accept: generated
//! documents near (and off) the shape of a type, and the value it must yield.
use crate::all::sym::*;
use crate::all::types::*;
use deser::{Atom, Event};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;

#[derive(Clone)]
pub enum N {
    A(Atom<'static>),
    Seq(Vec<N>),
    Map(Vec<(N, N)>),
}
pub use N::*;
impl N {
    pub fn events(&self, out: &mut Events) {
        match self {
            A(a) => out.push(Event::Atom(a.clone())),
            Seq(v) => {
                out.push(Event::SeqStart);
                v.iter().for_each(|x| x.events(out));
                out.push(Event::SeqEnd);
            }
            Map(v) => {
                out.push(Event::MapStart);
                v.iter().for_each(|(k, v)| {
                    k.events(out);
                    v.events(out);
                });
                out.push(Event::MapEnd);
            }
        }
    }
}
/// Generator limits: how many places may be of any shape, longest container.
pub struct Gen {
    pub wrongs: u64,
    pub len: u64,
}
pub fn text(chars: u64) -> N {
    let mut s = String::new();
    for _ in 0..chars {
        s.push(arb_char());
    }
    A(Atom::Str(Cow::Owned(s)))
}
pub fn blob(n: u64) -> N {
    A(Atom::Bytes(Cow::Owned(bytes(n as usize))))
}
/// Any kind of event: every scalar kind with any value, small containers.
pub fn any() -> N {
    match choose(16) {
        0 => A(Atom::Null),
        1 => A(Atom::Bool(boolean())),
        2 => A(Atom::U64(u(64))),
        3 => A(Atom::I64(u(64) as i64)),
        4 => A(Atom::F64(f64::from_bits(u(64)))),
        5 => A(Atom::Char(arb_char())),
        6 => text(0),
        7 => text(1),
        8 => text(2),
        9 => blob(choose(4)),
        10 => Seq(vec![]),
        11 => Map(vec![]),
        12 => Seq(vec![A(Atom::Null)]),
        13 => Seq(vec![A(Atom::U64(u(64))), A(Atom::U64(u(64)))]),
        14 => Map(vec![(A(Atom::U64(u(64))), A(Atom::Null))]),
        _ => Map(vec![(text(1), A(Atom::U64(u(64))))]),
    }
}
impl Gen {
    pub fn wrong(&mut self) -> bool {
        let w = self.wrongs > 0 && boolean();
        self.wrongs -= w as u64;
        w
    }
    pub fn gen<T: Model>(&mut self) -> N {
        if self.wrong() {
            any()
        } else {
            T::near(self)
        }
    }
    pub fn count(&mut self) -> u64 {
        choose(self.len + 1)
    }
}
pub trait Model: Val {
    /// A document of the right shape, whose parts may be off.
    fn near(g: &mut Gen) -> N;
    /// The value the document denotes, if the type accepts it.
    fn want(n: &N) -> Option<Self>;
}
macro_rules! int {
    ($($t:ident)*) => {$(
        impl Model for $t {
            fn near(g: &mut Gen) -> N {
                // values out of range count as a wrong place
                if g.wrong() {
                    if boolean() { A(Atom::U64(u(64))) } else { A(Atom::I64(u(64) as i64)) }
                } else {
                    A(Atom::U64(u($t::BITS - 1)))
                }
            }
            fn want(n: &N) -> Option<Self> {
                // the number in 128 bits, whatever its event kind
                let v = match n {
                    A(Atom::U64(v)) => *v as i128,
                    A(Atom::I64(v)) => *v as i128,
                    _ => return None,
                };
                if v < $t::MIN as i128 || v > $t::MAX as i128 { None } else { Some(v as $t) }
            }
        }
    )*};
}
int! { u8 u16 u32 u64 usize i8 i16 i32 i64 isize }
macro_rules! float {
    ($($t:ident)*) => {$(
        impl Model for $t {
            fn near(_: &mut Gen) -> N { A(Atom::F64(f64::from_bits(u(64)))) }
            fn want(n: &N) -> Option<Self> {
                match n {
                    A(Atom::F64(v)) => Some(*v as $t),
                    A(Atom::U64(v)) => Some(*v as $t),
                    A(Atom::I64(v)) => Some(*v as $t),
                    _ => None,
                }
            }
        }
    )*};
}
float! { f32 f64 }
impl Model for bool {
    fn near(_: &mut Gen) -> N { A(Atom::Bool(boolean())) }
    fn want(n: &N) -> Option<Self> {
        match n {
            A(Atom::Bool(v)) => Some(*v),
            _ => None,
        }
    }
}
impl Model for () {
    fn near(_: &mut Gen) -> N { A(Atom::Null) }
    fn want(n: &N) -> Option<Self> {
        match n {
            A(Atom::Null) => Some(()),
            _ => None,
        }
    }
}
impl Model for char {
    fn near(_: &mut Gen) -> N { if boolean() { A(Atom::Char(arb_char())) } else { text(1) } }
    fn want(n: &N) -> Option<Self> {
        match n {
            A(Atom::Char(v)) => Some(*v),
            A(Atom::Str(s)) => {
                // exactly one character: decoded by hand
                let b = s.as_bytes();
                let n = if b.is_empty() { return None } else if b[0] < 0x80 { 1 } else if b[0] < 0xe0 { 2 } else if b[0] < 0xf0 { 3 } else { 4 };
                if b.len() != n {
                    return None;
                }
                let mut c = if n == 1 { b[0] as u32 } else { (b[0] & (0x7f >> n)) as u32 };
                for i in 1..n {
                    c = c << 6 | (b[i] & 0x3f) as u32;
                }
                char::from_u32(c)
            }
            _ => None,
        }
    }
}
impl Model for String {
    fn near(_: &mut Gen) -> N { text(choose(2)) }
    fn want(n: &N) -> Option<Self> {
        match n {
            A(Atom::Str(s)) => Some(s.clone().into_owned()),
            _ => None,
        }
    }
}
fn is_byte<T>() -> bool {
    std::any::type_name::<T>() == "u8"
}
/// The elements of a list document; byte strings are lists of bytes.
fn elements<T: Model>(n: &N) -> Option<Vec<T>> {
    match n {
        Seq(v) => v.iter().map(T::want).collect(),
        A(Atom::Bytes(b)) if is_byte::<T>() => b.iter().map(|x| T::want(&A(Atom::U64(*x as u64)))).collect(),
        _ => None,
    }
}
fn list<T: Model>(g: &mut Gen, n: u64) -> N {
    if is_byte::<T>() && boolean() {
        return blob(n);
    }
    Seq((0..n).map(|_| g.gen::<T>()).collect())
}
impl<T: Model> Model for Vec<T> {
    fn near(g: &mut Gen) -> N {
        let n = g.count();
        list::<T>(g, n)
    }
    fn want(n: &N) -> Option<Self> { elements(n) }
}
/// A number of elements that is usually right.
fn about(g: &mut Gen, n: u64) -> u64 {
    if g.wrong() {
        choose(n + 3)
    } else {
        n
    }
}
impl<T: Model, const L: usize> Model for [T; L] {
    fn near(g: &mut Gen) -> N {
        let n = about(g, L as u64);
        list::<T>(g, n)
    }
    fn want(n: &N) -> Option<Self> { elements(n)?.try_into().ok() }
}
impl<T: Model> Model for Option<T> {
    fn near(g: &mut Gen) -> N { if boolean() { A(Atom::Null) } else { g.gen::<T>() } }
    fn want(n: &N) -> Option<Self> {
        match n {
            A(Atom::Null) => Some(None),
            n => T::want(n).map(Some),
        }
    }
}
impl<T: Model> Model for Box<T> {
    fn near(g: &mut Gen) -> N { T::near(g) }
    fn want(n: &N) -> Option<Self> { T::want(n).map(Box::new) }
}
fn entries<K: Model, V: Model>(g: &mut Gen) -> N {
    Map((0..g.count()).map(|_| (g.gen::<K>(), g.gen::<V>())).collect())
}
/// Distinct keys with the last value of each.
fn distinct<K: Model, V: Model>(n: &N, eq: impl Fn(&K, &K) -> bool) -> Option<Vec<(K, V)>> {
    let v = match n {
        Map(v) => v,
        _ => return None,
    };
    let mut out: Vec<(K, V)> = Vec::new();
    for (k, v) in v {
        let (k, v) = (K::want(k)?, V::want(v)?);
        match out.iter().position(|x| eq(&x.0, &k)) {
            Some(i) => out[i].1 = v,
            None => out.push((k, v)),
        }
    }
    Some(out)
}
impl<K: Model + Ord, V: Model> Model for BTreeMap<K, V> {
    fn near(g: &mut Gen) -> N { entries::<K, V>(g) }
    fn want(n: &N) -> Option<Self> { Some(distinct::<K, V>(n, |a, b| a.same(b))?.into_iter().collect()) }
}
impl<K: Model + Hash + Eq, V: Model> Model for HashMap<K, V, PlainState> {
    fn near(g: &mut Gen) -> N { entries::<K, V>(g) }
    fn want(n: &N) -> Option<Self> { Some(distinct::<K, V>(n, |a, b| a.same(b))?.into_iter().collect()) }
}
impl<T: Model + Ord> Model for BTreeSet<T> {
    fn near(g: &mut Gen) -> N {
        let n = g.count();
        Seq((0..n).map(|_| g.gen::<T>()).collect())
    }
    fn want(n: &N) -> Option<Self> { if let A(_) = n { None } else { Some(elements::<T>(n)?.into_iter().collect()) } }
}
impl<T: Model + Hash + Eq> Model for HashSet<T, PlainState> {
    fn near(g: &mut Gen) -> N {
        let n = g.count();
        Seq((0..n).map(|_| g.gen::<T>()).collect())
    }
    fn want(n: &N) -> Option<Self> { if let A(_) = n { None } else { Some(elements::<T>(n)?.into_iter().collect()) } }
}
macro_rules! tuple {
    ($n:literal $($t:ident $i:tt)*) => {
        impl<$($t: Model),*> Model for ($($t,)*) {
            fn near(g: &mut Gen) -> N {
                let n = about(g, $n);
                let mut v = Vec::new();
                $( if n > $i { v.push(g.gen::<$t>()); } )*
                for _ in $n..n { v.push(A(Atom::Null)); }
                Seq(v)
            }
            fn want(n: &N) -> Option<Self> {
                match n {
                    Seq(v) if v.len() == $n => Some(($($t::want(&v[$i])?,)*)),
                    _ => None,
                }
            }
        }
    };
}
tuple!(1 A 0);
tuple!(2 A 0 B 1);
tuple!(3 A 0 B 1 C 2);
tuple!(4 A 0 B 1 C 2 D 3);
tuple!(5 A 0 B 1 C 2 D 3 E 4);
tuple!(6 A 0 B 1 C 2 D 3 E 4 F 5);
tuple!(7 A 0 B 1 C 2 D 3 E 4 F 5 G 6);
tuple!(8 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7);
tuple!(9 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8);
tuple!(10 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9);
tuple!(11 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10);
tuple!(12 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11);
