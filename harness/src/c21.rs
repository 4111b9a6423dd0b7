//! C21: extension values of the state, against a model, accessed from every
//! callback of both directions.
use crate::all::sym::*;
use deser::de::{DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, SerializeDriver, SerializeHandle, SerializerState, StructEmitter};
use deser::{Atom, Error, Event, Serialize};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Debug, Default, Clone, PartialEq)]
struct One(u64);
/// same layout as `One`, another default
#[derive(Debug, Clone, PartialEq)]
struct Two(u64);
impl Default for Two {
    fn default() -> Two {
        Two(77)
    }
}
#[derive(Debug, Default, Clone, PartialEq)]
struct Four;
/// What was written last, per type.
#[derive(Default)]
struct Model {
    one: Cell<u64>,
    two: Cell<Option<u64>>,
    text: RefCell<Option<u8>>,
    left: Cell<u64>,
}
macro_rules! ops {
    ($name:ident $all:ident $st:ty) => {
        /// One arbitrary access.
        fn $name(m: &Model, s: &$st) {
            if m.left.get() == 0 {
                return;
            }
            m.left.set(m.left.get() - 1);
            match choose(8) {
                0 => check(s.get::<One>().0 == m.one.get(), "another value was read"),
                1 => {
                    let v = u(64);
                    *s.get_mut::<One>() = One(v);
                    m.one.set(v);
                }
                2 => check(s.get::<Two>().0 == m.two.get().unwrap_or(77), "another value was read"),
                3 => {
                    let v = u(64);
                    let mut x = s.get_mut::<Two>();
                    check(x.0 == m.two.get().unwrap_or(77), "another value was read for writing");
                    x.0 = v;
                    m.two.set(Some(v));
                }
                4 => text(m, &s.get::<Vec<String>>()),
                5 => {
                    let v = u(8) as u8;
                    assume(v < 0x80);
                    let mut x = s.get_mut::<Vec<String>>();
                    text(m, &x);
                    *x = vec![String::from(v as char)];
                    *m.text.borrow_mut() = Some(v);
                }
                6 => check(*s.get::<Four>() == Four, "another value was read"),
                _ => {}
            }
        }
        fn $all(m: &Model, s: &$st) {
            check(s.get::<One>().0 == m.one.get(), "a value was lost at the end");
            check(s.get::<Two>().0 == m.two.get().unwrap_or(77), "a value was lost at the end");
            text(m, &s.get::<Vec<String>>());
        }
    };
}
ops!(de_op de_all DeserializerState);
ops!(ser_op ser_all SerializerState);
fn text(m: &Model, v: &Vec<String>) {
    match *m.text.borrow() {
        None => check(v.is_empty(), "another list was read"),
        Some(c) => check(v.len() == 1 && same(v[0].as_bytes(), &[c]), "another list was read"),
    }
}

struct S(Rc<Model>);
impl Sink for S {
    fn atom(&mut self, _: Atom, s: &DeserializerState) -> Result<(), Error> {
        de_op(&self.0, s);
        Ok(())
    }
    fn map(&mut self, s: &DeserializerState) -> Result<(), Error> {
        de_op(&self.0, s);
        Ok(())
    }
    fn seq(&mut self, s: &DeserializerState) -> Result<(), Error> {
        de_op(&self.0, s);
        Ok(())
    }
    fn next_key(&mut self, s: &DeserializerState) -> Result<SinkHandle, Error> {
        de_op(&self.0, s);
        Ok(SinkHandle::boxed(S(self.0.clone())))
    }
    fn next_value(&mut self, s: &DeserializerState) -> Result<SinkHandle, Error> {
        de_op(&self.0, s);
        Ok(SinkHandle::boxed(S(self.0.clone())))
    }
    fn finish(&mut self, s: &DeserializerState) -> Result<(), Error> {
        de_op(&self.0, s);
        Ok(())
    }
}
/// 0 = leaf, otherwise a container kind around a leaf and (once more) a container.
struct T(Rc<Model>, u64, Option<Box<T>>);
struct Em<'a>(&'a T, u64);
impl<'a> Em<'a> {
    fn step(&mut self, s: &SerializerState) -> Option<SerializeHandle<'a>> {
        ser_op(&self.0 .0, s);
        self.1 += 1;
        match self.1 {
            1 => Some(SerializeHandle::boxed(T(self.0 .0.clone(), 0, None))),
            2 => self.0 .2.as_deref().map(|x| SerializeHandle::to(x)),
            _ => None,
        }
    }
}
impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, s: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        Ok(self.step(s))
    }
}
impl<'a> StructEmitter for Em<'a> {
    fn next(&mut self, s: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        Ok(self.step(s).map(|h| (Cow::Borrowed("f"), h)))
    }
}
impl<'a> MapEmitter for Em<'a> {
    fn next_key(&mut self, s: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        Ok(self.step(s))
    }
    fn next_value(&mut self, s: &SerializerState) -> Result<SerializeHandle, Error> {
        ser_op(&self.0 .0, s);
        Ok(SerializeHandle::boxed(T(self.0 .0.clone(), 0, None)))
    }
}
impl Serialize for T {
    fn serialize(&self, s: &SerializerState) -> Result<Chunk, Error> {
        ser_op(&self.0, s);
        Ok(match self.1 {
            0 => Chunk::Atom(Atom::Null),
            1 => Chunk::Seq(Box::new(Em(self, 0))),
            2 => Chunk::Map(Box::new(Em(self, 0))),
            _ => Chunk::Struct(Box::new(Em(self, 0))),
        })
    }
    fn finish(&self, s: &SerializerState) -> Result<(), Error> {
        ser_op(&self.0, s);
        Ok(())
    }
}
struct Sinkhole<'a>(#[allow(dead_code)] &'a mut ());
impl<'a> Sink for Sinkhole<'a> {}
// --------------------------------------------------------- types easily confused
trait Alike: Default + std::fmt::Debug + 'static {
    fn num(&self) -> u64;
    fn of(v: u64) -> Self;
}
macro_rules! alike {
    ($($t:ty, $x:ident => $num:expr, $of:expr;)*) => { $(
        impl Alike for $t {
            fn num(&self) -> u64 { let $x = self; $num }
            fn of($x: u64) -> Self { $of }
        }
    )* };
}
mod x {
    #[derive(Debug, Default)]
    pub struct Count(pub u64);
}
mod y {
    #[derive(Debug, Default)]
    pub struct Count(pub u64);
}
#[derive(Debug)]
struct G<T>(u64, std::marker::PhantomData<T>);
#[derive(Debug)]
struct Fp<F>(u64, Option<F>);
impl<T> Default for G<T> {
    fn default() -> Self {
        G(0, std::marker::PhantomData)
    }
}
impl<T> Default for Fp<T> {
    fn default() -> Self {
        Fp(0, None)
    }
}
alike! {
    u64, x => *x, x;
    i64, x => *x as u64, x as i64;
    (u64,), x => x.0, (x,);
    [u64; 1], x => x[0], [x];
    Box<u64>, x => **x, Box::new(x);
    Box<Box<u64>>, x => ***x, Box::new(Box::new(x));
    x::Count, x => x.0, x::Count(x);
    y::Count, x => x.0, y::Count(x);
    G<u8>, x => x.0, G(x, Default::default());
    G<&'static u8>, x => x.0, G(x, Default::default());
    Fp<fn(&'static u8)>, x => x.0, Fp(x, None);
    Fp<for<'a> fn(&'a u8)>, x => x.0, Fp(x, None);
    Rc<u64>, x => **x, Rc::new(x);
    Cell<u64>, x => x.get(), Cell::new(x);
}
struct Acc {
    ser: (fn(&SerializerState) -> u64, fn(&SerializerState, u64)),
    de: (fn(&DeserializerState) -> u64, fn(&DeserializerState, u64)),
}
fn acc<T: Alike>() -> Acc {
    Acc {
        ser: (|s| s.get::<T>().num(), |s, v| *s.get_mut::<T>() = T::of(v)),
        de: (|s| s.get::<T>().num(), |s, v| *s.get_mut::<T>() = T::of(v)),
    }
}
fn all() -> Vec<Acc> {
    let mut v = vec![
        acc::<u64>(), acc::<i64>(), acc::<(u64,)>(), acc::<[u64; 1]>(), acc::<Box<u64>>(), acc::<Box<Box<u64>>>(), acc::<x::Count>(), acc::<y::Count>(),
        acc::<G<u8>>(), acc::<G<&'static u8>>(), acc::<Fp<fn(&'static u8)>>(), acc::<Fp<for<'a> fn(&'a u8)>>(), acc::<Rc<u64>>(), acc::<Cell<u64>>(),
    ];
    // the same name twice
    {
        #[derive(Debug, Default)]
        struct Count(u64);
        alike! { Count, x => x.0, Count(x); }
        v.push(acc::<Count>());
    }
    {
        #[derive(Debug, Default)]
        struct Count(u64, u64);
        alike! { Count, x => x.0 + x.1, Count(0, x); }
        v.push(acc::<Count>());
    }
    v
}

harness! {
    // params: accesses, callbacks before the first
    ext_de {
        let live0 = live();
        {
            let m = Rc::new(Model::default());
            let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(S(m.clone())));
            let a = || Event::Atom(Atom::Null);
            let ev = [Event::SeqStart, a(), Event::MapStart, a(), a(), a(), Event::SeqStart, a(), Event::SeqEnd, Event::MapEnd, a(), Event::SeqEnd];
            let first = choose(ev.len() as u64) as usize;
            for (i, e) in ev.into_iter().enumerate() {
                if i == first {
                    m.left.set(param(0));
                    de_op(&m, d.state());
                }
                check(d.emit(e).is_ok(), "an error nobody raised");
            }
            m.left.set(1);
            de_op(&m, d.state());
            de_all(&m, d.state());
            reach(1);
        }
        check(live() == live0, "memory is not released");
    }
    // any two of 16 types easily confused, in every order of first use
    ext_alike {
        let live0 = live();
        {
            let all = all();
            let n = all.len() as u64;
            let (a, b, v, w, z) = (choose(n) as usize, choose(n) as usize, u(64), u(64), u(64));
            assume(a != b);
            let ser = boolean();
            let (mut sink, unit) = ((), ());
            let sd = SerializeDriver::new(&unit);
            let mut m = Sinkhole(&mut sink);
            let dd = DeserializeDriver::from_sink(SinkHandle::to(&mut m));
            let get = |i: usize| if ser { (all[i].ser.0)(sd.state()) } else { (all[i].de.0)(dd.state()) };
            let set = |i: usize, v: u64| if ser { (all[i].ser.1)(sd.state(), v) } else { (all[i].de.1)(dd.state(), v) };
            if boolean() {
                check(get(a) == 0, "another value than the default was read");
            }
            set(a, v);
            check(get(b) == 0, "another type's value was read");
            set(b, w);
            check((get(a) == v) & (get(b) == w), "two types share a value");
            set(a, z);
            check((get(a) == z) & (get(b) == w), "two types share a value");
            reach(1);
        }
        check(live() == live0, "memory is not released");
    }
    ext_ser {
        let live0 = live();
        {
            let m = Rc::new(Model::default());
            let inner = T(m.clone(), 1 + choose(3), None);
            let v = T(m.clone(), 1 + choose(3), Some(Box::new(inner)));
            let mut d = SerializeDriver::new(&v);
            let first = choose(8);
            let mut i = 0;
            loop {
                if i == first {
                    m.left.set(param(0));
                    ser_op(&m, d.state());
                }
                i += 1;
                match d.next() {
                    Ok(Some(_)) => {}
                    Ok(None) => break,
                    Err(_) => check(false, "an error nobody raised"),
                }
            }
            ser_all(&m, d.state());
            reach(1);
        }
        check(live() == live0, "memory is not released");
    }
}
