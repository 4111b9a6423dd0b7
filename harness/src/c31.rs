//! C31: values nobody wants.
use crate::all::c12::judge;
use crate::all::check_for;
use crate::all::common::Doc;
use crate::all::derived::*;
use crate::all::model::*;
use crate::all::sym::*;
use crate::all::tree::{events, same_event, Gen as Trees};
use crate::each_type;
use deser::de::{DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::{Atom, Error, Event};
use std::cell::RefCell;
use std::rc::Rc;

fn doc() -> Vec<Event<'static>> {
    let mut g = Trees::new(param(0), param(1));
    g.kinds = 3;
    g.leaves = param(2);
    g.keys = param(3);
    let mut ev = Vec::new();
    events(&g.tree(), &mut ev);
    ev.into_iter().map(|x| x.0).collect()
}
/// What became of each value, in order: 0 ignored, 1 wanted, 2 accepted with
/// the children left to the defaults of the trait.
#[derive(Default)]
struct Picks {
    how: RefCell<Vec<u8>>,
    seen: RefCell<Vec<Event<'static>>>,
    depths: RefCell<Vec<usize>>,
}
struct Pick {
    p: Rc<Picks>,
    open: u8,
}
struct Lazy(Pick);
impl Pick {
    fn child<'b>(&self) -> SinkHandle<'b> {
        let how = choose(3) as u8;
        self.p.how.borrow_mut().push(how);
        let pick = Pick { p: self.p.clone(), open: 0 };
        match how {
            0 => SinkHandle::null(),
            1 => SinkHandle::boxed(pick),
            _ => SinkHandle::boxed(Lazy(pick)),
        }
    }
    fn note(&self, e: Event<'static>, s: &DeserializerState) -> Result<(), Error> {
        self.p.seen.borrow_mut().push(e);
        self.p.depths.borrow_mut().push(s.depth());
        Ok(())
    }
}
impl Sink for Pick {
    fn atom(&mut self, atom: Atom, s: &DeserializerState) -> Result<(), Error> {
        self.note(Event::Atom(atom.to_static()), s)
    }
    fn map(&mut self, s: &DeserializerState) -> Result<(), Error> {
        self.open = 1;
        self.note(Event::MapStart, s)
    }
    fn seq(&mut self, s: &DeserializerState) -> Result<(), Error> {
        self.open = 2;
        self.note(Event::SeqStart, s)
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(self.child())
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(self.child())
    }
    fn finish(&mut self, s: &DeserializerState) -> Result<(), Error> {
        match self.open {
            1 => self.note(Event::MapEnd, s),
            2 => self.note(Event::SeqEnd, s),
            _ => Ok(()),
        }
    }
}
impl Sink for Lazy {
    fn atom(&mut self, atom: Atom, s: &DeserializerState) -> Result<(), Error> {
        self.0.atom(atom, s)
    }
    fn map(&mut self, s: &DeserializerState) -> Result<(), Error> {
        self.0.map(s)
    }
    fn seq(&mut self, s: &DeserializerState) -> Result<(), Error> {
        self.0.seq(s)
    }
    fn finish(&mut self, s: &DeserializerState) -> Result<(), Error> {
        self.0.finish(s)
    }
}
/// The events wanted of one value (`how`) and the next decision.
fn wanted(ev: &[Event<'static>], at: &mut usize, how: u8, picks: &[u8], next: &mut usize, out: &mut Vec<Event<'static>>) {
    let e = ev[*at].clone();
    *at += 1;
    if how > 0 {
        out.push(e.clone());
    }
    if let Event::Atom(_) = e {
        return;
    }
    while !matches!(ev[*at], Event::MapEnd | Event::SeqEnd) {
        let h = if how == 1 { *next += 1; picks.get(*next - 1).copied().unwrap_or(9) } else { 0 };
        wanted(ev, at, h, picks, next, out);
    }
    if how > 0 {
        out.push(ev[*at].clone());
    }
    *at += 1;
}
/// A value of any shape.
fn wild(g: &mut Gen, depth: u64) -> N {
    match if depth == 0 { choose(2) } else { choose(4) } {
        0 => A(Atom::Null),
        1 => A(Atom::U64(u(64))),
        2 => Seq((0..g.count()).map(|_| wild(g, depth - 1)).collect()),
        _ => Map((0..g.count()).map(|_| (wild(g, depth - 1), wild(g, depth - 1))).collect()),
    }
}
/// Entries of the type with unknown ones between them.
fn among<T: Flat>() {
    let live0 = live();
    {
        let mut g = Gen { wrongs: 0, len: param(1) };
        let n = g.count();
        let mut inner = Gen { wrongs: param(2), len: param(2) };
        let mut strays = param(4);
        let mut v = Vec::new();
        for _ in 0..n {
            if strays > 0 && boolean() {
                strays -= 1;
                // any key of these lengths that is not one of the type's
                let k = text(choose(2) * 2);
                assume(!T::owns(key_of(&k).unwrap()));
                v.push((k, wild(&mut inner, param(3))));
            } else {
                let mut one = Gen { wrongs: 0, len: 1 };
                v.push(T::entry(&mut one));
            }
        }
        judge::<T>(&Map(v));
    }
    check_for(31, live() == live0, "memory is not released");
}
/// The document the events describe.
fn parse(ev: &[Event<'static>], at: &mut usize) -> N {
    *at += 1;
    match &ev[*at - 1] {
        Event::Atom(a) => A(a.clone()),
        Event::SeqStart => {
            let mut v = Vec::new();
            while !matches!(ev[*at], Event::SeqEnd) {
                v.push(parse(ev, at));
            }
            *at += 1;
            Seq(v)
        }
        _ => {
            let mut v = Vec::new();
            while !matches!(ev[*at], Event::MapEnd) {
                let k = parse(ev, at);
                v.push((k, parse(ev, at)));
            }
            *at += 1;
            Map(v)
        }
    }
}
fn json<T: Model>(b: &[u8]) {
    let doc = deser_json::Deserializer::new(b).deserialize::<Doc>();
    let got = deser_json::Deserializer::new(b).deserialize::<T>();
    let want = match &doc {
        Ok(d) => T::want(&parse(&d.0, &mut 0)),
        Err(_) => None,
    };
    match (got, want) {
        (Ok(a), Some(b)) => {
            check_for(31, a.same(&b), "an ignored value influences the others");
            reach(1)
        }
        (Err(_), None) => reach(2),
        (Ok(_), None) => check_for(31, false, "an invalid document is accepted in an ignored place"),
        (Err(_), Some(_)) => check_for(31, false, "an ignored value is refused"),
    }
}
harness! {
    // nothing is wanted; params: nodes, depth, leaves, keys
    ign_root {
        let live0 = live();
        {
            let ev = doc();
            let mut d = DeserializeDriver::from_sink(SinkHandle::null());
            let mut open = 0;
            for e in &ev {
                match e {
                    Event::MapStart | Event::SeqStart => open += 1,
                    Event::MapEnd | Event::SeqEnd => open -= 1,
                    _ => {}
                }
                check_for(31, d.emit(e.clone()).is_ok(), "an ignored value is refused");
                check_for(31, d.state().depth() == open, "wrong depth inside of an ignored value");
            }
            reach(if ev.len() > 1 { 1 } else { 2 });
        }
        check_for(31, live() == live0, "memory is not released");
    }
    // any parts are wanted; params: nodes, depth, leaves, keys
    ign_pick {
        let live0 = live();
        {
            let ev = doc();
            let p: Rc<Picks> = Rc::default();
            {
                let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(Pick { p: p.clone(), open: 0 }));
                for e in &ev {
                    check_for(31, d.emit(e.clone()).is_ok(), "an ignored value is refused");
                }
                check_for(31, d.state().depth() == 0, "depth is not zero at the end");
            }
            let mut want = Vec::new();
            let mut next = 0;
            let picks = p.how.borrow().clone();
            wanted(&ev, &mut 0, 1, &picks, &mut next, &mut want);
            check_for(31, next == picks.len(), "a sink was asked for more values than there are");
            let got = p.seen.borrow();
            check_for(31, got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| same_event(a, b)), "ignored values influence the others");
            reach(if picks.contains(&0) { 1 } else { 2 });
        }
        check_for(31, live() == live0, "memory is not released");
    }
    // params: type, most entries, longest ignored container, depth of ignored values, most ignored values
    ign_fields {
        each_type! { among: 0 Few; 1 Plain5; 2 Outer; 3 Shadow; 4 Empty; 5 AllOpt; 6 Deep; 7 Mid; 8 WithNew; 9 Front; 10 Middle; 11 Lead; }
    }
    // params: type, bytes of text in the ignored place
    ign_json {
        let (a, z): (&[u8], &[u8]) = match param(2) {
            0 => (b"{\"p\":1,\"x\":", b",\"q\":true}"),
            1 => (b"{\"x\":[", b"],\"p\":1,\"q\":true}"),
            2 => (b"{\"p\":1,\"q\":true,\"x\":{\"p\":", b"}}"),
            _ => (b"{\"x\":{\"k\":[[],{\"\":", b"}]},\"p\":1}"),
        };
        let mut b = a.to_vec();
        b.extend(bytes(param(1) as usize));
        b.extend(z);
        match param(0) {
            0 => json::<Few>(&b),
            _ => json::<Option<Box<Few>>>(&b),
        }
    }
    // everything is ignored; params: bytes
    ign_all_json {
        let mut b = b"[".to_vec();
        b.extend(bytes(param(0) as usize));
        b.extend(b"]");
        let doc = deser_json::Deserializer::new(&b).deserialize::<Doc>();
        let got = deser_json::Deserializer::new(&b).deserialize::<Nothing>();
        check_for(31, doc.is_ok() == got.is_ok(), "what is ignored decides whether a document is accepted");
        reach(if got.is_ok() { 1 } else { 2 });
    }
    // a chain of ignored containers in front of a field; params: levels
    ign_deep {
        let mut v = A(Atom::Null);
        for i in 0..param(0) {
            v = if boolean() { Seq(vec![v, A(Atom::U64(i))]) } else { Map(vec![(v, A(Atom::Null))]) };
        }
        judge::<Few>(&Map(vec![(name("x"), v), (name("p"), A(Atom::U64(u(8))))]));
    }
}
/// Accepts a list (or anything) and keeps nothing.
struct Nothing;
struct NoSink<'a>(&'a mut Option<Nothing>);
impl deser::Deserialize for Nothing {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(NoSink(out))
    }
}
impl<'a> Sink for NoSink<'a> {
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        *self.0 = Some(Nothing);
        Ok(())
    }
}
