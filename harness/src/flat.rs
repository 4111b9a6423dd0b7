//! User-defined participants flattened into derived structs: they take part in
//! the conversation although the driver never sees them (C10, C17, C18, C32).
use crate::all::check_for;
use crate::all::ser::{audit18, drive, gen, partial};
use crate::all::sym::*;
use crate::all::tree::*;
use deser::de::{DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::{Atom, Deserialize, Error, Event, Serialize};
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

type Seen = Rc<RefCell<Vec<Event<'static>>>>;

#[derive(Serialize)]
struct One {
    a: Tree,
    #[deser(flatten)]
    t: Tree,
    z: Tree,
}
#[derive(Serialize)]
#[deser(skip_serializing_optionals)]
struct Two {
    n: Option<Tree>,
    #[deser(flatten)]
    t: Tree,
    #[deser(flatten)]
    u: Tree,
    o: Option<Tree>,
}
#[derive(Serialize)]
struct Over {
    #[deser(flatten)]
    s: One,
    #[deser(flatten, skip_serializing_if = "absent")]
    u: Tree,
    #[deser(flatten, skip_serializing_if = "absent")]
    v: Tree,
}
fn absent(t: &Tree) -> bool {
    !matches!(t.node, Node::Struct(_))
}

/// Claims the key `K` of the struct it is flattened into.
struct Part<const K: u8>(#[allow(dead_code)] u64);
struct PartSink<'a, const K: u8> {
    slot: &'a mut Option<Part<K>>,
    token: Token,
    log: Rc<Log>,
    seen: Seen,
    child: Option<Box<Snk>>,
}
impl<const K: u8> Deserialize for Part<K> {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        let (log, seen) = installed();
        SinkHandle::boxed(PartSink { slot: out, token: Token::new(9), log, seen, child: None })
    }
}
impl<'a, const K: u8> PartSink<'a, K> {
    fn hit(&self, w: What, state: &DeserializerState) -> Result<(), Error> {
        self.token.touch();
        self.log.hit(w, 1000 + K as u64, true, state.depth(), state.top_descriptor())
    }
}
impl<'a, const K: u8> Sink for PartSink<'a, K> {
    fn value_for_key(&mut self, key: &str, state: &DeserializerState) -> Result<Option<SinkHandle>, Error> {
        self.hit(What::Next, state)?;
        self.child = None;
        if key.len() == 1 && key.as_bytes()[0] == K {
            let s = Snk::new(&self.log, &self.seen);
            return Ok(Some(if K == b'p' {
                SinkHandle::boxed(s)
            } else {
                self.child = Some(Box::new(s));
                SinkHandle::to(&mut **self.child.as_mut().unwrap())
            }));
        }
        Ok(None)
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.hit(What::Finish, state)?;
        *self.slot = Some(Part(K as u64));
        Ok(())
    }
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct Dest {
    #[deser(flatten)]
    p: Part<b'p'>,
    a: Option<Inst>,
    #[deser(flatten)]
    deep: Deep,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct Deep {
    b: Option<Inst>,
    #[deser(flatten)]
    q: Part<b'q'>,
    #[deser(flatten)]
    r: Part<b'r'>,
}

/// Every flattened participant is finished exactly once, last, and is only
/// called while no value below it is open; the values themselves are judged as
/// usual.
fn parts(log: &Log, complete: bool) {
    let mut done = [false; 3];
    let mut open = 0u64;
    let mut calls = log.calls.borrow_mut();
    for c in calls.iter() {
        if c.id >= 1000 {
            let k = (c.id - 1000 - b'p' as u64) as usize;
            check_for(18, open == 0, "a flattened participant was called while a value is open");
            check_for(18, !done[k], "a flattened participant was called after it was finished");
            if c.what == What::Finish {
                done[k] = true;
            }
        } else {
            match c.what {
                What::Begin => open += 1,
                What::Next => {}
                What::Finish => open = open.saturating_sub(1),
            }
        }
    }
    if complete {
        check_for(18, done[0] & done[1] & done[2], "a flattened participant was not told that it is finished");
    }
    calls.retain(|c| c.id < 1000);
}

harness! {
    // params: shape, 0 complete / 1 abandoned / 2 failing, fuel, depth, kinds, leaves, keys, mode
    ser_flat {
        let live0 = live();
        {
            let mut g = gen(2);
            let log = g.log.clone();
            let fuel = g.fuel;
            let mut want: Vec<(Event<'static>, u64)> = vec![(Event::MapStart, 0)];
            fn key(want: &mut Vec<(Event<'static>, u64)>, k: &'static str) {
                want.push((Event::Atom(Atom::Str(Cow::Borrowed(k))), 0));
            }
            // the fields of the struct alone
            fn inner(want: &mut Vec<(Event<'static>, u64)>, t: &Tree) {
                if let Node::Struct(f) = &t.node {
                    for (k, v) in f {
                        want.push((Event::Atom(Atom::Str(Cow::Owned(k.clone()))), 0));
                        events(v, want);
                    }
                }
            }
            let mut mk = || { g.fuel = fuel; g.tree() };
            let t = mk();
            // everything but a struct is refused
            let refused = absent(&t);
            let value: Box<dyn Serialize> = match param(0) {
                0 => {
                    let v = One { a: mk(), t, z: mk() };
                    key(&mut want, "a");
                    events(&v.a, &mut want);
                    inner(&mut want, &v.t);
                    key(&mut want, "z");
                    events(&v.z, &mut want);
                    Box::new(v)
                }
                1 => {
                    let u = mk();
                    assume(!absent(&u));
                    let v = Two { n: None, t, u, o: Some(mk()) };
                    inner(&mut want, &v.t);
                    inner(&mut want, &v.u);
                    key(&mut want, "o");
                    events(v.o.as_ref().unwrap(), &mut want);
                    // (an optional value is described as optional)
                    want.iter_mut().for_each(|w| w.1 = 0);
                    Box::new(v)
                }
                _ => {
                    let (a, z, u, v) = (mk(), mk(), mk(), mk());
                    let v = Over { s: One { a, t, z }, u, v };
                    key(&mut want, "a");
                    events(&v.s.a, &mut want);
                    inner(&mut want, &v.s.t);
                    key(&mut want, "z");
                    events(&v.s.z, &mut want);
                    inner(&mut want, &v.u);
                    inner(&mut want, &v.v);
                    Box::new(v)
                }
            };
            want.push((Event::MapEnd, 0));
            match param(1) {
                0 => {
                    assume(!refused);
                    drive(&*value, &want);
                    audit18(&log);
                }
                1 => {
                    partial(&*value, choose(want.len() as u64 + 1));
                }
                _ => {
                    partial(&*value, u64::MAX);
                    let total = log.calls.borrow().len() as u64;
                    log.calls.borrow_mut().clear();
                    let n = choose(total) + 1;
                    log.fail.set(n);
                    let r = partial(&*value, u64::MAX);
                    check_for(32, r == Some(n), "the error of a participant did not reach the caller unchanged");
                    check_for(32, log.calls.borrow().len() as u64 == n, "a callback ran after a participant had failed");
                }
            }
            reach(1);
        }
        check_for(17, live() == live0, "memory is not released");
    }
    // params: entries, 0 complete / 1 abandoned / 2 failing, fuel, depth, kinds, leaves, keys, mode
    de_flat {
        let live0 = live();
        {
            let mut g = gen(2);
            let fuel = g.fuel;
            let mut ev: Vec<Event<'static>> = vec![Event::MapStart];
            for _ in 0..param(0) {
                let k = ["a", "b", "p", "q", "r", "x"][choose(6) as usize];
                ev.push(Event::Atom(Atom::Str(Cow::Borrowed(k))));
                g.fuel = fuel;
                let t = g.tree();
                let mut e = Vec::new();
                events(&t, &mut e);
                ev.extend(e.into_iter().map(|x| x.0));
            }
            ev.push(Event::MapEnd);
            drop(g);
            let (log, seen) = (Log::new(), Seen::default());
            log.mode.set(param(7));
            let guard = install(&log, &seen);
            let emit = |out: &mut Option<Dest>, ev: &[Event<'static>]| {
                let mut driver = DeserializeDriver::new(out);
                for e in ev {
                    if let Err(e) = driver.emit(e.clone()) {
                        return Some(marker_of(&e).unwrap_or(u64::MAX));
                    }
                }
                None
            };
            let mut out: Option<Dest> = None;
            match param(1) {
                0 => {
                    check_for(18, emit(&mut out, &ev).is_none(), "an error nobody raised");
                    check_for(18, out.is_some(), "a struct with all its parts was not delivered");
                    parts(&log, true);
                    audit(&log, 1, 9999, true, true);
                }
                1 => {
                    let k = choose(ev.len() as u64) as usize;
                    emit(&mut out, &ev[..k]);
                    parts(&log, false);
                    audit(&log, 1, 9999, true, false);
                }
                _ => {
                    emit(&mut out, &ev);
                    out = None;
                    let total = log.calls.borrow().len() as u64;
                    log.calls.borrow_mut().clear();
                    let n = choose(total) + 1;
                    log.fail.set(n);
                    let r = emit(&mut out, &ev);
                    check_for(32, r == Some(n), "the error of a participant did not reach the caller unchanged");
                    check_for(32, log.calls.borrow().len() as u64 == n, "a callback ran after a participant had failed");
                    check_for(32, out.is_none(), "a value was delivered although a participant failed");
                }
            }
            drop(out);
            drop(guard);
            reach(1);
        }
        check_for(17, live() == live0, "memory is not released");
    }
}
