//! The deserialization driver over generated documents: C18 (completion), C19
//! (depth and description), C17 (memory, abandonment), C32 (errors), C11
//! (everything arrives).
use crate::all::check_for;
use crate::all::sym::*;
use crate::all::tree::*;
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::{Atom, Descriptor, Error, Event};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type Seen = Rc<RefCell<Vec<Event<'static>>>>;

fn doc(first: u32) -> (Rc<Log>, Vec<Event<'static>>) {
    let mut g = Gen::new(param(first), param(first + 1));
    g.kinds = param(first + 2) & 3;
    g.leaves = param(first + 3);
    g.keys = param(first + 4);
    let t = g.tree();
    let mut ev = Vec::new();
    events(&t, &mut ev);
    let log = Log::new();
    log.mode.set(param(first + 5));
    (log, ev.into_iter().map(|x| x.0).collect())
}
fn same_events(a: &[Event], b: &[Event]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_event(a, b))
}
fn is_start(e: &Event) -> bool {
    matches!(e, Event::MapStart | Event::SeqStart)
}
fn is_end(e: &Event) -> bool {
    matches!(e, Event::MapEnd | Event::SeqEnd)
}
/// Emits events until the first error; its marker is returned.
fn emit(driver: &mut DeserializeDriver, ev: &[Event<'static>]) -> Option<u64> {
    let mut open = 0usize;
    for e in ev {
        open = open + is_start(e) as usize - is_end(e) as usize;
        if let Err(e) = driver.emit(e.clone()) {
            return Some(marker_of(&e).unwrap_or(u64::MAX));
        }
        check_for(19, driver.state().depth() == open, "wrong depth between events");
    }
    None
}
fn at_rest(driver: &DeserializeDriver) {
    check_for(19, driver.state().depth() == 0, "depth is not zero");
    check_for(19, driver.state().top_descriptor().is_none(), "a description is open");
}

/// A typed target around instrumented values: its document and how it is judged.
fn wrapped<T: Deserialize>(log: &Rc<Log>, seen: &Seen, ev: &[Event<'static>], how: u64, base: u64, instances: u64, count: impl Fn(&T) -> u64) {
    let mut out: Option<T> = None;
    let installed = install(log, seen);
    match how {
        0 => {
            {
                let mut driver = DeserializeDriver::new(&mut out);
                at_rest(&driver);
                let r = emit(&mut driver, ev);
                check_for(11, r.is_none(), "an error nobody raised");
                at_rest(&driver);
            }
            check_for(11, out.as_ref().map_or(u64::MAX, &count) == instances, "a value was lost");
            audit(log, base, if base == 0 { 0 } else { 9999 }, true, true);
            drop(out);
        }
        1 => {
            let k = choose(ev.len() as u64 + 1) as usize;
            let mut driver = DeserializeDriver::new(&mut out);
            emit(&mut driver, &ev[..k]);
            audit(log, base, if base == 0 { 0 } else { 9999 }, true, false);
        }
        _ => {
            emit(&mut DeserializeDriver::new(&mut out), ev);
            let total = log.calls.borrow().len() as u64;
            log.calls.borrow_mut().clear();
            let n = choose(total) + 1;
            log.fail.set(n);
            let r = emit(&mut DeserializeDriver::new(&mut out), ev);
            check_for(32, r == Some(n), "the error of a participant did not reach the caller unchanged");
            check_for(32, log.calls.borrow().len() as u64 == n, "a callback ran after a participant had failed");
        }
    }
    drop(installed);
    reach(1);
}

/// A driver fed with a symbolic well-nested prefix of at most `n` events, making up to
/// `param(2)` further values after the first.
fn feed<T: Deserialize>(n: u64) {
    let mut more = param(2);
    let live0 = live();
    let mut got = false;
    {
        let mut out: Option<T> = None;
        {
            let mut driver = DeserializeDriver::new(&mut out);
            let mut open: Vec<bool> = Vec::new();
            let mut i = 0;
            while i < n {
                i += 1;
                let e = match choose(8) {
                    0 => Event::Atom(Atom::Null),
                    1 => Event::Atom(Atom::U64(u(64))),
                    2 => Event::Atom(Atom::Str(Cow::Owned(ascii(1)))),
                    3 => Event::Atom(Atom::Bytes(Cow::Owned(bytes(2)))),
                    4 => Event::MapStart,
                    5 => Event::SeqStart,
                    6 => break,
                    _ => match open.last() {
                        Some(true) => Event::MapEnd,
                        Some(false) => Event::SeqEnd,
                        None => break,
                    },
                };
                match e {
                    Event::MapStart => open.push(true),
                    Event::SeqStart => open.push(false),
                    Event::MapEnd | Event::SeqEnd => {
                        open.pop();
                    }
                    _ => {}
                }
                if driver.emit(e).is_err() {
                    break;
                }
                if open.is_empty() {
                    if more == 0 {
                        break;
                    }
                    more -= 1;
                }
            }
        }
        if out.is_some() {
            got = true;
        }
    }
    check_for(17, live() == live0, "memory is not released");
    check_for(14, live() == live0, "memory is not released");
    if got { reach(1) } else { reach(2) }
}

/// Describes itself by something it owns and replaces at one of its callbacks.
struct Redesc {
    desc: Box<Shown>,
    watch: Rc<Watch>,
    here: u64,
}
struct Shown(u64);
impl Descriptor for Shown {
    fn name(&self) -> Option<&str> {
        if self.0 & 1 == 0 { None } else { Some("shown") }
    }
    fn precision(&self) -> Option<usize> {
        Some(self.0 as usize)
    }
}
struct Watch {
    at: u64,
    calls: Cell<u64>,
    made: Cell<u64>,
    /// what the open containers said when they were entered
    open: RefCell<Vec<u64>>,
}
impl Redesc {
    fn new(watch: &Rc<Watch>) -> Redesc {
        watch.made.set(watch.made.get() + 1);
        Redesc { desc: Box::new(Shown(watch.made.get())), watch: watch.clone(), here: watch.made.get() }
    }
    fn call(&mut self, state: &DeserializerState) {
        let w = &self.watch;
        w.calls.set(w.calls.get() + 1);
        if w.calls.get() == w.at {
            self.desc = Box::new(Shown(self.here + 1000));
        }
        let want = w.open.borrow().last().copied();
        let top = state.top_descriptor();
        check_for(19, top.is_some() == want.is_some(), "the wrong number of containers is open");
        if let (Some(top), Some(want)) = (top, want) {
            let p = top.precision().unwrap_or(0) as u64;
            check_for(19, p == want || p == want + 1000, "the description of another container");
            check_for(19, top.name().is_some() == (p & 1 == 1), "the description of another container");
        }
        out(want.unwrap_or(0));
    }
}
impl Sink for Redesc {
    fn atom(&mut self, _: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.call(state);
        Ok(())
    }
    fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.call(state);
        self.watch.open.borrow_mut().push(self.here);
        Ok(())
    }
    fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.map(state)
    }
    fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.call(state);
        Ok(SinkHandle::boxed(Redesc::new(&self.watch)))
    }
    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.next_key(state)
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.call(state);
        if self.watch.open.borrow().last() == Some(&self.here) {
            self.watch.open.borrow_mut().pop();
        }
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &*self.desc
    }
}

harness! {
    // a sink replaces what it is described by at any callback; params: fuel, depth, kinds,
    // leaves, keys, most callbacks before
    de_redesc {
        let live0 = live();
        {
            let (_, events) = doc(0);
            let watch = Rc::new(Watch { at: choose(param(5)), calls: Cell::new(0), made: Cell::new(0), open: RefCell::new(Vec::new()) });
            let mut root = Redesc::new(&watch);
            {
                let mut driver = DeserializeDriver::from_sink(SinkHandle::to(&mut root));
                for e in &events {
                    check_for(17, driver.emit(e.clone()).is_ok(), "an error nobody raised");
                }
            }
            reach(if watch.at > 0 && watch.calls.get() >= watch.at { 1 } else { 2 });
        }
        check_for(17, live() == live0, "memory is not released");
    }
    // a sink that is released while a driver holds on to it: refused by the compiler
    // if drivers are bound to the lifetime of their sink
    #[cfg(feature = "probe-from-sink")]
    de_unbound {
        let watch = Rc::new(Watch { at: 0, calls: Cell::new(0), made: Cell::new(0), open: RefCell::new(Vec::new()) });
        let mut driver = {
            let mut root = Box::new(Redesc::new(&watch));
            DeserializeDriver::from_sink(SinkHandle::to(&mut *root))
        };
        let _ = driver.emit(Event::Atom(Atom::U64(u(8))));
        reach(1);
    }
    // params: fuel, depth, kinds, leaves, keys, handle mode
    de_tree {
        let live0 = live();
        {
            let (log, ev) = doc(0);
            let seen = Seen::default();
            {
                let mut root = Snk::new(&log, &seen);
                let mut driver = DeserializeDriver::from_sink(SinkHandle::to(&mut root));
                at_rest(&driver);
                let r = emit(&mut driver, &ev);
                check_for(11, r.is_none(), "an error nobody raised");
                at_rest(&driver);
            }
            check_for(11, same_events(&seen.borrow(), &ev), "the sinks did not receive the document");
            audit(&log, 0, 0, true, true);
            if ev.len() > 3 { reach(1) } else { reach(2) }
        }
        check_for(17, live() == live0, "memory is not released");
    }
    // params: depth, kind
    de_deep {
        let n = param(0);
        let mut ev: Vec<Event<'static>> = Vec::new();
        let map = |i: u64| if param(1) == 2 { i % 2 } else { param(1) } == 1;
        for i in 0..n {
            if map(i) { ev.push(Event::MapStart); ev.push(Event::from("k")); } else { ev.push(Event::SeqStart); }
        }
        for i in (0..n).rev() {
            ev.push(if map(i) { Event::MapEnd } else { Event::SeqEnd });
        }
        // the innermost container of a map chain has a key without a value: give it one
        ev.insert(ev.len() - n as usize, Event::Atom(Atom::Null));
        let (log, seen) = (Log::new(), Seen::default());
        log.mode.set(3);
        {
            let mut root = Snk::new(&log, &seen);
            let mut driver = DeserializeDriver::from_sink(SinkHandle::to(&mut root));
            emit(&mut driver, &ev);
            at_rest(&driver);
        }
        check_for(11, same_events(&seen.borrow(), &ev), "the sinks did not receive the document");
        audit(&log, 0, 0, true, true);
        reach(1);
    }
    de_abandon {
        let live0 = live();
        {
            let (log, ev) = doc(0);
            let seen = Seen::default();
            let k = choose(ev.len() as u64 + 1) as usize;
            {
                let mut driver = DeserializeDriver::from_sink(SinkHandle::boxed(Snk::new(&log, &seen)));
                emit(&mut driver, &ev[..k]);
            }
            audit(&log, 0, 0, true, k == ev.len());
            if k > 0 && k < ev.len() { reach(1) } else { reach(2) }
        }
        check_for(17, live() == live0, "memory is not released");
    }
    de_fail {
        let live0 = live();
        {
            let (log, ev) = doc(0);
            let seen = Seen::default();
            emit(&mut DeserializeDriver::from_sink(SinkHandle::boxed(Snk::new(&log, &seen))), &ev);
            let total = log.calls.borrow().len() as u64;
            log.calls.borrow_mut().clear();
            let n = choose(total) + 1;
            log.fail.set(n);
            let r = emit(&mut DeserializeDriver::from_sink(SinkHandle::boxed(Snk::new(&log, &seen))), &ev);
            check_for(32, r == Some(n), "the error of a participant did not reach the caller unchanged");
            check_for(32, log.calls.borrow().len() as u64 == n, "a callback ran after a participant had failed");
            audit(&log, 0, 0, true, false);
            reach(1);
        }
        check_for(17, live() == live0, "memory is not released");
    }
    // params: wrapper, 0 complete / 1 abandoned / 2 failing, fuel, depth, kinds, leaves, keys, mode
    de_wrap {
        let live0 = live();
        {
            let (log, ev) = doc(2);
            let seen = Seen::default();
            let how = param(1);
            let list = |n: usize| { let mut v = vec![Event::SeqStart]; for _ in 0..n { v.extend(ev.iter().cloned()); } v.push(Event::SeqEnd); v };
            let null = ev.len() == 1 && matches!(ev[0], Event::Atom(Atom::Null));
            match param(0) {
                0 => { assume(!null); wrapped::<Option<Inst>>(&log, &seen, &ev, how, 0, 1, |v| v.is_some() as u64) }
                1 => wrapped::<Box<Inst>>(&log, &seen, &ev, how, 0, 1, |_| 1),
                2 => { assume(!null); wrapped::<Option<Box<Option<Inst>>>>(&log, &seen, &ev, how, 0, 1, |v| v.as_ref().map_or(0, |v| v.is_some() as u64)) }
                3 => wrapped::<Vec<Inst>>(&log, &seen, &list(2), how, 1, 2, |v| v.len() as u64),
                4 => wrapped::<(Inst, Inst, Inst)>(&log, &seen, &list(3), how, 1, 3, |_| 3),
                5 => wrapped::<[Inst; 3]>(&log, &seen, &list(3), how, 1, 3, |_| 3),
                6 => {
                    let mut v = vec![Event::MapStart];
                    for i in [3u64, 5] { v.push(Event::from(i)); v.extend(ev.iter().cloned()); }
                    v.push(Event::MapEnd);
                    wrapped::<BTreeMap<u8, Inst>>(&log, &seen, &v, how, 1, 2, |v| v.len() as u64)
                }
                7 => wrapped::<Vec<Box<Inst>>>(&log, &seen, &list(2), how, 1, 2, |v| v.len() as u64),
                _ => { assume(!null); wrapped::<[Option<Inst>; 2]>(&log, &seen, &list(2), how, 1, 2, |v| v.iter().filter(|x| x.is_some()).count() as u64) }
            }
        }
        check_for(17, live() == live0, "memory is not released");
    }
    // every well-nested prefix of events into standard types; params: type, events
    de_std {
        let n = param(1);
        match param(0) {
            0 => feed::<Vec<Vec<u16>>>(n),
            1 => feed::<Option<Box<String>>>(n),
            2 => feed::<(String, Vec<String>)>(n),
            3 => feed::<[String; 2]>(n),
            4 => feed::<[Box<u8>; 3]>(n),
            5 => feed::<[u8; 2]>(n),
            6 => feed::<Vec<u8>>(n),
            7 => feed::<BTreeMap<String, Vec<u8>>>(n),
            8 => feed::<BTreeMap<Vec<String>, Box<String>>>(n),
            9 => feed::<BTreeSet<String>>(n),
            10 => feed::<Option<[Option<String>; 2]>>(n),
            11 => feed::<[[String; 1]; 2]>(n),
            12 => feed::<Vec<(String, Option<u8>)>>(n),
            13 => feed::<Box<Option<Vec<Box<String>>>>>(n),
            14 => feed::<[String; 0]>(n),
            15 => feed::<std::collections::HashMap<String, String, Plain>>(n),
            16 => feed::<std::collections::HashSet<String, Plain>>(n),
            17 => feed::<[Vec<String>; 2]>(n),
            18 => feed::<Vec<Option<String>>>(n),
            19 => feed::<String>(n),
            20 => feed::<Box<Option<String>>>(n),
            21 => feed::<Option<Box<Option<Vec<String>>>>>(n),
            _ => feed::<Option<()>>(n),
        }
    }
}

/// A trivial hasher: the order of a hash table is of no interest here.
#[derive(Default, Clone)]
pub struct Plain;
impl std::hash::BuildHasher for Plain {
    type Hasher = Zero;
    fn build_hasher(&self) -> Zero {
        Zero
    }
}
pub struct Zero;
impl std::hash::Hasher for Zero {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}
