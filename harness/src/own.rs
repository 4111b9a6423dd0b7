//! C33: an owned sink is the slot and the sink it bundles.
use crate::all::sym::*;
use crate::all::tree::ascii;
use crate::all::types::*;
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, OwnedSink, Sink, SinkHandle};
use deser::{Atom, Descriptor, Error, ErrorKind, Event};
use std::borrow::Cow;

/// What holds the sink that does the work.
trait Hold {
    fn sink(&mut self) -> &mut dyn Sink;
    fn peek(&self) -> &dyn Sink;
    /// Before callback number `n` (from 1): may interfere or refuse to go on.
    fn before(&mut self, n: u64) -> Result<(), Error>;
}
struct Front<H> {
    hold: H,
    calls: u64,
}
impl<H: Hold> Front<H> {
    fn step(&mut self) -> Result<(), Error> {
        self.calls += 1;
        self.hold.before(self.calls)
    }
}
impl<H: Hold> Sink for Front<H> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.step()?;
        self.hold.sink().atom(atom, state)
    }
    fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.step()?;
        self.hold.sink().map(state)
    }
    fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.step()?;
        self.hold.sink().seq(state)
    }
    fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.step()?;
        self.hold.sink().next_key(state)
    }
    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.step()?;
        self.hold.sink().next_value(state)
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.step()?;
        self.hold.sink().finish(state)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.hold.peek().descriptor()
    }
    fn expecting(&self) -> Cow<'_, str> {
        self.hold.peek().expecting()
    }
}
fn stop() -> Error {
    Error::new(ErrorKind::Unexpected, "stop")
}
/// A slot and the sink that fills it; refuses callback `at`.
struct Plainly<'a> {
    handle: SinkHandle<'a>,
    at: u64,
}
impl<'a> Hold for Plainly<'a> {
    fn sink(&mut self) -> &mut dyn Sink {
        &mut *self.handle
    }
    fn peek(&self) -> &dyn Sink {
        &*self.handle
    }
    fn before(&mut self, n: u64) -> Result<(), Error> {
        if n == self.at { Err(stop()) } else { Ok(()) }
    }
}
/// The same in an owned sink that is moved about.
struct Owned<'a, T> {
    sink: Option<Box<OwnedSink<T>>>,
    at: u64,
    how: u64,
    early: &'a mut Option<Option<T>>,
}
impl<'a, T: Deserialize> Hold for Owned<'a, T> {
    fn sink(&mut self) -> &mut dyn Sink {
        self.sink.as_mut().unwrap().borrow_mut()
    }
    fn peek(&self) -> &dyn Sink {
        &**self.sink.as_ref().unwrap().borrow()
    }
    fn before(&mut self, n: u64) -> Result<(), Error> {
        if n != self.at {
            return Ok(());
        }
        match self.how {
            // moved elsewhere
            0 => {
                let s = *self.sink.take().unwrap();
                let mut v = Vec::with_capacity(1);
                v.push(s);
                v.reserve(3);
                self.sink = Some(Box::new(v.pop().unwrap()));
                Ok(())
            }
            // emptied
            1 => {
                *self.early = Some(self.sink.as_mut().unwrap().take());
                Ok(())
            }
            // emptied, and given up
            2 => {
                *self.early = Some(self.sink.as_mut().unwrap().take());
                Err(stop())
            }
            // released while the rest goes on
            _ => {
                self.sink = Some(Box::new(OwnedSink::deserialize()));
                Err(stop())
            }
        }
    }
}
fn equal<T: Val>(a: &Option<T>, b: &Option<T>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.same(b),
        _ => false,
    }
}
/// How many events were accepted.
fn emit_all<H: Hold>(front: &mut Front<H>, events: &[Event<'static>]) -> usize {
    let mut driver = DeserializeDriver::from_sink(SinkHandle::to(front));
    let mut n = 0;
    for e in events {
        if driver.emit(e.clone()).is_err() {
            break;
        }
        n += 1;
    }
    n
}
/// A well-nested stream of at most `n` events.
fn stream(n: u64) -> Vec<Event<'static>> {
    let mut open: Vec<bool> = Vec::new();
    let mut r = Vec::new();
    for _ in 0..n {
        let e = match choose(8) {
            0 => Event::Atom(Atom::Null),
            1 => Event::Atom(Atom::U64(u(64))),
            2 => Event::Atom(Atom::Str(Cow::Owned(ascii(1)))),
            3 => Event::Atom(Atom::Bytes(Cow::Owned(bytes(2)))),
            4 => Event::MapStart,
            5 => Event::SeqStart,
            6 => break,
            _ => match open.last() {
                Some(true) => Event::MapEnd,
                Some(false) => Event::SeqEnd,
                None => break,
            },
        };
        match e {
            Event::MapStart => open.push(true),
            Event::SeqStart => open.push(false),
            Event::MapEnd | Event::SeqEnd => {
                open.pop();
            }
            _ => {}
        }
        r.push(e);
        if open.is_empty() {
            break;
        }
    }
    r
}
fn own<T: Val>() {
    let live0 = live();
    {
        let events = stream(param(1));
        let at = choose(param(1) + 3);
        let how = choose(4);
        let mut early = None;
        // the bundle
        let mut front = Front { hold: Owned::<T> { sink: Some(Box::new(OwnedSink::deserialize())), at, how, early: &mut early }, calls: 0 };
        let accepted = emit_all(&mut front, &events);
        let mut held = front.hold.sink.take().unwrap();
        drop(front);
        let last = held.take();
        check(held.take().is_none(), "a value was taken twice");
        drop(held);
        // its parts
        let mut out: Option<T> = None;
        let (n, calls) = {
            let mut front = Front { hold: Plainly { handle: T::deserialize_into(&mut out), at: if how > 0 { at } else { 0 } }, calls: 0 };
            (emit_all(&mut front, &events), front.calls)
        };
        match how {
            0 => {
                check(accepted == n, "an owned sink accepts something else than the sink it holds");
                check(equal(&last, &out), "an owned sink yields something else than its slot holds");
            }
            1 | 2 => match early {
                Some(e) => {
                    check(equal(&e, &out), "an owned sink yields something else than its slot holds");
                    check(how == 1 || last.is_none(), "a value was taken twice");
                    reach(3);
                }
                None => {
                    check(calls < at || at == 0, "a callback was lost");
                    check(accepted == n, "an owned sink accepts something else than the sink it holds");
                    check(equal(&last, &out), "an owned sink yields something else than its slot holds");
                }
            },
            _ => check(accepted == n, "an owned sink accepts something else than the sink it holds"),
        }
        if out.is_some() { reach(1) } else { reach(2) }
    }
    check(live() == live0, "memory is not released");
}
struct Local(Box<u64>);
impl Sink for Local {
    fn atom(&mut self, _: Atom, _: &DeserializerState) -> Result<(), Error> {
        out(*self.0);
        Ok(())
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
}
struct Swapped(OwnedSink<u64>);
impl Sink for Swapped {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.0.borrow_mut().atom(atom, state)
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.0.borrow_mut().finish(state)
    }
}
harness! {
    // the sink inside is replaced by one that lives shorter: refused by the compiler if
    // what is handed out cannot be assigned to
    #[cfg(feature = "probe-owned-sink")]
    own_swapped {
        let mut s = OwnedSink::<u64>::deserialize();
        {
            let mut local = Box::new(Local(Box::new(u(8))));
            *s.borrow_mut() = SinkHandle::to(&mut *local);
        }
        let mut s = Swapped(s);
        let mut driver = DeserializeDriver::from_sink(SinkHandle::to(&mut s));
        let _ = driver.emit(Event::Atom(Atom::U64(u(8))));
        reach(1);
    }
    // params: type, events
    own_any {
        use std::collections::*;
        crate::each_type! { own:
            0 u64; 1 String; 2 (); 3 Box<u16>; 4 Option<String>; 5 Vec<u16>; 6 Vec<String>; 7 [String; 2]; 8 (bool, String); 9 Option<Vec<Option<u8>>>;
            10 BTreeMap<String, Vec<u8>>; 11 BTreeSet<String>; 12 Vec<u8>; 13 Vec<Box<Vec<String>>>; 14 [[String; 1]; 1]; 15 HashMap<String, u16, PlainState>; 16 Vec<[Box<u8>; 1]>;
        }
    }
}
