//! C20: the stack in use does not grow with the nesting of the data.
use crate::all::common::Doc;
use crate::all::sym::*;
use crate::all::tree::*;
use deser::de::{Deserialize, DeserializeDriver, SinkHandle};
use deser::ser::SerializeDriver;
use deser::{Atom, Deserialize as De, Event, Serialize as Se};
use std::cell::RefCell;
use std::rc::Rc;

/// Stack that more nesting may cost: far less than a frame per level.
#[cfg(not(feature = "native"))]
fn slack(n: u64) -> u64 {
    n / 2
}
#[cfg(feature = "native")]
fn slack(n: u64) -> u64 {
    n * 16
}
/// Runs on inputs of `n` and `2n` levels.
fn compare<I>(make: impl Fn(u64) -> I, run: impl Fn(&I)) {
    let n = param(1);
    let (a, b) = (make(n), make(2 * n));
    run(&a);
    peak();
    run(&a);
    let pa = peak();
    run(&b);
    let pb = peak();
    check(pb <= pa + slack(n), "stack use grows with the nesting");
    reach(1);
    // dropping a nested value is up to the value
    std::mem::forget((a, b));
}
type Evs = Vec<Event<'static>>;
/// Which levels are maps: a repeating pattern.
fn is_map(pattern: u64, i: u64) -> bool {
    pattern >> (i % 3) & 1 == 1
}
fn stream(pattern: u64, n: u64) -> Evs {
    let mut ev = Evs::new();
    for i in 0..n {
        if is_map(pattern, i) {
            ev.push(Event::MapStart);
            ev.push(Event::from("k"));
        } else {
            ev.push(Event::SeqStart);
        }
    }
    ev.push(Event::Atom(Atom::Null));
    for i in (0..n).rev() {
        ev.push(if is_map(pattern, i) { Event::MapEnd } else { Event::SeqEnd });
    }
    ev
}
fn text(pattern: u64, n: u64) -> Vec<u8> {
    let mut s = Vec::new();
    for i in 0..n {
        s.extend_from_slice(if is_map(pattern, i) { b"{\"k\":" } else { b"[" });
    }
    s.extend_from_slice(b"1");
    for i in (0..n).rev() {
        s.push(if is_map(pattern, i) { b'}' } else { b']' });
    }
    s
}
fn chain(pattern: u64, structs: bool, n: u64) -> Tree {
    let mut g = Gen::new(0, 0);
    let mut t = g.leaf();
    for i in 0..n {
        let node = if !is_map(pattern, i) {
            Node::Seq(vec![t])
        } else if structs {
            Node::Struct(vec![(String::from("k"), t)])
        } else {
            let k = g.mk(Node::S(String::from("k")));
            Node::Map(vec![(k, t)])
        };
        t = g.mk(node);
    }
    t
}
fn feed(d: &mut DeserializeDriver, ev: &[Event<'static>]) {
    for e in ev {
        if d.emit(e.clone()).is_err() {
            return;
        }
    }
}
fn drive(v: &dyn deser::Serialize, stop: usize) {
    let mut d = SerializeDriver::new(v);
    let mut n = 0;
    while n < stop {
        match d.next() {
            Ok(Some(_)) => n += 1,
            _ => break,
        }
    }
}
/// A type that ignores its input.
struct Nothing;
impl Deserialize for Nothing {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        *out = Some(Nothing);
        SinkHandle::null()
    }
}
#[derive(De, Se)]
struct Rec {
    r: Option<Box<Rec>>,
}
#[derive(De, Se)]
struct Wide {
    r: Vec<Wide>,
}
fn rec(n: u64) -> Rec {
    let mut r = Rec { r: None };
    for _ in 0..n {
        r = Rec { r: Some(Box::new(r)) };
    }
    r
}
fn snk() -> Snk {
    Snk::new(&Log::new(), &Rc::new(RefCell::new(Vec::new())))
}

harness! {
    // params: what, levels
    deep {
        let p = choose(8);
        match param(0) {
            // into user-defined sinks; complete, abandoned and failing at the innermost level
            0 => compare(|n| stream(p, n), |ev| feed(&mut DeserializeDriver::from_sink(SinkHandle::boxed(snk())), ev)),
            1 => compare(|n| stream(p, n), |ev| feed(&mut DeserializeDriver::from_sink(SinkHandle::boxed(snk())), &ev[..ev.len() / 2])),
            2 => compare(|n| stream(p, n), |ev| {
                let log = Log::new();
                log.fail.set(ev.len() as u64);
                let s = Snk::new(&log, &Rc::new(RefCell::new(Vec::new())));
                feed(&mut DeserializeDriver::from_sink(SinkHandle::boxed(s)), ev)
            }),
            // ignored
            3 => compare(|n| stream(p, n), |ev| feed(&mut DeserializeDriver::from_sink(SinkHandle::null()), ev)),
            // user-defined serializables; complete and abandoned
            4 => compare(|n| chain(p, boolean(), n), |t| drive(t, usize::MAX)),
            5 => compare(|n| (chain(p, false, n), n as usize), |t| drive(&t.0, t.1)),
            // JSON
            6 => compare(|n| text(p, n), |s| { let _ = deser_json::Deserializer::new(s).deserialize::<Doc>(); }),
            7 => compare(|n| text(p, n), |s| { let _ = deser_json::Deserializer::new(s).deserialize::<Nothing>(); }),
            8 => compare(|n| chain(p, boolean(), n), |t| { let _ = deser_json::to_string(t); }),
            // failing half way
            9 => compare(|n| { let mut s = text(p, n); let k = s.len() / 2; s[k] = b'?'; s }, |s| { let _ = deser_json::Deserializer::new(s).deserialize::<Doc>(); }),
            _ => unreachable!(),
        }
    }
    // params: what, levels
    deep_derived {
        match param(0) {
            0 => compare(rec, |t| drive(t, usize::MAX)),
            1 => compare(rec, |t| { let _ = deser_json::to_string(t); }),
            2 => compare(|n| {
                let mut ev = Evs::new();
                for _ in 0..n { ev.push(Event::MapStart); ev.push(Event::from("r")); }
                ev.push(Event::Atom(Atom::Null));
                for _ in 0..n { ev.push(Event::MapEnd); }
                ev
            }, |ev| {
                let mut out: Option<Rec> = None;
                feed(&mut DeserializeDriver::new(&mut out), ev);
                check(out.is_some(), "nothing came out");
                std::mem::forget(out);
            }),
            3 => compare(|n| {
                let mut s = Vec::new();
                for _ in 0..n { s.extend_from_slice(b"{\"r\":["); }
                for _ in 0..n { s.extend_from_slice(b"]}"); }
                s
            }, |s| {
                let r = deser_json::Deserializer::new(s).deserialize::<Wide>();
                check(r.is_ok(), "nothing came out");
                std::mem::forget(r);
            }),
            // an unknown field with a deep value
            _ => compare(|n| { let mut s = b"{\"x\":".to_vec(); s.extend(text(choose(8), n)); s.extend_from_slice(b",\"r\":[]}"); s }, |s| {
                let r = deser_json::Deserializer::new(s).deserialize::<Wide>();
                check(r.is_ok(), "nothing came out");
            }),
        }
    }
}
