//! The serialization driver over generated trees of user-defined
//! serializables: C10 (stream of events), C18 (completion), C19 (depth and
//! description), C17 (memory, abandonment), C32 (errors).
use crate::all::check_for;
use crate::all::sym::*;
use crate::all::tree::*;
use deser::ser::SerializeDriver;
use deser::{Event, Serialize};
use std::collections::BTreeMap;

fn ident(d: &dyn deser::Descriptor) -> u64 {
    d.precision().unwrap_or(9999) as u64
}
pub fn gen(first: u32) -> Gen {
    let mut g = Gen::new(param(first), param(first + 1));
    g.kinds = param(first + 2);
    g.leaves = param(first + 3);
    g.keys = param(first + 4);
    g.log.mode.set(param(first + 5));
    g
}

/// Drives to the end, comparing events, descriptions and depth.
pub fn drive(v: &dyn Serialize, want: &[(Event<'static>, u64)]) {
    let mut driver = SerializeDriver::new(v);
    check_for(19, driver.state().depth() == 0, "depth is not zero at the start");
    check_for(19, driver.state().top_descriptor().is_none(), "a description is open at the start");
    let mut open: Vec<u64> = Vec::new();
    let mut n = 0;
    loop {
        let (ev, desc, state) = match driver.next() {
            Ok(Some(x)) => x,
            Ok(None) => break,
            Err(_) => {
                check_for(10, false, "an error nobody raised");
                break;
            }
        };
        let d = ident(desc);
        check_for(10, n < want.len(), "events after the end of the value");
        if n < want.len() {
            check_for(10, same_event(&ev, &want[n].0), "a wrong event was delivered");
            if want[n].1 != 0 {
                check_for(10, d == want[n].1, "an event carries the wrong description");
            }
        }
        n += 1;
        match ev {
            Event::MapStart | Event::SeqStart => open.push(d),
            Event::MapEnd | Event::SeqEnd => {
                check_for(10, open.pop() == Some(d), "an end carries another description than its start");
            }
            _ => {}
        }
        check_for(19, state.depth() == open.len(), "wrong depth with an event");
        check_for(19, state.top_descriptor().map_or(0, ident) == open.last().copied().unwrap_or(0), "wrong innermost description with an event");
    }
    check_for(10, n == want.len(), "the stream ends early");
    check_for(10, matches!(driver.next(), Ok(None)), "events after the end of the value");
    check_for(19, driver.state().depth() == 0, "depth is not zero at the end");
    check_for(19, driver.state().top_descriptor().is_none(), "a description is left at the end");
}

/// Drives `k` events, then drops the driver; returns the marker of an error.
pub fn partial(v: &dyn Serialize, k: u64) -> Option<u64> {
    let mut driver = SerializeDriver::new(v);
    for _ in 0..k {
        match driver.next() {
            Ok(Some(_)) => {}
            Ok(None) => return None,
            Err(e) => return Some(marker_of(&e).unwrap_or(u64::MAX)),
        }
    }
    None
}

fn seq(want: &mut Vec<(Event<'static>, u64)>, l: &[&Tree]) {
    want.push((Event::SeqStart, 0));
    for t in l {
        events(t, want);
    }
    want.push((Event::SeqEnd, 0));
}

harness! {
    // params: fuel, depth, kinds, leaves, keys, handle mode
    ser_tree {
        let live0 = live();
        {
            let t = gen(0).tree();
            let mut want = Vec::new();
            events(&t, &mut want);
            drive(&t, &want);
            audit(&t.log, 0, 0, false, true);
            if t.size() > 2 { reach(1) } else { reach(2) }
        }
        check_for(17, live() == live0, "memory is not released");
    }
    // a chain of containers, params: depth, kind
    ser_deep {
        let mut g = Gen::new(0, 0);
        g.log.mode.set(3);
        let mut t = g.leaf();
        for i in 0..param(0) {
            let k = if param(1) == 3 { i % 3 } else { param(1) };
            let node = match k {
                0 => Node::Seq(vec![t]),
                1 => { let k = g.leaf(); Node::Map(vec![(k, t)]) }
                _ => Node::Struct(vec![(String::new(), t)]),
            };
            t = g.mk(node);
        }
        let mut want = Vec::new();
        events(&t, &mut want);
        drive(&t, &want);
        audit(&t.log, 0, 0, false, true);
        reach(1);
    }
    // given up after any number of events; params as above
    ser_abandon {
        let live0 = live();
        {
            let t = gen(0).tree();
            let mut want = Vec::new();
            events(&t, &mut want);
            let k = choose(want.len() as u64 + 1);
            partial(&t, k);
            audit(&t.log, 0, 0, false, false);
            if k > 0 && k < want.len() as u64 { reach(1) } else { reach(2) }
        }
        check_for(17, live() == live0, "memory is not released");
    }
    // the n-th callback fails, for every n; params as above
    ser_fail {
        let live0 = live();
        {
            let t = gen(0).tree();
            partial(&t, u64::MAX);
            let total = t.log.calls.borrow().len() as u64;
            t.log.calls.borrow_mut().clear();
            let n = choose(total) + 1;
            t.log.fail.set(n);
            let r = partial(&t, u64::MAX);
            check_for(32, r == Some(n), "the error of a participant did not reach the caller unchanged");
            check_for(32, t.log.calls.borrow().len() as u64 == n, "a callback ran after a participant had failed");
            audit(&t.log, 0, 0, false, false);
            reach(1);
        }
        check_for(17, live() == live0, "memory is not released");
    }
    // standard containers and wrappers around instrumented values;
    // params: wrapper, 0 complete / 1 abandoned / 2 failing, fuel, depth, kinds, leaves, keys, mode
    ser_wrap {
        let live0 = live();
        {
            let mut g = gen(2);
            let log = g.log.clone();
            let fuel = g.fuel;
            let mut mk = || { g.fuel = fuel; g.tree() };
            let mut want = Vec::new();
            let (mut base, mut top) = (1, 9999);
            let value: Box<dyn Serialize> = match param(0) {
                0 => { let t = mk(); events(&t, &mut want); base = 0; top = 0; Box::new(Box::new(t)) }
                1 => { let t = mk(); events(&t, &mut want); base = 0; top = 0; want.iter_mut().for_each(|w| w.1 = 0); Box::new(Some(t)) }
                2 => { let t = mk(); events(&t, &mut want); base = 0; top = 0; want.iter_mut().for_each(|w| w.1 = 0); Box::new(Some(Box::new(Some(Box::new(t))))) }
                3 => { let v = vec![mk(), mk()]; seq(&mut want, &[&v[0], &v[1]]); Box::new(v) }
                4 => { let v = (mk(), mk(), mk()); seq(&mut want, &[&v.0, &v.1, &v.2]); Box::new(v) }
                5 => { let v = [mk(), mk()]; seq(&mut want, &[&v[0], &v[1]]); Box::new(v) }
                6 => {
                    let mut v = BTreeMap::new();
                    v.insert(3u16, mk());
                    v.insert(5, mk());
                    want.push((Event::MapStart, 0));
                    want.push((Event::from(3u64), 0));
                    events(&v[&3], &mut want);
                    want.push((Event::from(5u64), 0));
                    events(&v[&5], &mut want);
                    want.push((Event::MapEnd, 0));
                    Box::new(v)
                }
                7 => { let v = Box::new([Some(Box::new(mk())), None]); seq(&mut want, &[v[0].as_deref().unwrap()]);
                       let e = want.pop().unwrap(); want.push((Event::Atom(deser::Atom::Null), 0)); want.push(e);
                       want.iter_mut().for_each(|w| w.1 = 0);
                       Box::new(v) }
                _ => { let v = vec![vec![mk()], vec![], vec![mk()]];
                       want.push((Event::SeqStart, 0));
                       seq(&mut want, &[&v[0][0]]); seq(&mut want, &[]); seq(&mut want, &[&v[2][0]]);
                       want.push((Event::SeqEnd, 0));
                       base = 2;
                       Box::new(v) }
            };
            // descriptions of wrapped roots are not compared when the wrapper has its own
            let value = &value;
            match param(1) {
                0 => {
                    drive(&**value, &want);
                    if param(0) < 3 || param(0) == 7 {
                        if param(0) == 0 { audit(&log, base, top, false, true) } else { audit18(&log) }
                    } else {
                        audit(&log, base, top, false, true);
                    }
                    reach(1);
                }
                1 => {
                    partial(&**value, choose(want.len() as u64 + 1));
                    reach(1);
                }
                _ => {
                    partial(&**value, u64::MAX);
                    let total = log.calls.borrow().len() as u64;
                    log.calls.borrow_mut().clear();
                    let n = choose(total) + 1;
                    log.fail.set(n);
                    let r = partial(&**value, u64::MAX);
                    check_for(32, r == Some(n), "the error of a participant did not reach the caller unchanged");
                    check_for(32, log.calls.borrow().len() as u64 == n, "a callback ran after a participant had failed");
                    reach(1);
                }
            }
        }
        check_for(17, live() == live0, "memory is not released");
    }
}
/// Completion only (an optional value is described as optional).
pub fn audit18(log: &Log) {
    if crate::all::PROP != 19 {
        for c in log.calls.borrow_mut().iter_mut() {
            c.depth = 0;
        }
        audit(log, 0, 0, false, true);
    }
}
