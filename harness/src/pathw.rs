//! deser-path: C27 and C28 (locations), and that tracking is transparent (C10,
//! C18, C19, C32, C17).
use crate::all::check_for;
use crate::all::sym::*;
use crate::all::tree::*;
use deser::de::{DeserializeDriver, SinkHandle};
use deser::ser::{SerializeDriver, SerializeHandle};
use deser::{Event, Serialize};
use deser_path::{PathSegment, PathSerializable, PathSink};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone)]
enum Seg {
    Any,
    Unknown,
    Index(u64),
    Key(String),
}
fn matches(a: &Seg, b: &PathSegment) -> bool {
    match (a, b) {
        (Seg::Any, _) => true,
        (Seg::Unknown, PathSegment::Unknown) => true,
        (Seg::Index(a), PathSegment::Index(b)) => *a == *b as u64,
        (Seg::Key(a), PathSegment::Key(b)) => same(a.as_bytes(), b.as_bytes()),
        _ => false,
    }
}
fn is_path(want: &[Seg], got: &[PathSegment]) -> bool {
    want.len() == got.len() && want.iter().zip(got).all(|(a, b)| matches(a, b))
}
fn segment(key: &Tree) -> Seg {
    match &key.node {
        Node::S(s) => Seg::Key(s.clone()),
        Node::U(v) => Seg::Index(*v),
        // signed keys are not promised a location
        Node::I(_) => Seg::Any,
        _ => Seg::Unknown,
    }
}
/// The location of every value by its id; keys (and what is inside of them) are
/// at the container they belong to and marked (1: the key, 2: inside of it).
fn locate(t: &Tree, at: &mut Vec<Seg>, key: u8, out: &mut Vec<(u64, Vec<Seg>, u8)>) {
    out.push((t.id, at.clone(), key));
    let key = if key > 0 { 2 } else { 0 };
    match &t.node {
        Node::Seq(v) => {
            for (i, c) in v.iter().enumerate() {
                at.push(Seg::Index(i as u64));
                locate(c, at, key, out);
                at.pop();
            }
        }
        Node::Map(v) => {
            for (k, c) in v {
                locate(k, at, key.max(1), out);
                at.push(segment(k));
                locate(c, at, key, out);
                at.pop();
            }
        }
        Node::Struct(v) => {
            for (k, c) in v {
                at.push(Seg::Key(k.clone()));
                locate(c, at, key, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn tree() -> Tree {
    let mut g = Gen::new(param(0), param(1));
    g.kinds = param(2);
    g.leaves = param(3);
    g.keys = param(4);
    g.log.mode.set(param(5));
    g.tree()
}
/// All `n` events, or fewer when one fails.
fn run(v: &dyn Serialize, n: u64) -> (Vec<Event<'static>>, Option<u64>) {
    let mut driver = SerializeDriver::new(v);
    let mut ev = Vec::new();
    for _ in 0..n {
        match driver.next() {
            Ok(Some((e, _, _))) => ev.push(e.to_static()),
            Ok(None) => break,
            Err(e) => return (ev, Some(marker_of(&e).unwrap_or(u64::MAX))),
        }
    }
    (ev, None)
}
fn is_doc(ev: &[Event], want: &[(Event<'static>, u64)]) -> bool {
    ev.len() == want.len() && ev.iter().zip(want).all(|(a, b)| same_event(a, &b.0))
}

harness! {
    // params: fuel, depth, kinds, leaves, keys, handle mode, 0 complete / 1 abandoned / 2 failing
    path_ser {
        let live0 = live();
        {
            let t = tree();
            let mut want = Vec::new();
            events(&t, &mut want);
            let n = if param(6) == 1 { choose(want.len() as u64 + 1) } else { u64::MAX };
            if param(6) == 2 {
                run(&t, n);
                let total = t.log.calls.borrow().len() as u64;
                t.log.calls.borrow_mut().clear();
                t.log.paths.borrow_mut().clear();
                t.log.fail.set(choose(total) + 1);
            }
            let (ev, err) = if boolean() {
                run(&PathSerializable::wrap(&t), n)
            } else {
                run(&PathSerializable::wrap_ref(SerializeHandle::boxed(Box::new(&t))), n)
            };
            if param(6) == 0 {
                check_for(27, err.is_none() && is_doc(&ev, &want), "tracking changes what is serialized");
            }
            audit(&t.log, 0, 0, false, param(6) == 0);
            if param(6) == 2 {
                check_for(32, err == Some(t.log.fail.get()), "the error of a participant did not reach the caller unchanged");
                check_for(32, t.log.calls.borrow().len() as u64 == t.log.fail.get(), "a callback ran after a participant had failed");
            }
            let mut at = Vec::new();
            locate(&t, &mut Vec::new(), 0, &mut at);
            for (c, p) in t.log.calls.borrow().iter().zip(t.log.paths.borrow().iter()) {
                let (_, l, key) = at.iter().find(|x| x.0 == c.id).unwrap();
                // containers used as keys are not tracked
                check_for(27, *key == 2 || is_path(l, p), "a participant sees a wrong path");
            }
            reach(1);
        }
        check_for(17, live() == live0, "memory is not released");
    }
    path_de {
        let live0 = live();
        {
            // params[2] must not include structs
            let t = tree();
            let mut want = Vec::new();
            events(&t, &mut want);
            let ev: Vec<Event<'static>> = want.iter().map(|x| x.0.clone()).collect();
            let (log, seen) = (Log::new(), Rc::new(RefCell::new(Vec::new())));
            log.mode.set(param(5));
            let n = if param(6) == 1 { choose(ev.len() as u64 + 1) as usize } else { ev.len() };
            let go = |log: &Rc<Log>| {
                let mut root = Snk::new(log, &seen);
                let sink = if boolean() { PathSink::wrap(&mut root) } else { PathSink::wrap_ref(SinkHandle::boxed(Snk::new(log, &seen))) };
                let mut driver = DeserializeDriver::from_sink(SinkHandle::boxed(sink));
                for e in &ev[..n] {
                    if let Err(e) = driver.emit(e.clone()) {
                        return Some(marker_of(&e).unwrap_or(u64::MAX));
                    }
                }
                None
            };
            let mut err = go(&log);
            if param(6) == 2 {
                let total = log.calls.borrow().len() as u64;
                log.calls.borrow_mut().clear();
                log.paths.borrow_mut().clear();
                log.next_id.set(0);
                log.fail.set(choose(total) + 1);
                err = go(&log);
                check_for(32, err == Some(log.fail.get()), "the error of a participant did not reach the caller unchanged");
                check_for(32, log.calls.borrow().len() as u64 == log.fail.get(), "a callback ran after a participant had failed");
            }
            if param(6) == 0 {
                check_for(28, err.is_none() && is_doc(&seen.borrow(), &want), "tracking changes what is deserialized");
            }
            audit(&log, 0, 0, true, param(6) == 0);
            // the n-th value to begin is the n-th of the tree (struct fields have no key of their own)
            let mut at = Vec::new();
            locate(&t, &mut Vec::new(), 0, &mut at);
            let mut order: Vec<u64> = Vec::new();
            for c in log.calls.borrow().iter() {
                if let What::Begin = c.what { order.push(c.id) }
            }
            for (c, p) in log.calls.borrow().iter().zip(log.paths.borrow().iter()) {
                let i = order.iter().position(|x| *x == c.id).unwrap();
                let (_, l, key) = &at[i];
                if *key > 0 { continue }
                let exact = !c.cont || matches!(c.what, What::Finish);
                if exact {
                    check_for(28, is_path(l, p), "a participant sees a wrong path");
                } else {
                    check_for(28, p.len() >= l.len() && is_path(l, &p[..l.len()]), "a container sees a wrong path");
                }
            }
            reach(1);
        }
        check_for(17, live() == live0, "memory is not released");
    }
    // a chain of containers with a sibling before each inner one; params: depth
    path_deep {
        let mut g = Gen::new(0, 0);
        g.leaves = 1;
        g.log.mode.set(3);
        let mut t = g.leaf();
        let n = param(0);
        for i in 0..n {
            let a = g.mk(Node::Null);
            let node = match i % 3 {
                0 => Node::Seq(vec![a, t]),
                1 => { let (k, l) = (g.mk(Node::U(u(64))), g.mk(Node::S(ascii(1)))); Node::Map(vec![(k, a), (l, t)]) }
                _ => Node::Struct(vec![(ascii(1), a), (ascii(1), t)]),
            };
            t = g.mk(node);
        }
        let mut want = Vec::new();
        events(&t, &mut want);
        let (ev, _) = run(&PathSerializable::wrap(&t), u64::MAX);
        check_for(27, is_doc(&ev, &want), "tracking changes what is serialized");
        let mut at = Vec::new();
        locate(&t, &mut Vec::new(), 0, &mut at);
        for (c, p) in t.log.calls.borrow().iter().zip(t.log.paths.borrow().iter()) {
            let (_, l, key) = at.iter().find(|x| x.0 == c.id).unwrap();
            check_for(27, *key > 0 || is_path(l, p), "a participant sees a wrong path");
        }
        reach(1);
    }
}
