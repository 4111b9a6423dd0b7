//! C32 through the JSON front ends, derived types and the path wrappers: the
//! error of a participant ends the operation and is what the caller gets.
use crate::all::check_for;
use crate::all::sym::*;
use crate::all::tree::*;
use deser::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Serialize)]
struct Out {
    a: Tree,
    #[deser(flatten)]
    f: OutFlat,
    #[deser(skip_serializing_if = "Option::is_none")]
    z: Option<OutNew>,
}
#[derive(Serialize)]
struct OutFlat {
    b: Tree,
    #[deser(flatten)]
    g: Box<OutDeep>,
}
#[derive(Serialize)]
struct OutDeep {
    c: Tree,
}
#[derive(Serialize)]
struct OutNew(Vec<Tree>);

#[derive(Deserialize)]
#[allow(dead_code)]
struct In {
    a: Inst,
    #[deser(flatten)]
    f: InFlat,
    z: Option<InNew>,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct InFlat {
    b: Inst,
    #[deser(flatten)]
    g: Box<InDeep>,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct InDeep {
    c: Option<Inst>,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct InNew(Vec<Inst>);

fn gen(first: u32) -> Gen {
    let mut g = Gen::new(param(first), param(first + 1));
    g.kinds = param(first + 2);
    g.leaves = param(first + 3);
    g.small = true;
    g.log.mode.set(param(first + 4));
    g
}
/// The JSON text of a tree.
fn text(t: &Tree, out: &mut String) {
    let quoted = |s: &str, out: &mut String| {
        out.push('"');
        out.push_str(s);
        out.push('"');
    };
    match &t.node {
        Node::Null => out.push_str("null"),
        Node::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        Node::U(v) => out.push((b'0' + *v as u8) as char),
        Node::I(v) => {
            if *v < 0 {
                out.push('-');
            }
            out.push((b'0' + v.unsigned_abs() as u8) as char)
        }
        Node::S(s) => quoted(s, out),
        Node::A(_) => unreachable!(),
        Node::Seq(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                text(x, out);
            }
            out.push(']');
        }
        Node::Map(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                text(k, out);
                out.push(':');
                text(x, out);
            }
            out.push('}');
        }
        Node::Struct(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                quoted(k, out);
                out.push(':');
                text(x, out);
            }
            out.push('}');
        }
    }
}
/// Runs once to count the callbacks, then once with any one of them failing.
fn failing(log: &Log, go: impl Fn() -> Result<(), deser::Error>) {
    check_for(32, go().is_ok(), "an error nobody raised");
    let total = log.calls.borrow().len() as u64;
    log.calls.borrow_mut().clear();
    let n = choose(total) + 1;
    log.fail.set(n);
    match go() {
        Ok(()) => check_for(32, false, "the error of a participant was lost"),
        Err(e) => {
            check_for(32, marker_of(&e) == Some(n), "the error of a participant did not reach the caller unchanged");
            check_for(32, e.kind() == deser::ErrorKind::OutOfRange, "the error of a participant changed its kind");
        }
    }
    check_for(32, log.calls.borrow().len() as u64 == n, "a callback ran after a participant had failed");
    reach(1);
}
fn ser_targets(g: &mut Gen, which: u64) -> Box<dyn Serialize> {
    match which {
        0 => Box::new(g.tree()),
        1 => Box::new(vec![g.tree(), g.mk(Node::Null)]),
        2 => Box::new(Some(Box::new(g.tree()))),
        3 => {
            let mut m = BTreeMap::new();
            m.insert("k", g.tree());
            m.insert("l", g.mk(Node::Null));
            Box::new(m)
        }
        4 => Box::new((g.tree(), [g.mk(Node::Null)], g.mk(Node::Bool(true)))),
        5 => Box::new(Out { a: g.tree(), f: OutFlat { b: g.mk(Node::Null), g: Box::new(OutDeep { c: g.mk(Node::Null) }) }, z: None }),
        6 => Box::new(Out { a: g.mk(Node::Null), f: OutFlat { b: g.mk(Node::Null), g: Box::new(OutDeep { c: g.tree() }) }, z: Some(OutNew(vec![g.mk(Node::Null)])) }),
        _ => Box::new(vec![OutNew(vec![g.tree(), g.mk(Node::Null)])]),
    }
}
harness! {
    // params: target, nodes, depth, kinds, leaves, handles
    fr_ser {
        let live0 = live();
        {
            let mut g = gen(1);
            let v = ser_targets(&mut g, param(0));
            failing(&g.log, || deser_json::to_string(&*v).map(|_| ()));
        }
        check(live() == live0, "memory is not released");
    }
    // the same with the events alone
    fr_ser_events {
        let live0 = live();
        {
            let mut g = gen(1);
            let v = ser_targets(&mut g, param(0));
            failing(&g.log, || {
                let mut d = deser::ser::SerializeDriver::new(&*v);
                while d.next()?.is_some() {}
                Ok(())
            });
        }
        check(live() == live0, "memory is not released");
    }
    // params: target, nodes, depth, kinds, leaves, handles
    fr_de {
        let live0 = live();
        {
            let mut g = gen(1);
            let mut t = String::new();
            text(&g.tree(), &mut t);
            let null = t == "null";
            let (log, seen) = (Log::new(), Rc::new(RefCell::new(Vec::new())));
            log.mode.set(param(5));
            let installed = install(&log, &seen);
            macro_rules! go { ($t:ty, $($x:expr),*) => {{
                let s: String = [$(&$x[..]),*].concat();
                failing(&log, || deser_json::from_str::<$t>(&s).map(|_| ()))
            }} }
            match param(0) {
                0 => go!(Inst, t),
                1 => go!(Vec<Inst>, "[", t, ",1]"),
                2 => { assume(!null); go!(Option<Box<Inst>>, t) }
                3 => go!(BTreeMap<String, Inst>, "{\"a\":", t, ",\"b\":", "[]", "}"),
                4 => go!((Inst, [Inst; 1], Inst), "[", t, ",[2],", "{}", "]"),
                5 => go!(In, "{\"a\":", t, ",\"c\":1,\"b\":", "{}", "}"),
                6 => go!(In, "{\"b\":[],\"zz\":", t, ",\"c\":", t, ",\"a\":2,\"z\":[", t, ",[3]]}"),
                _ => go!(Vec<InNew>, "[[", t, "],[],[1]]"),
            }
            drop(installed);
        }
        check(live() == live0, "memory is not released");
    }
}
