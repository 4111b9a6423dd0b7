//! C29: debug formatting against an own renderer of the value tree.
use crate::all::check_for;
use crate::all::sym::*;
use deser::ser::{Chunk, MapEmitter, SeqEmitter, SerializeHandle, SerializerState, StructEmitter};
use deser::{Atom, Descriptor, Error, Serialize};
use deser_debug::ToDebug;
use std::borrow::Cow;
use std::fmt::Write;

enum Kind {
    Leaf(Atom<'static>),
    Seq(Vec<D>),
    Map(Vec<(D, D)>),
    Struct(Vec<(String, D)>),
}
struct D {
    kind: Kind,
    name: Name,
}
struct Name(Option<&'static str>);
impl Descriptor for Name {
    fn name(&self) -> Option<&str> {
        self.0
    }
}
struct Em<'a>(&'a D, usize);
impl Serialize for D {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk, Error> {
        Ok(match &self.kind {
            Kind::Leaf(a) => Chunk::Atom(a.clone()),
            Kind::Seq(_) => Chunk::Seq(Box::new(Em(self, 0))),
            Kind::Map(_) => Chunk::Map(Box::new(Em(self, 0))),
            Kind::Struct(_) => Chunk::Struct(Box::new(Em(self, 0))),
        })
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.name
    }
}
impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        self.1 += 1;
        Ok(match &self.0.kind {
            Kind::Seq(v) => v.get(self.1 - 1).map(|x| SerializeHandle::to(x)),
            _ => None,
        })
    }
}
impl<'a> MapEmitter for Em<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        self.1 += 1;
        Ok(match &self.0.kind {
            Kind::Map(v) => v.get(self.1 - 1).map(|x| SerializeHandle::to(&x.0)),
            _ => None,
        })
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle, Error> {
        Ok(match &self.0.kind {
            Kind::Map(v) => SerializeHandle::to(&v[self.1 - 1].1),
            _ => unreachable!(),
        })
    }
}
impl<'a> StructEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        self.1 += 1;
        Ok(match &self.0.kind {
            Kind::Struct(v) => v.get(self.1 - 1).map(|x| (Cow::Borrowed(&x.0[..]), SerializeHandle::to(&x.1))),
            _ => None,
        })
    }
}
/// What debug formatting has to print.
fn render(d: &D, pretty: bool, level: usize, out: &mut String) {
    let (open, close, n) = match &d.kind {
        Kind::Leaf(a) => return leaf(a, out),
        Kind::Seq(v) => ('[', ']', v.len()),
        Kind::Map(v) => ('{', '}', v.len()),
        Kind::Struct(v) => ('{', '}', v.len()),
    };
    if let Some(name) = d.name.0 {
        if open == '{' || (name != "Vec" && name != "slice") {
            out.push_str(name);
            out.push(' ');
        }
    }
    out.push(open);
    for i in 0..n {
        if pretty {
            out.push('\n');
            (0..=level).for_each(|_| out.push_str("    "));
        } else if i > 0 {
            out.push_str(", ");
        }
        match &d.kind {
            Kind::Seq(v) => render(&v[i], pretty, level + 1, out),
            Kind::Map(v) => {
                render(&v[i].0, pretty, level + 1, out);
                out.push_str(": ");
                render(&v[i].1, pretty, level + 1, out);
            }
            Kind::Struct(v) => {
                leaf(&Atom::Str(Cow::Borrowed(&v[i].0)), out);
                out.push_str(": ");
                render(&v[i].1, pretty, level + 1, out);
            }
            _ => {}
        }
        if pretty {
            out.push(',');
        }
    }
    if pretty && n > 0 {
        out.push('\n');
        (0..level).for_each(|_| out.push_str("    "));
    }
    out.push(close);
}
fn leaf(a: &Atom, out: &mut String) {
    match a {
        Atom::Null => out.push_str("()"),
        Atom::Bool(v) => out.push_str(if *v { "true" } else { "false" }),
        Atom::Str(v) => write!(out, "{:?}", v).unwrap(),
        Atom::Char(v) => write!(out, "{:?}", v).unwrap(),
        Atom::U64(v) => write!(out, "{:?}", v).unwrap(),
        Atom::I64(v) => write!(out, "{:?}", v).unwrap(),
        Atom::F64(v) => write!(out, "{:?}", v).unwrap(),
        Atom::Bytes(v) => {
            out.push_str("b\"");
            for &b in v.iter() {
                match b {
                    b'\n' => out.push_str("\\n"),
                    b'\r' => out.push_str("\\r"),
                    b'\t' => out.push_str("\\t"),
                    b'\\' => out.push_str("\\\\"),
                    b'"' => out.push_str("\\\""),
                    0 => out.push_str("\\0"),
                    0x20..=0x7e => out.push(b as char),
                    _ => {
                        out.push_str("\\x");
                        for n in [b >> 4, b & 15] {
                            out.push((if n < 10 { b'0' + n } else { b'a' + n - 10 }) as char);
                        }
                    }
                }
            }
            out.push('"');
        }
        _ => unreachable!(),
    }
}
const FLOATS: [f64; 4] = [-0.0, 1.0, 1e-7, f64::NAN];
const WIDE: [u64; 8] = [0, 9, 256, 99999, u32::MAX as u64, i64::MAX as u64, 1 << 63, u64::MAX];
const LETTERS: [char; 6] = ['\u{e9}', '\u{200b}', '\u{301}', '\u{ad}', '\u{1f600}', '\u{10ffff}'];
/// Any ASCII character or one of some others (printable, invisible, combining).
fn letter() -> char {
    if boolean() {
        LETTERS[choose(6) as usize]
    } else {
        let c = byte();
        assume(c < 0x80);
        c as char
    }
}
fn text(n: u64) -> String {
    (0..n).map(|_| letter()).collect()
}
/// Any scalar, or one of a few.
fn scalar(any: bool) -> Atom<'static> {
    if !any {
        return [Atom::Null, Atom::U64(7), Atom::Str(Cow::Borrowed("a\n"))][choose(3) as usize].clone();
    }
    let c = choose(12) as usize;
    match c {
        0 => Atom::Bool(true),
        1 => Atom::Bool(false),
        2 => Atom::Str(Cow::Borrowed("")),
        3 => Atom::Bytes(Cow::Borrowed(b"")),
        4 => Atom::Bytes(Cow::Borrowed(b"a\"\n")),
        5 => Atom::Char('\''),
        6 => Atom::I64(-5),
        7 => Atom::I64(i64::MIN),
        _ => Atom::F64(FLOATS[c - 8]),
    }
}
struct G {
    fuel: u64,
    kinds: u64,
    names: bool,
}
impl G {
    fn name(&self) -> Name {
        let all = [None, Some("A"), Some("Vec"), Some("slice"), Some("")];
        Name(all[if self.names { choose(5) as usize } else { 0 }])
    }
    fn more(&mut self) -> bool {
        let m = self.fuel > 0 && boolean();
        self.fuel -= m as u64;
        m
    }
    fn tree(&mut self, depth: u64) -> D {
        let what = if depth == 0 { 0 } else { choose(4) };
        let kind = match what {
            0 => {
                let any = self.kinds > 0 && boolean();
                self.kinds -= any as u64;
                Kind::Leaf(scalar(any))
            }
            1 => {
                let mut v = Vec::new();
                while self.more() {
                    v.push(self.tree(depth - 1));
                }
                Kind::Seq(v)
            }
            2 => {
                let mut v = Vec::new();
                while self.more() {
                    let k = self.tree(depth - 1);
                    v.push((k, self.tree(depth - 1)));
                }
                Kind::Map(v)
            }
            _ => {
                let mut v = Vec::new();
                while self.more() {
                    v.push((if boolean() { "k" } else { "" }.to_string(), self.tree(depth - 1)));
                }
                Kind::Struct(v)
            }
        };
        let name = if what == 0 { Name(Some("S")) } else { self.name() };
        D { kind, name }
    }
}
/// Fails once it has taken this many writes.
struct Full {
    left: u64,
    got: String,
}
impl Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.left == 0 {
            return Err(std::fmt::Error);
        }
        self.left -= 1;
        self.got.push_str(s);
        Ok(())
    }
}
fn gen() -> D {
    let mut g = G { fuel: param(0), kinds: param(2), names: param(3) == 1 };
    g.tree(param(1))
}
fn judge(d: &D) {
    let t = ToDebug::new(d);
    for pretty in [false, true] {
        let mut want = String::new();
        render(d, pretty, 0, &mut want);
        let mut got = String::new();
        let ok = if pretty { write!(got, "{:#?}", t) } else { write!(got, "{:?}", t) };
        check_for(29, ok.is_ok(), "debug formatting failed");
        check_for(29, same(want.as_bytes(), got.as_bytes()), "debug formatting prints something else");
        let mut got = String::new();
        let ok = if pretty { write!(got, "{:#}", t) } else { write!(got, "{}", t) };
        check_for(29, ok.is_ok() && same(want.as_bytes(), got.as_bytes()), "display formatting prints something else");
    }
}
harness! {
    // params: entries, depth, scalars of any kind, names
    dbg_tree {
        let live0 = live();
        {
            let d = gen();
            judge(&d);
            reach(if let Kind::Leaf(_) = d.kind { 2 } else { 1 });
        }
        check(live() == live0, "memory is not released");
    }
    // params: characters / bytes, kind
    dbg_text {
        let live0 = live();
        {
            let n = param(0);
            let a = match param(1) {
                0 => Atom::Bytes(Cow::Owned(bytes(n as usize))),
                1 => Atom::Str(Cow::Owned(text(n))),
                2 => Atom::Char(letter()),
                3 => Atom::U64(u(n as u32)),
                4 => Atom::I64(u(n as u32) as i64 - (1 << (n - 1))),
                5 => Atom::U64(WIDE[choose(8) as usize]),
                6 => Atom::I64(WIDE[choose(8) as usize] as i64),
                _ => Atom::Bool(boolean()),
            };
            let one = || D { kind: Kind::Leaf(a.clone()), name: Name(Some("S")) };
            let d = match choose(3) {
                0 => one(),
                1 => D { kind: Kind::Seq(vec![one()]), name: Name(None) },
                _ => D { kind: Kind::Map(vec![(one(), one())]), name: Name(None) },
            };
            judge(&d);
            reach(1);
        }
        check(live() == live0, "memory is not released");
    }
    // a writer that fails at any point; params: entries, depth, scalars, names, most writes
    dbg_fail {
        let live0 = live();
        {
            let d = gen();
            let pretty = boolean();
            let mut want = String::new();
            render(&d, pretty, 0, &mut want);
            let t = ToDebug::new(&d);
            let mut w = Full { left: choose(param(4)), got: String::new() };
            let r = if pretty { write!(w, "{:#?}", t) } else { write!(w, "{:?}", t) };
            if r.is_ok() {
                check_for(29, same(want.as_bytes(), w.got.as_bytes()), "a failing writer was ignored");
                reach(1);
            } else {
                check_for(29, w.left == 0, "formatting failed although the writer did not");
                check_for(29, w.got.len() <= want.len() && same(&want.as_bytes()[..w.got.len()], w.got.as_bytes()), "something else was printed before the writer failed");
                reach(2);
            }
        }
        check(live() == live0, "memory is not released");
    }
    // params: levels
    dbg_deep {
        let live0 = live();
        {
            let mut d = D { kind: Kind::Leaf(Atom::U64(1)), name: Name(None) };
            for _ in 0..param(0) {
                let name = Name(if boolean() { Some("N") } else { None });
                d = match choose(3) {
                    0 => D { kind: Kind::Seq(vec![d]), name },
                    1 => D { kind: Kind::Map(vec![(D { kind: Kind::Leaf(Atom::Null), name: Name(None) }, d)]), name },
                    _ => D { kind: Kind::Map(vec![(d, D { kind: Kind::Leaf(Atom::Null), name: Name(None) })]), name },
                };
            }
            judge(&d);
            reach(1);
        }
        check(live() == live0, "memory is not released");
    }
}
