//! Generated value trees with instrumented, deliberately entangled
//! participants: user-defined serializables whose emitters hand out values
//! borrowing from scratch space that is replaced at the next call, and sinks
//! that do the same on the deserializing side.  All of it is safe code.
use crate::all::check_for;
use crate::all::sym::*;
use deser::de::{DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, SerializeHandle, SerializerState, StructEmitter};
use deser::{Atom, Descriptor, Error, ErrorKind, Event, Serialize};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;

/// Records the path a participant sees.
#[cfg(feature = "path")]
macro_rules! note {
    ($log:expr, $state:expr) => {
        $log.paths.borrow_mut().push($state.get::<deser_path::Path>().segments().to_vec());
    };
}
#[cfg(not(feature = "path"))]
macro_rules! note {
    ($log:expr, $state:expr) => {};
}

pub enum Node {
    Null,
    Bool(bool),
    U(u64),
    I(i64),
    S(String),
    /// a float, a character or a byte string
    A(Atom<'static>),
    Seq(Vec<Tree>),
    Map(Vec<(Tree, Tree)>),
    Struct(Vec<(String, Tree)>),
}
pub struct Tree {
    pub node: Node,
    pub id: u64,
    pub desc: Desc,
    pub log: Rc<Log>,
}
/// A descriptor owned by the value it describes; its identity is `precision`.
pub struct Desc(Box<usize>);
impl Descriptor for Desc {
    fn precision(&self) -> Option<usize> {
        Some(*self.0)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What {
    Begin,
    Next,
    Finish,
}
#[derive(Clone, Copy)]
pub struct Call {
    pub what: What,
    pub id: u64,
    pub depth: u64,
    /// identity of the innermost container's descriptor (0 = none)
    pub top: u64,
    /// is the participant a container?
    pub cont: bool,
}
#[derive(Default)]
pub struct Log {
    pub calls: RefCell<Vec<Call>>,
    pub next_id: Cell<u64>,
    /// the callback (counted from 1) that fails; 0 = none
    pub fail: Cell<u64>,
    /// the path seen at each callback (with deser-path)
    #[cfg(feature = "path")]
    pub paths: RefCell<Vec<Vec<deser_path::PathSegment>>>,
    /// handle mode: 0 borrowed, 1 boxed borrowing from scratch, 2 borrowed scratch, 3 mixed
    pub mode: Cell<u64>,
}
#[derive(Debug)]
pub struct Marker(pub u64);
impl fmt::Display for Marker {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("marker")
    }
}
impl std::error::Error for Marker {}
pub fn marker_of(e: &Error) -> Option<u64> {
    std::error::Error::source(e).and_then(|s| s.downcast_ref::<Marker>()).map(|m| m.0)
}

impl Log {
    pub fn hit(&self, what: What, id: u64, cont: bool, depth: usize, top: Option<&dyn Descriptor>) -> Result<(), Error> {
        let top = match top {
            None => 0,
            Some(d) => d.precision().unwrap_or(9999) as u64,
        };
        let mut c = self.calls.borrow_mut();
        c.push(Call { what, id, depth: depth as u64, top, cont });
        if c.len() as u64 == self.fail.get() {
            return Err(Error::new(ErrorKind::OutOfRange, "injected").with_source(Marker(self.fail.get())));
        }
        Ok(())
    }
    fn mode_of(&self, i: u64) -> u64 {
        if self.mode.get() == 3 {
            i % 3
        } else {
            self.mode.get()
        }
    }
    pub fn new() -> Rc<Log> {
        Rc::default()
    }
}

/// Lives in its own allocation; reading it after release is a memory error.
pub struct Token(Box<u64>);
impl Token {
    pub fn new(v: u64) -> Token {
        Token(Box::new(v))
    }
    pub fn touch(&self) {
        check(*self.0 != 0, "a released participant was used");
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        self.touch();
        *self.0 = 0;
    }
}

pub struct Gen {
    pub fuel: u64,
    pub depth: u64,
    /// which container kinds occur: bit 0 seq, 1 map, 2 struct
    pub kinds: u64,
    /// leaf kinds: 0 = null only, 1 = null and unsigned, 2 = all
    pub leaves: u64,
    /// map keys: 0 = short strings, 1 = any leaf, 2 = any tree
    pub keys: u64,
    /// numbers of few digits only
    pub small: bool,
    pub log: Rc<Log>,
}
impl Gen {
    pub fn new(fuel: u64, depth: u64) -> Gen {
        Gen { fuel, depth, kinds: 7, leaves: 0, keys: 0, small: false, log: Log::new() }
    }
    pub fn mk(&mut self, node: Node) -> Tree {
        let id = self.log.next_id.get() + 1;
        self.log.next_id.set(id);
        Tree { node, id, desc: Desc(Box::new(id as usize)), log: self.log.clone() }
    }
    pub fn leaf(&mut self) -> Tree {
        let n = match self.leaves {
            0 => Node::Null,
            1 => {
                if boolean() {
                    Node::U(u(64))
                } else {
                    Node::Null
                }
            }
            // the kinds that 2 leaves out
            3 => Node::A(match choose(3) {
                0 => Atom::F64(f64::from_bits(u(64))),
                1 => Atom::Char(character()),
                _ => Atom::Bytes(Cow::Owned(bytes(choose(3) as usize))),
            }),
            _ => match choose(5) {
                0 => Node::Null,
                1 => Node::Bool(boolean()),
                2 => Node::U(if self.small { u(3) } else { u(64) }),
                3 => Node::I(if self.small { 7 - u(4) as i64 } else { u(64) as i64 }),
                _ => Node::S(ascii(1)),
            },
        };
        self.mk(n)
    }
    fn more(&mut self) -> bool {
        self.fuel > 0 && boolean()
    }
    pub fn key(&mut self) -> Tree {
        match self.keys {
            0 => {
                let s = ascii(1);
                self.mk(Node::S(s))
            }
            1 => self.leaf(),
            _ => self.tree(),
        }
    }
    /// A container (or a leaf) drawing nodes from the fuel.
    pub fn tree(&mut self) -> Tree {
        self.fuel = self.fuel.saturating_sub(1);
        if self.depth == 0 {
            return self.leaf();
        }
        let n = [1, 2, 4].iter().filter(|k| self.kinds & **k != 0).count() as u64;
        let c = choose(n + 1);
        if c == n {
            return self.leaf();
        }
        self.depth -= 1;
        let mut left = c;
        let mut kind = 0;
        for k in 0..3 {
            if self.kinds >> k & 1 == 1 {
                if left == 0 {
                    kind = k;
                    break;
                }
                left -= 1;
            }
        }
        let id_first = self.log.next_id.get() + 1;
        self.log.next_id.set(id_first);
        let node = match kind {
            0 => {
                let mut v = Vec::new();
                while self.more() {
                    v.push(self.tree());
                }
                Node::Seq(v)
            }
            1 => {
                let mut v = Vec::new();
                while self.more() {
                    let k = self.key();
                    v.push((k, self.tree()));
                }
                Node::Map(v)
            }
            _ => {
                let mut v = Vec::new();
                while self.more() {
                    v.push((ascii(1), self.tree()));
                }
                Node::Struct(v)
            }
        };
        self.depth += 1;
        Tree { node, id: id_first, desc: Desc(Box::new(id_first as usize)), log: self.log.clone() }
    }
}
/// A string of `n` symbolic printable ASCII characters without quote and backslash.
pub fn ascii(n: u64) -> String {
    let mut v = Vec::new();
    for _ in 0..n {
        let c = byte();
        assume((c >= 0x20) & (c < 0x7f) & (c != b'"') & (c != b'\\'));
        v.push(c);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

// ---------------------------------------------------------------- expected
/// Expected events with the identity of the descriptor they carry (0 = not compared).
pub fn events(t: &Tree, out: &mut Vec<(Event<'static>, u64)>) {
    match &t.node {
        Node::Null => out.push((Event::Atom(Atom::Null), t.id)),
        Node::Bool(v) => out.push((Event::Atom(Atom::Bool(*v)), t.id)),
        Node::U(v) => out.push((Event::Atom(Atom::U64(*v)), t.id)),
        Node::I(v) => out.push((Event::Atom(Atom::I64(*v)), t.id)),
        Node::S(v) => out.push((Event::Atom(Atom::Str(Cow::Owned(v.clone()))), t.id)),
        Node::A(a) => out.push((Event::Atom(a.clone()), t.id)),
        Node::Seq(v) => {
            out.push((Event::SeqStart, t.id));
            for c in v {
                events(c, out);
            }
            out.push((Event::SeqEnd, t.id));
        }
        Node::Map(v) => {
            out.push((Event::MapStart, t.id));
            for (k, c) in v {
                events(k, out);
                events(c, out);
            }
            out.push((Event::MapEnd, t.id));
        }
        Node::Struct(v) => {
            out.push((Event::MapStart, t.id));
            for (k, c) in v {
                out.push((Event::Atom(Atom::Str(Cow::Owned(k.clone()))), 0));
                events(c, out);
            }
            out.push((Event::MapEnd, t.id));
        }
    }
}
pub fn same_atom(a: &Atom, b: &Atom) -> bool {
    match (a, b) {
        (Atom::Null, Atom::Null) => true,
        (Atom::Bool(a), Atom::Bool(b)) => a == b,
        (Atom::U64(a), Atom::U64(b)) => a == b,
        (Atom::I64(a), Atom::I64(b)) => a == b,
        (Atom::F64(a), Atom::F64(b)) => a.to_bits() == b.to_bits(),
        (Atom::Char(a), Atom::Char(b)) => a == b,
        (Atom::Str(a), Atom::Str(b)) => same(a.as_bytes(), b.as_bytes()),
        (Atom::Bytes(a), Atom::Bytes(b)) => same(a, b),
        _ => false,
    }
}
pub fn same_event(a: &Event, b: &Event) -> bool {
    match (a, b) {
        (Event::Atom(a), Event::Atom(b)) => same_atom(a, b),
        (Event::SeqStart, Event::SeqStart) | (Event::SeqEnd, Event::SeqEnd) | (Event::MapStart, Event::MapStart) | (Event::MapEnd, Event::MapEnd) => true,
        _ => false,
    }
}
/// Judges a log of callbacks on its own: every participant begins, is asked for
/// its children only while it is the innermost one and, when `complete`, is
/// finished exactly once, innermost first (C18); depth and innermost
/// description are those of the containers open at that moment (C19).  `base`
/// containers described by `base_top` are open around all of it.  With `inside`
/// a container still counts as open to its own finish.
pub fn audit(log: &Log, base: u64, base_top: u64, inside: bool, complete: bool) {
    let mut open: Vec<u64> = Vec::new();
    for c in log.calls.borrow().iter() {
        let mut depth = base + open.len() as u64;
        let mut top = open.last().copied().unwrap_or(base_top);
        match c.what {
            What::Begin => open.push(c.id),
            What::Next => {
                check_for(18, open.last() == Some(&c.id), "a participant was asked for children while it is not the innermost one");
            }
            What::Finish => {
                check_for(18, open.last() == Some(&c.id), "a participant was finished out of order or more than once");
                open.pop();
                if !(inside && c.cont) {
                    depth = base + open.len() as u64;
                    top = open.last().copied().unwrap_or(base_top);
                }
            }
        }
        check_for(19, c.depth == depth, "a participant was told the wrong depth");
        check_for(19, c.top == top, "a participant was told the wrong innermost description");
    }
    if complete {
        check_for(18, open.is_empty(), "a participant was not told that it is finished");
    }
}

impl Tree {
    pub fn cont(&self) -> bool {
        matches!(self.node, Node::Seq(_) | Node::Map(_) | Node::Struct(_))
    }
    pub fn size(&self) -> u64 {
        match &self.node {
            Node::Seq(v) => 1 + v.iter().map(Tree::size).sum::<u64>(),
            Node::Map(v) => 1 + v.iter().map(|(k, v)| k.size() + v.size()).sum::<u64>(),
            Node::Struct(v) => 1 + v.iter().map(|(_, v)| v.size()).sum::<u64>(),
            _ => 1,
        }
    }
}
// ------------------------------------------------------------- serializing
impl Tree {
    /// `owner` is an owned handle this is serialized through: it lives no
    /// longer than the handle, and everything returned may borrow from it.
    fn chunk<'s>(&'s self, owner: Option<&'s Owner>, state: &SerializerState) -> Result<Chunk<'s>, Error> {
        note!(self.log, state);
        self.log.hit(What::Begin, self.id, self.cont(), state.depth(), state.top_descriptor())?;
        let em = || Em { t: self, i: 0, scratch: None, token: Token::new(7), owner };
        Ok(match &self.node {
            Node::Null => Chunk::Atom(Atom::Null),
            Node::Bool(v) => Chunk::Atom(Atom::Bool(*v)),
            Node::U(v) => Chunk::Atom(Atom::U64(*v)),
            Node::I(v) => Chunk::Atom(Atom::I64(*v)),
            Node::S(v) => Chunk::Atom(Atom::Str(Cow::Borrowed(owner.map_or(v, |o| &o.text)))),
            Node::A(Atom::Bytes(v)) => Chunk::Atom(Atom::Bytes(Cow::Borrowed(v))),
            Node::A(a) => Chunk::Atom(a.clone()),
            Node::Seq(_) => Chunk::Seq(Box::new(em())),
            Node::Map(_) => Chunk::Map(Box::new(em())),
            Node::Struct(_) => Chunk::Struct(Box::new(em())),
        })
    }
}
impl Serialize for Tree {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        self.chunk(None, state)
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        note!(self.log, state);
        self.log.hit(What::Finish, self.id, self.cont(), state.depth(), state.top_descriptor())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.desc
    }
}
/// What an owned handle carries with it.
struct Owner {
    token: Token,
    desc: Desc,
    text: String,
}
/// Emitter: the value handed out may live in, or borrow from, `scratch`, which
/// the next call replaces.
struct Em<'a> {
    t: &'a Tree,
    i: usize,
    scratch: Option<Box<Scratch<'a>>>,
    token: Token,
    owner: Option<&'a Owner>,
}
impl<'a> Drop for Em<'a> {
    fn drop(&mut self) {
        if let Some(o) = self.owner {
            o.token.touch();
        }
    }
}
struct Scratch<'a> {
    value: &'a Tree,
    key: String,
    token: Token,
}
/// Boxed handle borrowing from the emitter's scratch; reads it when dropped.
struct Loan<'b, 'a> {
    scratch: &'b Scratch<'a>,
    own: Owner,
}
impl<'b, 'a> Drop for Loan<'b, 'a> {
    fn drop(&mut self) {
        self.scratch.token.touch();
        self.own.token.touch();
    }
}
impl<'b, 'a> Serialize for Loan<'b, 'a> {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        self.scratch.value.chunk(Some(&self.own), state)
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        self.scratch.token.touch();
        self.scratch.value.finish(state)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.own.desc
    }
}
impl<'a> Serialize for Scratch<'a> {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        self.token.touch();
        self.value.serialize(state)
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        self.token.touch();
        self.value.finish(state)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.value.descriptor()
    }
}
impl<'a> Em<'a> {
    fn enter(&mut self, state: &SerializerState) -> Result<(), Error> {
        self.token.touch();
        if let Some(o) = self.owner {
            o.token.touch();
        }
        // release what the previous value borrowed
        self.scratch = None;
        note!(self.t.log, state);
        self.t.log.hit(What::Next, self.t.id, true, state.depth(), state.top_descriptor())
    }
    fn hand(&mut self, value: &'a Tree, key: &str) -> (Cow<'_, str>, SerializeHandle<'_>) {
        let log = &self.t.log;
        let mode = log.mode_of(self.i as u64);
        let token = Token::new(5);
        self.scratch = Some(Box::new(Scratch { value, key: key.to_string(), token }));
        let s: &Scratch<'a> = self.scratch.as_ref().unwrap();
        let key = if mode == 1 { Cow::Owned(s.key.clone()) } else { Cow::Borrowed(&s.key[..]) };
        let h = match mode {
            0 => SerializeHandle::to(value),
            1 => {
                let text = if let Node::S(t) = &value.node { t.clone() } else { String::new() };
                SerializeHandle::boxed(Loan { scratch: s, own: Owner { token: Token::new(3), desc: Desc(Box::new(value.id as usize)), text } })
            }
            _ => SerializeHandle::to(s),
        };
        (key, h)
    }
}
impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, state: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        self.enter(state)?;
        let t = self.t;
        match &t.node {
            Node::Seq(v) if self.i < v.len() => {
                self.i += 1;
                Ok(Some(self.hand(&v[self.i - 1], "").1))
            }
            _ => Ok(None),
        }
    }
}
impl<'a> MapEmitter for Em<'a> {
    fn next_key(&mut self, state: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        self.enter(state)?;
        let t = self.t;
        match &t.node {
            Node::Map(v) if self.i < v.len() => Ok(Some(self.hand(&v[self.i].0, "").1)),
            _ => Ok(None),
        }
    }
    fn next_value(&mut self, state: &SerializerState) -> Result<SerializeHandle, Error> {
        self.enter(state)?;
        let t = self.t;
        match &t.node {
            Node::Map(v) => {
                self.i += 1;
                Ok(self.hand(&v[self.i - 1].1, "").1)
            }
            _ => unreachable!(),
        }
    }
}
impl<'a> StructEmitter for Em<'a> {
    fn next(&mut self, state: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        self.enter(state)?;
        let t = self.t;
        match &t.node {
            Node::Struct(v) if self.i < v.len() => {
                self.i += 1;
                let (k, c) = &v[self.i - 1];
                Ok(Some(self.hand(c, k)))
            }
            _ => Ok(None),
        }
    }
}

// ----------------------------------------------------------- deserializing
/// An instrumented sink.  Every value gets the next number; a container's
/// children live in, or borrow from, its scratch, which is replaced at the
/// next call.
pub struct Snk {
    pub log: Rc<Log>,
    pub id: u64,
    pub desc: Desc,
    token: Token,
    i: u64,
    child: Option<Box<Snk>>,
    shared: Option<Box<Token>>,
    /// events received, in order, shared by the whole document
    pub seen: Rc<RefCell<Vec<Event<'static>>>>,
    open: u8,
}
impl Snk {
    pub fn new(log: &Rc<Log>, seen: &Rc<RefCell<Vec<Event<'static>>>>) -> Snk {
        let id = log.next_id.get() + 1;
        log.next_id.set(id);
        Snk { log: log.clone(), id, desc: Desc(Box::new(id as usize)), token: Token::new(7), i: 0, child: None, shared: None, seen: seen.clone(), open: 0 }
    }
    fn hit(&self, w: What, state: &DeserializerState) -> Result<(), Error> {
        self.token.touch();
        note!(self.log, state);
        self.log.hit(w, self.id, self.open != 0, state.depth(), state.top_descriptor())
    }
    fn hand(&mut self) -> SinkHandle<'_> {
        let mode = self.log.mode_of(self.i);
        self.i += 1;
        // release what the previous child borrowed
        self.shared = None;
        self.child = None;
        match mode {
            0 => SinkHandle::boxed(Snk::new(&self.log, &self.seen)),
            1 => {
                self.shared = Some(Box::new(Token::new(5)));
                self.child = Some(Box::new(Snk::new(&self.log, &self.seen)));
                SinkHandle::boxed(SnkLoan { inner: self.child.as_mut().unwrap(), shared: self.shared.as_ref().unwrap() })
            }
            _ => {
                self.child = Some(Box::new(Snk::new(&self.log, &self.seen)));
                SinkHandle::to(&mut **self.child.as_mut().unwrap())
            }
        }
    }
}
struct SnkLoan<'a> {
    inner: &'a mut Snk,
    shared: &'a Token,
}
impl<'a> Drop for SnkLoan<'a> {
    fn drop(&mut self) {
        self.shared.touch();
        self.inner.token.touch();
    }
}
impl<'a> Sink for SnkLoan<'a> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.shared.touch();
        self.inner.atom(atom, state)
    }
    fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.inner.map(state)
    }
    fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.inner.seq(state)
    }
    fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.inner.next_key(state)
    }
    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.inner.next_value(state)
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.shared.touch();
        self.inner.finish(state)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.inner.desc
    }
}
impl Sink for Snk {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.hit(What::Begin, state)?;
        self.seen.borrow_mut().push(Event::Atom(atom.to_static()));
        Ok(())
    }
    fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.open = 1;
        self.hit(What::Begin, state)?;
        self.seen.borrow_mut().push(Event::MapStart);
        Ok(())
    }
    fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.open = 2;
        self.hit(What::Begin, state)?;
        self.seen.borrow_mut().push(Event::SeqStart);
        Ok(())
    }
    fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.hit(What::Next, state)?;
        Ok(self.hand())
    }
    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.hit(What::Next, state)?;
        Ok(self.hand())
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.hit(What::Finish, state)?;
        match self.open {
            1 => self.seen.borrow_mut().push(Event::MapEnd),
            2 => self.seen.borrow_mut().push(Event::SeqEnd),
            _ => {}
        }
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.desc
    }
}

// ------------------------------------------- typed values with instrumented sinks
static mut CURRENT: Option<(Rc<Log>, Rc<RefCell<Vec<Event<'static>>>>)> = None;
/// Sets the log used by the sinks of `Inst` until the guard is dropped.
pub struct Install;
pub fn install(log: &Rc<Log>, seen: &Rc<RefCell<Vec<Event<'static>>>>) -> Install {
    unsafe { CURRENT = Some((log.clone(), seen.clone())) }
    Install
}
impl Drop for Install {
    fn drop(&mut self) {
        unsafe { CURRENT = None }
    }
}
pub fn installed() -> (Rc<Log>, Rc<RefCell<Vec<Event<'static>>>>) {
    unsafe { CURRENT.clone().unwrap() }
}
/// A value that accepts anything; its sinks are instrumented.
pub struct Inst(pub u64, pub Token);
impl deser::de::Deserialize for Inst {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        let (log, seen) = installed();
        SinkHandle::boxed(InstSink { slot: out, inner: Snk::new(&log, &seen) })
    }
}
struct InstSink<'a> {
    slot: &'a mut Option<Inst>,
    inner: Snk,
}
impl<'a> Sink for InstSink<'a> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.inner.atom(atom, state)
    }
    fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.inner.map(state)
    }
    fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.inner.seq(state)
    }
    fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.inner.next_key(state)
    }
    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.inner.next_value(state)
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.inner.finish(state)?;
        *self.slot = Some(Inst(self.inner.id, Token::new(3)));
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.inner.desc
    }
}