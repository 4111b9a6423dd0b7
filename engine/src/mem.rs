//! Object memory: concrete bytes plus a parallel "meta" word per byte.
use crate::ir::{Module, SHIFT};
use std::rc::Rc;

/// meta: 0 = concrete, 1 = uninitialised, otherwise the id of an 8-bit expression
#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub align: u64,
    pub kind: Kind,
    pub alive: bool,
    pub data: Vec<u8>,
    pub meta: Vec<u32>, // empty = all concrete
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
}

const CH: usize = 64;
type Chunk = Rc<[Option<Rc<Obj>>; CH]>;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Chunk>,
    pub next: u64,
    pub live_heap: u64,
}

#[derive(Debug)]
pub enum MemErr {
    Null,
    Wild(u64),
    Freed(u64),
    Oob(u64, u64, u64),
    ReadOnly,
}

pub fn region(a: u64) -> u64 {
    a >> SHIFT
}
pub fn offset(a: u64) -> u64 {
    a & ((1 << SHIFT) - 1)
}

fn empty_chunk() -> Chunk {
    Rc::new(std::array::from_fn(|_| None))
}

impl Mem {
    pub fn new(m: &Module) -> Mem {
        let mut r = Mem { chunks: vec![], next: m.nregions(), live_heap: 0 };
        let e = empty_chunk();
        while r.chunks.len() * CH <= r.next as usize {
            r.chunks.push(e.clone());
        }
        r
    }
    fn slot(&self, r: u64) -> Option<&Rc<Obj>> {
        let c = self.chunks.get(r as usize / CH)?;
        c[r as usize % CH].as_ref()
    }
    fn slot_mut(&mut self, r: u64) -> &mut Option<Rc<Obj>> {
        while self.chunks.len() * CH <= r as usize {
            self.chunks.push(empty_chunk());
        }
        let c = Rc::make_mut(&mut self.chunks[r as usize / CH]);
        &mut c[r as usize % CH]
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind, zero: bool) -> u64 {
        let r = self.next;
        self.next += 1;
        let n = size as usize;
        let o = Obj { size, align, kind, alive: true, data: vec![0; n], meta: if zero { vec![] } else { vec![1; n] } };
        if kind == Kind::Heap {
            self.live_heap += 1;
        }
        *self.slot_mut(r) = Some(Rc::new(o));
        r << SHIFT
    }
    pub fn kill(&mut self, r: u64) {
        let s = self.slot_mut(r);
        if let Some(o) = s {
            let k = o.kind;
            *s = Some(Rc::new(Obj { size: o.size, align: o.align, kind: k, alive: false, data: vec![], meta: vec![] }));
            if k == Kind::Heap {
                self.live_heap -= 1;
            }
        }
    }
    /// object containing addr, materialising globals on demand
    pub fn get(&mut self, m: &Module, addr: u64) -> Result<&Rc<Obj>, MemErr> {
        let r = region(addr);
        if r == 0 {
            return Err(MemErr::Null);
        }
        if self.slot(r).is_none() {
            self.materialise(m, r)?;
        }
        let o = self.slot(r).unwrap();
        if !o.alive {
            return Err(MemErr::Freed(addr));
        }
        Ok(o)
    }
    fn materialise(&mut self, m: &Module, r: u64) -> Result<(), MemErr> {
        if let Some(g) = m.global_by_region(r) {
            let (b, und) = m.global_bytes(g).map_err(|e| { eprintln!("global {}: {}", m.globals[g as usize].name, e); MemErr::Wild(r << SHIFT) })?.clone();
            let gl = &m.globals[g as usize];
            let meta = if und.iter().any(|x| *x) { und.iter().map(|x| *x as u32).collect() } else { vec![] };
            *self.slot_mut(r) = Some(Rc::new(Obj {
                size: gl.size,
                align: 16,
                kind: if gl.constant { Kind::Const } else { Kind::Global },
                alive: true,
                data: b,
                meta,
            }));
            Ok(())
        } else {
            Err(MemErr::Wild(r << SHIFT))
        }
    }
    pub fn check(&mut self, m: &Module, addr: u64, n: u64) -> Result<&Rc<Obj>, MemErr> {
        let off = offset(addr);
        let o = self.get(m, addr)?;
        if off + n > o.size {
            return Err(MemErr::Oob(off, n, o.size));
        }
        Ok(o)
    }
    pub fn check_mut(&mut self, m: &Module, addr: u64, n: u64) -> Result<&mut Obj, MemErr> {
        let k = self.check(m, addr, n)?.kind;
        if k == Kind::Const {
            return Err(MemErr::ReadOnly);
        }
        Ok(Rc::make_mut(self.slot_mut(region(addr)).as_mut().unwrap()))
    }
}
