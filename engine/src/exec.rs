//! The symbolic executor.
use crate::expr::{Arena, FxMap, Op, E};
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::VecDeque;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    A(Rc<Vec<V>>),
    U,
}

#[derive(Clone)]
pub struct Frame {
    pub fid: u32,
    pub body: &'static Body,
    pub regs: Vec<V>,
    pub block: u32,
    pub ip: u32,
    pub allocas: Vec<u64>,
    pub ret_dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct Input {
    pub sym: u32,
    pub w: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    /// byte-wide expressions with a small interval implied by pc: (expr, least, greatest)
    pub bnd: Vec<(E, u32, u32)>,
    pub model: Vec<u128>,
    pub inputs: Vec<Input>,
    pub dec: Vec<(u64, bool)>,
    pub replay: Rc<Vec<(u64, bool)>>,
    pub out: Vec<V>,
    pub steps: u64,
    pub tls_dtors: u32,
    pub max_depth: u32,
    pub peak: u32,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Assume,
    Viol(String, String),
    Unsup(String),
    Steps,
}
type R<T> = Result<T, Stop>;

pub struct Job {
    pub model: Vec<u128>,
    pub dec: Vec<(u64, bool)>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u32, u128)>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub inputs: Vec<(u32, u128)>,
    pub out: Vec<u128>,
}

pub struct Cfg {
    pub entry: String,
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub deadline: Instant,
    pub samples: usize,
    pub seed: u64,
    pub timeout_ms: u32,
    pub threads: usize,
    pub trace: bool,
}

#[derive(Default)]
pub struct Stats {
    pub paths: AtomicU64,
    pub assumed: AtomicU64,
    pub instrs: AtomicU64,
    pub queries: AtomicU64,
    pub cached: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub solver_us: AtomicU64,
    pub forks: AtomicU64,
    pub decisions: AtomicU64,
    pub unexplored: AtomicU64,
    pub max_depth: AtomicU64,
    pub max_syms: AtomicU64,
}

pub struct Shared {
    pub queue: Mutex<VecDeque<Job>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub qlen: AtomicUsize,
    pub stop: AtomicBool,
    pub stats: Stats,
    pub viols: Mutex<Vec<(Violation, u64)>>,
    pub errors: Mutex<Vec<(String, u64)>>,
    pub samples: Mutex<Vec<Sample>>,
    pub reach: Vec<AtomicU64>,
    pub fns: Vec<AtomicBool>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Intr {
    Body,
    Unknown,
    SymBytes,
    SymU,
    SymAssume,
    SymAssert,
    SymReach,
    SymOut,
    SymParam,
    SymLive,
    SymDepth,
    SymPeak,
    SymConcrete,
    Alloc,
    AllocZeroed,
    Dealloc,
    KeyCreate,
    Malloc,
    Realloc,
    NoopAlloc,
    Panic,
    Abort,
    Nop,
    Memcpy,
    Memset,
    Bcmp,
    Strlen,
    HashKeys,
    GetRandom,
    Ctpop,
    Ctlz,
    Cttz,
    Bitreverse,
    Bswap,
    Fshl,
    Fshr,
    Umax,
    Umin,
    Smax,
    Smin,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    Abs,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Fabs,
    IsConst,
    Ucmp,
    Scmp,
    TlsAddr,
    Ident,
    Assume,
    FptosiSat,
    FptouiSat,
    Zero,
    ExpectOk,
}

pub fn classify(name: &str, has_body: bool) -> Intr {
    use Intr::*;
    if let Some(r) = name.strip_prefix("sym_") {
        return match r {
            "bytes" => SymBytes,
            "u" => SymU,
            "assume" => SymAssume,
            "assert" => SymAssert,
            "reach" => SymReach,
            "out" => SymOut,
            "param" => SymParam,
            "live" => SymLive,
            "depth" => SymDepth,
            "peak" => SymPeak,
            "concrete" => SymConcrete,
            _ => Unknown,
        };
    }
    if name.contains("___rust_alloc_zeroed") {
        return AllocZeroed;
    }
    if name.contains("___rust_alloc_error_handler") || name.contains("handle_alloc_error") {
        return Panic;
    }
    if name.contains("___rust_no_alloc_shim") {
        return NoopAlloc;
    }
    if name.contains("___rust_alloc") {
        return Alloc;
    }
    if name.contains("___rust_dealloc") {
        return Dealloc;
    }
    if name.contains("___rust_realloc") {
        return Realloc;
    }
    if name.starts_with("_R") {
        if name.contains("4core9panicking")
            || name.contains("17rust_begin_unwind")
            || name.contains("10rust_panic")
            || name.contains("panic_with_hook")
            || name.contains("11begin_panic")
            || name.contains("13unwrap_failed") && name.contains("4core")
            || name.contains("13expect_failed") && name.contains("4core")
            || name.contains("18panic_access_error")
        {
            return Panic;
        }
        if name.contains("3std7process5abort") || name.contains("14abort_internal") {
            return Abort;
        }
        if name.contains("hashmap_random_keys") {
            return HashKeys;
        }
    }
    if let Some(r) = name.strip_prefix("llvm.") {
        let sw = |p: &str| r.starts_with(p);
        if sw("lifetime") || sw("experimental.noalias") || sw("dbg") || sw("invariant") || sw("prefetch") || sw("donothing") || sw("x86.sse2.pause") {
            return Nop;
        }
        if sw("memcpy") || sw("memmove") {
            return Memcpy;
        }
        if sw("memset") {
            return Memset;
        }
        return if sw("assume") {
            Assume
        } else if sw("ctpop") {
            Ctpop
        } else if sw("ctlz") {
            Ctlz
        } else if sw("cttz") {
            Cttz
        } else if sw("bitreverse") {
            Bitreverse
        } else if sw("bswap") {
            Bswap
        } else if sw("fshl") {
            Fshl
        } else if sw("fshr") {
            Fshr
        } else if sw("umax") {
            Umax
        } else if sw("umin") {
            Umin
        } else if sw("smax") {
            Smax
        } else if sw("smin") {
            Smin
        } else if sw("uadd.sat") {
            UaddSat
        } else if sw("usub.sat") {
            UsubSat
        } else if sw("sadd.sat") {
            SaddSat
        } else if sw("ssub.sat") {
            SsubSat
        } else if sw("abs") {
            Abs
        } else if sw("uadd.with") {
            UaddO
        } else if sw("usub.with") {
            UsubO
        } else if sw("umul.with") {
            UmulO
        } else if sw("sadd.with") {
            SaddO
        } else if sw("ssub.with") {
            SsubO
        } else if sw("smul.with") {
            SmulO
        } else if sw("fabs") {
            Fabs
        } else if sw("is.constant") {
            IsConst
        } else if sw("ucmp") {
            Ucmp
        } else if sw("scmp") {
            Scmp
        } else if sw("threadlocal.address") {
            TlsAddr
        } else if sw("expect") {
            Ident
        } else if sw("trap") || sw("debugtrap") || sw("ubsantrap") {
            Abort
        } else if sw("fptosi.sat") {
            FptosiSat
        } else if sw("fptoui.sat") {
            FptouiSat
        } else {
            Unknown
        };
    }
    match name {
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "bcmp" | "memcmp" => Bcmp,
        "strlen" => Strlen,
        "malloc" => Malloc,
        "pthread_key_create" => KeyCreate,
        "pthread_setspecific" => Zero,
        "abort" => Abort,
        "getrandom" => GetRandom,
        "__cxa_thread_atexit_impl" => Zero,
        _ => {
            if has_body {
                Body
            } else {
                Unknown
            }
        }
    }
}

pub struct Cx {
    pub m: &'static Module,
    pub kinds: Arc<Vec<Intr>>,
    pub ar: Arena,
    pub z3: Z3,
    pub qcache: FxMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    pub sh: Arc<Shared>,
    pub cfg: Arc<Cfg>,
    pub local: Vec<State>,
    pub rng: u64,
    pub nsamples: usize,
    pub seen_done: u64,
    pub slice_buf: Vec<E>,
}

fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsup(s.into()))
}
fn viol<T>(k: &str, s: impl Into<String>) -> R<T> {
    Err(Stop::Viol(k.into(), s.into()))
}

fn is_vec(t: &Ty) -> Option<(u32, &Ty)> {
    match t {
        Ty::Vector(n, t) => Some((*n, t)),
        _ => None,
    }
}

impl Cx {
    pub fn new(m: &'static Module, kinds: Arc<Vec<Intr>>, sh: Arc<Shared>, cfg: Arc<Cfg>, id: u64) -> Cx {
        let z3 = Z3::new(cfg.timeout_ms);
        let seed = cfg.seed;
        Cx {
            m,
            kinds,
            ar: Arena::new(),
            z3,
            qcache: FxMap::default(),
            sh,
            cfg,
            local: vec![],
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (id + 1).wrapping_mul(0xD1B54A32D192ED03),
            nsamples: 0,
            seen_done: 0,
            slice_buf: vec![],
        }
    }

    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ------------------------------------------------------------ values

    #[inline]
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.ar.konst(*c as u128, w),
            V::S(e) => *e,
            V::U => self.ar.konst(0, w),
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    #[inline]
    fn v(&self, e: E) -> V {
        let n = self.ar.nodes[e as usize];
        if n.op == Op::Const && n.w <= 64 {
            V::C(self.ar.get(e).unwrap() as u64)
        } else {
            V::S(e)
        }
    }

    fn konst_v(&mut self, t: &Ty, k: &Const) -> V {
        match k {
            Const::Int(v, w) => {
                if *w <= 64 {
                    V::C(*v as u64)
                } else {
                    let e = self.ar.konst(*v, *w);
                    V::S(e)
                }
            }
            Const::Undef => match t {
                Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => {
                    let n = t.nelems();
                    let mut v = vec![];
                    for i in 0..n {
                        let (_, et) = t.elem(i);
                        v.push(self.konst_v(&et, k));
                    }
                    V::A(Rc::new(v))
                }
                _ => V::U,
            },
            Const::Zero => match t {
                Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => {
                    let n = t.nelems();
                    let mut v = vec![];
                    for i in 0..n {
                        let (_, et) = t.elem(i);
                        v.push(self.konst_v(&et, k));
                    }
                    V::A(Rc::new(v))
                }
                _ => {
                    if t.bits() <= 64 {
                        V::C(0)
                    } else {
                        let e = self.ar.konst(0, t.bits());
                        V::S(e)
                    }
                }
            },
            Const::Agg(es) => {
                let v = es.iter().map(|(t, k)| self.konst_v(t, k)).collect();
                V::A(Rc::new(v))
            }
            Const::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
        }
    }

    #[inline]
    fn opnd(&mut self, st: &State, t: &Ty, o: &Opnd) -> V {
        match o {
            Opnd::Reg(r) => {
                let v = st.frames.last().unwrap().regs[*r as usize].clone();
                if let V::S(e) = v {
                    if !st.bnd.is_empty() {
                        let n = self.ar.n(e);
                        if n.w == 8 {
                            if let Some(y) = self.tighten(st, e) {
                                return self.v(y);
                            }
                        } else if n.op == Op::ZExt && self.ar.w(n.a) == 8 {
                            if let Some(y) = self.tighten(st, n.a) {
                                let y = self.ar.zext(y, n.w as u32);
                                return self.v(y);
                            }
                        }
                    }
                }
                v
            }
            Opnd::C(c) => {
                if let Ty::Int(w) = t {
                    if *w > 64 {
                        let e = self.ar.konst(*c as u128, *w);
                        return V::S(e);
                    }
                }
                V::C(*c)
            }
            Opnd::K(k) => self.konst_v(t, k),
            Opnd::Undef => self.konst_v(t, &Const::Undef),
        }
    }

    // ------------------------------------------------------------ solver

    /// is pc && cond satisfiable?  (pc itself is satisfiable)
    fn query(&mut self, pc: &[E], cond: E) -> Option<Option<Rc<Vec<(u32, u128)>>>> {
        let mut s = self.ar.supp[cond as usize];
        // independence slice
        let mut key = std::mem::take(&mut self.slice_buf);
        key.clear();
        loop {
            let s0 = s;
            key.clear();
            for &e in pc {
                let es = self.ar.supp[e as usize];
                if es & s != 0 {
                    key.push(e);
                    s |= es;
                }
            }
            if s == s0 {
                break;
            }
        }
        key.sort_unstable();
        key.dedup();
        key.push(cond);
        if let Some(r) = self.qcache.get(&key) {
            self.sh.stats.cached.fetch_add(1, Ordering::Relaxed);
            let r = r.clone();
            self.slice_buf = key;
            return Some(r);
        }
        let t0 = Instant::now();
        let mut out = vec![];
        let r = self.z3.check(&self.ar, &key, s, &mut out);
        if self.cfg.trace && t0.elapsed().as_millis() > 40 {
            eprintln!("slow query {:?} {:?}: {}", t0.elapsed(), r, self.ar.show(cond, 12));
            for e in &key[..key.len() - 1] {
                eprintln!("     with {}", self.ar.show(*e, 6));
            }
        }
        let st = &self.sh.stats;
        st.queries.fetch_add(1, Ordering::Relaxed);
        st.solver_us.fetch_add(t0.elapsed().as_micros() as u64, Ordering::Relaxed);
        let res = match r {
            Res::Sat => {
                st.sat.fetch_add(1, Ordering::Relaxed);
                Some(Rc::new(out))
            }
            Res::Unsat => {
                st.unsat.fetch_add(1, Ordering::Relaxed);
                None
            }
            Res::Unknown => {
                st.unknown.fetch_add(1, Ordering::Relaxed);
                self.slice_buf = key;
                return None;
            }
        };
        self.qcache.insert(key.clone(), res.clone());
        self.slice_buf = key;
        Some(res)
    }

    pub fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        self.branch_tag(st, c, 0)
    }

    fn known(&mut self, st: &State, c: E) -> Option<bool> {
        if let Some(v) = self.ar.get(c) {
            return Some(v != 0);
        }
        let nc = self.ar.not(c);
        for &p in st.pc.iter().rev() {
            if p == c {
                return Some(true);
            }
            if p == nc {
                return Some(false);
            }
        }
        None
    }

    fn assume_pc(&mut self, st: &mut State, c: E) {
        st.pc.push(c);
        self.learn(st, c, 0);
    }

    /// base expression and added constant of a byte-wide expression
    fn base8(&self, e: E) -> (E, u32) {
        let n = self.ar.n(e);
        if n.op == Op::Add {
            if let Some(c) = self.ar.get(n.b) {
                return (n.a, c as u32);
            }
        }
        (e, 0)
    }

    /// the byte-wide expression e with the interval known for it on this path
    fn tighten(&mut self, st: &State, e: E) -> Option<E> {
        let op = self.ar.n(e).op;
        if op == Op::Bounded || op == Op::Const {
            return None;
        }
        let (b, c) = self.base8(e);
        let &(_, lo, hi) = st.bnd.iter().find(|p| p.0 == b)?;
        let (l, h) = ((lo + c) & 255, (hi + c) & 255);
        if l > h {
            return None;
        }
        if l == h {
            return Some(self.ar.konst(l as u128, 8));
        }
        Some(self.ar.bounded(e, l, h))
    }

    /// record small intervals of byte-wide expressions implied by a path constraint
    fn learn(&mut self, st: &mut State, c: E, d: u32) {
        let n = self.ar.n(c);
        let (x, k0, k1) = match n.op {
            Op::And if d < 8 => {
                self.learn(st, n.a, d + 1);
                self.learn(st, n.b, d + 1);
                return;
            }
            Op::Ult => match self.ar.get(n.b) {
                Some(k) if k > 0 => (n.a, 0, k - 1),
                _ => return,
            },
            Op::Ule => match self.ar.get(n.b) {
                Some(k) => (n.a, 0, k),
                _ => return,
            },
            Op::Eq => match (self.ar.get(n.a), self.ar.get(n.b)) {
                (_, Some(k)) => (n.a, k, k),
                (Some(k), _) => (n.b, k, k),
                _ => return,
            },
            _ => return,
        };
        let m = self.ar.n(x);
        if m.w != 8 || k1 - k0 > 15 || m.op == Op::Bounded {
            return;
        }
        let (b, add) = self.base8(x);
        let (lo, hi) = ((k0 as u32).wrapping_sub(add) & 255, (k1 as u32).wrapping_sub(add) & 255);
        if lo > hi {
            return;
        }
        let ur = self.ar.urange(b);
        if ur.0 >= lo as u128 && ur.1 <= hi as u128 {
            return;
        }
        match st.bnd.iter_mut().find(|p| p.0 == b) {
            Some(p) => {
                // both hold: intersect
                p.1 = p.1.max(lo);
                p.2 = p.2.min(hi);
            }
            None => st.bnd.push((b, lo, hi)),
        }
    }

    fn branch_tag(&mut self, st: &mut State, c: E, tag: u64) -> R<bool> {
        if let Some(b) = self.known(st, c) {
            return Ok(b);
        }
        let nc = self.ar.not(c);
        let v = self.ar.eval(c, &st.model) != 0;
        if st.dec.len() < st.replay.len() {
            if st.replay[st.dec.len()] != (tag, v) {
                return unsup("replay divergence");
            }
        } else {
            let other = if v { nc } else { c };
            self.sh.stats.decisions.fetch_add(1, Ordering::Relaxed);
            match self.query(&st.pc, other) {
                Some(Some(m)) => {
                    let mut s2 = st.clone();
                    for (i, x) in m.iter() {
                        if s2.model.len() <= *i as usize {
                            s2.model.resize(*i as usize + 1, 0);
                        }
                        s2.model[*i as usize] = *x;
                    }
                    self.assume_pc(&mut s2, other);
                    s2.dec.push((tag, !v));
                    self.sh.stats.forks.fetch_add(1, Ordering::Relaxed);
                    self.local.push(s2);
                }
                Some(None) => {}
                None => {
                    self.error("solver returned unknown".into());
                }
            }
        }
        st.dec.push((tag, v));
        let holds = if v { c } else { nc };
        self.assume_pc(st, holds);
        Ok(v)
    }

    fn next_tag(&self, st: &State) -> Option<u64> {
        if st.dec.len() < st.replay.len() {
            Some(st.replay[st.dec.len()].0)
        } else {
            None
        }
    }

    /// pick a concrete value for e, forking over all feasible ones
    fn concretize(&mut self, st: &mut State, e: E) -> R<u64> {
        if let Some(v) = self.ar.get(e) {
            return Ok(v as u64);
        }
        let w = self.ar.w(e);
        loop {
            let v = self.ar.eval(e, &st.model);
            let k = self.ar.konst(v, w);
            let c = self.ar.cmp(Op::Eq, e, k);
            if self.known(st, c) == Some(true) {
                return Ok(v as u64);
            }
            let t = self.next_tag(st).unwrap_or(v as u64);
            let k = self.ar.konst(t as u128, w);
            let c = self.ar.cmp(Op::Eq, e, k);
            if self.branch_tag(st, c, t)? {
                return Ok(t);
            }
        }
    }
    fn conc_v(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => self.concretize(st, *e),
            V::U => viol("uninit", "use of uninitialised value"),
            V::A(_) => unsup("aggregate where scalar expected"),
        }
    }

    // ------------------------------------------------------------ memory

    fn memerr<T>(&self, e: MemErr) -> R<T> {
        match e {
            MemErr::Null => viol("memory", "null pointer dereference"),
            MemErr::Wild(a) => viol("memory", format!("wild pointer {:#x}", a)),
            MemErr::Freed(_) => viol("memory", "use after free / after scope"),
            MemErr::Oob(o, n, s) => viol("memory", format!("out-of-bounds access of {} bytes at offset {} of a {}-byte object", n, o, s)),
            MemErr::ReadOnly => viol("memory", "write to constant memory"),
        }
    }

    /// Resolve an address operand for an access of n bytes: forks until the object is fixed and
    /// the access is in bounds. Returns a possibly symbolic address within one object.
    fn resolve(&mut self, st: &mut State, p: &V, n: u64) -> R<Result<u64, (E, u64)>> {
        match p {
            V::C(a) => Ok(Ok(*a)),
            V::U => viol("uninit", "use of an uninitialised pointer"),
            V::A(_) => unsup("aggregate pointer"),
            V::S(e) => {
                let e = *e;
                let hi = self.ar.extract(e, SHIFT, 64 - SHIFT);
                let r = self.concretize(st, hi)?;
                let lo = self.ar.extract(e, 0, SHIFT);
                if let Some(o) = self.ar.get(lo) {
                    return Ok(Ok((r << SHIFT) | o as u64));
                }
                let size = match st.mem.get(self.m, r << SHIFT) {
                    Ok(o) => o.size,
                    Err(x) => return self.memerr(x),
                };
                if size < n {
                    return viol("memory", "out-of-bounds access (symbolic offset)");
                }
                let lim = self.ar.konst((size - n) as u128, SHIFT);
                let inb = self.ar.cmp(Op::Ule, lo, lim);
                if !self.branch(st, inb)? {
                    return viol("memory", format!("out-of-bounds access of {} bytes of a {}-byte object (symbolic offset)", n, size));
                }
                Ok(Err((e, r)))
            }
        }
    }

    fn tz(&self, e: E) -> u32 {
        let n = self.ar.n(e);
        match n.op {
            Op::Const => self.ar.get(e).map(|v| if v == 0 { n.w as u32 } else { v.trailing_zeros() }).unwrap(),
            Op::Concat => {
                let l = self.tz(n.b);
                if l >= self.ar.w(n.b) {
                    self.ar.w(n.b) + self.tz(n.a)
                } else {
                    l
                }
            }
            Op::ZExt | Op::SExt => self.tz(n.a).min(self.ar.w(n.a)),
            Op::Add | Op::Or | Op::Sub => self.tz(n.a).min(self.tz(n.b)),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(n.w as u32),
            _ => 0,
        }
    }

    /// `e` (64 bits wide) as a constant plus the rest.
    fn split_const(&mut self, e: E) -> (u64, E) {
        let n = self.ar.n(e);
        match n.op {
            Op::Add => {
                if let Some(k) = self.ar.get(n.b) {
                    let (k2, r) = self.split_const(n.a);
                    return ((k as u64).wrapping_add(k2), r);
                }
            }
            Op::ZExt => {
                let m = self.ar.n(n.a);
                if m.op == Op::Add {
                    if let Some(k) = self.ar.get(m.b) {
                        // no overflow in the narrow addition
                        if self.ar.urange(m.a).1 + k < 1u128 << m.w {
                            let r = self.ar.zext(m.a, 64);
                            return (k as u64, r);
                        }
                    }
                }
            }
            _ => {}
        }
        (0, e)
    }

    fn load_scalar(&mut self, st: &mut State, p: &V, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        let a = match self.resolve(st, p, n)? {
            Ok(a) => a,
            Err((e, r)) => {
                // symbolic offset inside one object: table if concrete, else fork per address
                let obj = match st.mem.get(self.m, r << SHIFT) {
                    Ok(o) => o.clone(),
                    Err(x) => return self.memerr(x),
                };
                if (obj.meta.is_empty() || obj.meta.iter().all(|m| *m == 0)) && obj.size <= 1 << 16 && w <= 128 && obj.kind == Kind::Const {
                    let (k, rest) = self.split_const(e);
                    let (base, idx) = if k >> SHIFT == r && offset(k) < obj.size {
                        (k, rest)
                    } else {
                        let b = self.ar.konst((r << SHIFT) as u128, 64);
                        (r << SHIFT, self.ar.bin(Op::Sub, e, b))
                    };
                    let off = offset(base);
                    let s = self.tz(idx).min(6);
                    let stride = 1u64 << s;
                    // idx = stride * j, 0 <= off + idx <= size - n. (idx may be "negative" only if off > 0)
                    let cnt = (obj.size - n - off) / stride + 1;
                    let bits = (64 - (cnt - 1).leading_zeros()).max(1);
                    // make sure idx itself is in 0..cnt*stride (else fall back)
                    let lim = self.ar.konst(((cnt - 1) * stride) as u128, 64);
                    let ok = self.ar.cmp(Op::Ule, idx, lim);
                    let fits = match self.known(st, ok) {
                        Some(b) => b,
                        None => {
                            let nok = self.ar.not(ok);
                            matches!(self.query(&st.pc, nok), Some(None))
                        }
                    };
                    if fits {
                        let data = &obj.data;
                        let t = self.ar.table(
                            (base, cnt, stride as u32, w),
                            || {
                                (0..cnt)
                                    .map(|j| {
                                        let o = (off + j * stride) as usize;
                                        let mut v = 0u128;
                                        for k in (0..n as usize).rev() {
                                            v = v << 8 | data[o + k] as u128;
                                        }
                                        mask(v, w)
                                    })
                                    .collect()
                            },
                            w,
                        );
                        let j = self.ar.extract(idx, s, bits);
                        let r = match self.ar.decimal_table(t, j) {
                            Some(r) => r,
                            None => self.ar.mk_table(t, j),
                        };
                        return Ok(self.v(r));
                    }
                }
                self.concretize(st, e)?
            }
        };
        let obj = match st.mem.check(self.m, a, n) {
            Ok(o) => o,
            Err(x) => return self.memerr(x),
        };
        let o = offset(a) as usize;
        let nn = n as usize;
        let conc = obj.meta.is_empty() || obj.meta[o..o + nn].iter().all(|m| *m == 0);
        if conc {
            if w <= 64 {
                let mut v = 0u64;
                for k in (0..nn).rev() {
                    v = v << 8 | obj.data[o + k] as u64;
                }
                return Ok(V::C(if w < 64 { v & ((1u64 << w) - 1) } else { v }));
            }
            let mut v = 0u128;
            for k in (0..nn).rev() {
                v = v << 8 | obj.data[o + k] as u128;
            }
            let e = self.ar.konst(v, w);
            return Ok(V::S(e));
        }
        if obj.meta[o..o + nn].iter().all(|m| *m == 1) {
            return Ok(V::U);
        }
        let obj = obj.clone();
        let mut acc: Option<E> = None;
        for k in 0..nn {
            let m = obj.meta[o + k];
            let b = match m {
                0 => self.ar.konst(obj.data[o + k] as u128, 8),
                1 => self.ar.konst(0, 8),
                e => e,
            };
            acc = Some(match acc {
                None => b,
                Some(x) => self.ar.concat(b, x),
            });
        }
        let x = acc.unwrap();
        let x = if self.ar.w(x) > w { self.ar.extract(x, 0, w) } else { x };
        Ok(self.v(x))
    }

    fn addv(&mut self, p: &V, off: u64) -> V {
        match p {
            V::C(a) => V::C(a.wrapping_add(off)),
            V::S(e) => {
                let k = self.ar.konst(off as u128, 64);
                let r = self.ar.bin(Op::Add, *e, k);
                self.v(r)
            }
            x => x.clone(),
        }
    }

    fn load(&mut self, st: &mut State, p: &V, t: &Ty) -> R<V> {
        match t {
            Ty::Array(..) | Ty::Struct(..) => {
                let mut v = vec![];
                for i in 0..t.nelems() {
                    let (o, et) = t.elem(i);
                    let q = self.addv(p, o);
                    v.push(self.load(st, &q, &et)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vector(n, et) => {
                let ew = et.bits();
                if ew % 8 != 0 {
                    let x = self.load_scalar(st, p, n * ew)?;
                    return self.split_vec(&x, *n, ew);
                }
                let mut v = vec![];
                for i in 0..*n as u64 {
                    let q = self.addv(p, i * (ew as u64 / 8));
                    v.push(self.load_scalar(st, &q, ew)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => self.load_scalar(st, p, t.bits()),
        }
    }

    fn split_vec(&mut self, x: &V, n: u32, ew: u32) -> R<V> {
        if let V::U = x {
            return Ok(V::A(Rc::new(vec![V::U; n as usize])));
        }
        let e = self.e(x, n * ew);
        let mut v = vec![];
        for i in 0..n {
            let y = self.ar.extract(e, i * ew, ew);
            v.push(self.v(y));
        }
        Ok(V::A(Rc::new(v)))
    }
    fn join_vec(&mut self, x: &V, ew: u32) -> V {
        let V::A(xs) = x else { return x.clone() };
        if xs.iter().all(|x| matches!(x, V::U)) {
            return V::U;
        }
        let mut acc: Option<E> = None;
        for y in xs.iter() {
            let b = self.e(y, ew);
            acc = Some(match acc {
                None => b,
                Some(a) => self.ar.concat(b, a),
            });
        }
        self.v(acc.unwrap())
    }

    fn store_scalar(&mut self, st: &mut State, p: &V, x: &V, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        let a = match self.resolve(st, p, n)? {
            Ok(a) => a,
            Err((e, _)) => self.concretize(st, e)?,
        };
        let nn = n as usize;
        let o = offset(a) as usize;
        let m = self.m;
        let obj = match st.mem.check_mut(m, a, n) {
            Ok(o) => o,
            Err(x) => return self.memerr(x),
        };
        match x {
            V::C(c) => {
                for k in 0..nn {
                    obj.data[o + k] = if k < 8 { (c >> (8 * k)) as u8 } else { 0 };
                }
                if !obj.meta.is_empty() {
                    obj.meta[o..o + nn].fill(0);
                }
            }
            V::U => {
                if obj.meta.is_empty() {
                    obj.meta = vec![0; obj.size as usize];
                }
                obj.meta[o..o + nn].fill(1);
            }
            V::S(e) => {
                let e = if w % 8 != 0 { self.ar.zext(*e, (n * 8) as u32) } else { *e };
                if obj.meta.is_empty() {
                    obj.meta = vec![0; obj.size as usize];
                }
                for k in 0..nn {
                    let b = self.ar.extract(e, 8 * k as u32, 8);
                    match self.ar.get(b) {
                        Some(v) => {
                            obj.data[o + k] = v as u8;
                            obj.meta[o + k] = 0;
                        }
                        None => {
                            obj.meta[o + k] = b;
                        }
                    }
                }
            }
            V::A(_) => return unsup("aggregate scalar store"),
        }
        Ok(())
    }

    fn store(&mut self, st: &mut State, p: &V, x: &V, t: &Ty) -> R<()> {
        match t {
            Ty::Array(..) | Ty::Struct(..) => {
                // resolve a symbolic pointer once, before mutating
                let p = if let V::S(_) = p { V::C(self.conc_v(st, p)?) } else { p.clone() };
                let V::A(xs) = x else {
                    if let V::U = x {
                        return Ok(());
                    }
                    return unsup("scalar aggregate store");
                };
                for i in 0..t.nelems() {
                    let (o, et) = t.elem(i);
                    let q = self.addv(&p, o);
                    self.store(st, &q, &xs[i as usize].clone(), &et)?;
                }
                Ok(())
            }
            Ty::Vector(n, et) => {
                let ew = et.bits();
                if ew % 8 != 0 {
                    let y = self.join_vec(x, ew);
                    return self.store_scalar(st, p, &y, n * ew);
                }
                let p = if let V::S(_) = p { V::C(self.conc_v(st, p)?) } else { p.clone() };
                let V::A(xs) = x else { return unsup("vector store") };
                for i in 0..*n as u64 {
                    let q = self.addv(&p, i * (ew as u64 / 8));
                    self.store_scalar(st, &q, &xs[i as usize].clone(), ew)?;
                }
                Ok(())
            }
            _ => self.store_scalar(st, p, x, t.bits()),
        }
    }

    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let m = self.m;
        let src = match st.mem.check(m, s, n) {
            Ok(o) => o.clone(),
            Err(x) => return self.memerr(x),
        };
        let (so, n) = (offset(s) as usize, n as usize);
        let dst = match st.mem.check_mut(m, d, n as u64) {
            Ok(o) => o,
            Err(x) => return self.memerr(x),
        };
        let dof = offset(d) as usize;
        dst.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        if src.meta.is_empty() {
            if !dst.meta.is_empty() {
                dst.meta[dof..dof + n].fill(0);
            }
        } else {
            if dst.meta.is_empty() {
                dst.meta = vec![0; dst.size as usize];
            }
            dst.meta[dof..dof + n].copy_from_slice(&src.meta[so..so + n]);
        }
        Ok(())
    }

    fn byte_at(&mut self, o: &Obj, i: usize) -> R<E> {
        let m = if o.meta.is_empty() { 0 } else { o.meta[i] };
        match m {
            0 => Ok(self.ar.konst(o.data[i] as u128, 8)),
            1 => viol("uninit", "comparison reads uninitialised memory"),
            e => Ok(e),
        }
    }

    // ------------------------------------------------------------ arithmetic

    fn bin1(&mut self, st: &mut State, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        use BinOp::*;
        if w <= 64 {
            if let (V::C(x), V::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                let r = match op {
                    Add => x.wrapping_add(y),
                    Sub => x.wrapping_sub(y),
                    Mul => x.wrapping_mul(y),
                    And => x & y,
                    Or => x | y,
                    Xor => x ^ y,
                    Shl => {
                        if y >= w as u64 {
                            return Ok(V::U);
                        } else {
                            x << y
                        }
                    }
                    LShr => {
                        if y >= w as u64 {
                            return Ok(V::U);
                        } else {
                            x >> y
                        }
                    }
                    AShr => {
                        if y >= w as u64 {
                            return Ok(V::U);
                        } else {
                            (sx(x) >> y) as u64
                        }
                    }
                    UDiv | URem | SDiv | SRem => {
                        if y == 0 {
                            return viol("ub", "division by zero");
                        }
                        match op {
                            UDiv => x / y,
                            URem => x % y,
                            SDiv => sx(x).wrapping_div(sx(y)) as u64,
                            _ => sx(x).wrapping_rem(sx(y)) as u64,
                        }
                    }
                    FAdd | FSub | FMul | FDiv | FRem => {
                        if w == 64 {
                            let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                            match op {
                                FAdd => p + q,
                                FSub => p - q,
                                FMul => p * q,
                                FDiv => p / q,
                                _ => p % q,
                            }
                            .to_bits()
                        } else {
                            let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            match op {
                                FAdd => p + q,
                                FSub => p - q,
                                FMul => p * q,
                                FDiv => p / q,
                                _ => p % q,
                            }
                            .to_bits() as u64
                        }
                    }
                };
                return Ok(V::C(r & m));
            }
        }
        if let (V::U, o) | (o, V::U) = (a, b) {
            match (op, o) {
                (And, V::C(0)) => return Ok(V::C(0)),
                (Mul, V::C(0)) => return Ok(V::C(0)),
                // fields packed into one integer: the undefined ones are taken as 0,
                // as for loads that span them
                (Or, V::C(_) | V::S(_)) => return Ok(o.clone()),
                _ => return Ok(V::U),
            }
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let o = match op {
            Add => Op::Add,
            Sub => Op::Sub,
            Mul => Op::Mul,
            And => Op::And,
            Or => Op::Or,
            Xor => Op::Xor,
            Shl => Op::Shl,
            LShr => Op::LShr,
            AShr => Op::AShr,
            UDiv | URem | SDiv | SRem => {
                let z = self.ar.konst(0, w);
                let c = self.ar.cmp(Op::Eq, y, z);
                if self.branch(st, c)? {
                    return viol("ub", "division by zero");
                }
                match op {
                    UDiv => Op::UDiv,
                    URem => Op::URem,
                    SDiv => Op::SDiv,
                    _ => Op::SRem,
                }
            }
            FAdd | FSub | FMul | FDiv => {
                let f = match op {
                    FAdd => Op::FAdd,
                    FSub => Op::FSub,
                    FMul => Op::FMul,
                    _ => Op::FDiv,
                };
                let r = self.ar.fp2(f, x, y);
                return Ok(self.v(r));
            }
            FRem => return unsup("symbolic frem"),
        };
        let r = self.ar.bin(o, x, y);
        Ok(self.v(r))
    }

    fn map2(&mut self, a: &V, b: &V, n: u32, f: &mut dyn FnMut(&mut Cx, &V, &V) -> R<V>) -> R<V> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n as usize {
            let x = match a {
                V::A(x) => x[i].clone(),
                _ => V::U,
            };
            let y = match b {
                V::A(x) => x[i].clone(),
                _ => V::U,
            };
            v.push(f(self, &x, &y)?);
        }
        Ok(V::A(Rc::new(v)))
    }

    fn icmp1(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        use Pred::*;
        if w <= 64 {
            if let (V::C(x), V::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                let r = match p {
                    Eq => x == y,
                    Ne => x != y,
                    Ult => x < y,
                    Ule => x <= y,
                    Ugt => x > y,
                    Uge => x >= y,
                    Slt => sx(x) < sx(y),
                    Sle => sx(x) <= sx(y),
                    Sgt => sx(x) > sx(y),
                    Sge => sx(x) >= sx(y),
                };
                return V::C(r as u64);
            }
        }
        if matches!(a, V::U) || matches!(b, V::U) {
            return V::U;
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Eq => self.ar.cmp(Op::Eq, x, y),
            Ne => {
                let r = self.ar.cmp(Op::Eq, x, y);
                self.ar.not(r)
            }
            Ult => self.ar.cmp(Op::Ult, x, y),
            Ule => self.ar.cmp(Op::Ule, x, y),
            Ugt => self.ar.cmp(Op::Ult, y, x),
            Uge => self.ar.cmp(Op::Ule, y, x),
            Slt => self.ar.cmp(Op::Slt, x, y),
            Sle => self.ar.cmp(Op::Sle, x, y),
            Sgt => self.ar.cmp(Op::Slt, y, x),
            Sge => self.ar.cmp(Op::Sle, y, x),
        };
        self.v(r)
    }

    fn fcmp1(&mut self, p: &str, w: u32, a: &V, b: &V) -> R<V> {
        if matches!(a, V::U) || matches!(b, V::U) {
            return Ok(V::U);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let uno = self.ar.fcmp(Op::FUno, x, y);
        let base = match &p[1..] {
            "eq" => self.ar.fcmp(Op::FEq, x, y),
            "ne" => {
                let r = self.ar.fcmp(Op::FEq, x, y);
                self.ar.not(r)
            }
            "lt" => self.ar.fcmp(Op::FLt, x, y),
            "le" => self.ar.fcmp(Op::FLe, x, y),
            "gt" => self.ar.fcmp(Op::FLt, y, x),
            "ge" => self.ar.fcmp(Op::FLe, y, x),
            _ => match p {
                "ord" => {
                    let r = self.ar.not(uno);
                    return Ok(self.v(r));
                }
                "uno" => return Ok(self.v(uno)),
                "true" => return Ok(V::C(1)),
                "false" => return Ok(V::C(0)),
                _ => return unsup(format!("fcmp {}", p)),
            },
        };
        let r = if p.starts_with('o') {
            let n = self.ar.not(uno);
            self.ar.and(base, n)
        } else {
            self.ar.or(base, uno)
        };
        Ok(self.v(r))
    }

    fn cast1(&mut self, k: CastOp, fw: u32, tw: u32, a: &V) -> R<V> {
        use CastOp::*;
        if let V::U = a {
            return Ok(V::U);
        }
        if let V::C(x) = a {
            if tw <= 64 && fw <= 64 {
                let m = if tw == 64 { u64::MAX } else { (1u64 << tw) - 1 };
                let sx = |v: u64| ((v << (64 - fw)) as i64) >> (64 - fw);
                match k {
                    Trunc | ZExt | Bit => return Ok(V::C(x & m)),
                    SExt => return Ok(V::C(sx(*x) as u64 & m)),
                    _ => {}
                }
            }
        }
        let e = self.e(a, fw);
        let r = match k {
            Trunc | ZExt | Bit => {
                if tw == fw {
                    e
                } else if tw < fw {
                    self.ar.extract(e, 0, tw)
                } else {
                    self.ar.zext(e, tw)
                }
            }
            SExt => self.ar.sext(e, tw),
            UIToFP => self.ar.conv(Op::UIToFP, e, tw),
            SIToFP => self.ar.conv(Op::SIToFP, e, tw),
            FPToUI => self.ar.conv(Op::FPToUIsat, e, tw),
            FPToSI => self.ar.conv(Op::FPToSIsat, e, tw),
            FPExt => self.ar.conv(Op::FPExt, e, tw),
            FPTrunc => self.ar.conv(Op::FPTrunc, e, tw),
        };
        Ok(self.v(r))
    }

    fn select1(&mut self, st: &mut State, c: &V, t: &Ty, a: &V, b: &V) -> R<V> {
        match c {
            V::C(x) => Ok(if *x != 0 { a.clone() } else { b.clone() }),
            V::U => {
                if let (V::C(x), V::C(y)) = (a, b) {
                    if x == y {
                        return Ok(a.clone());
                    }
                }
                Ok(V::U)
            }
            V::S(e) => {
                let e = *e;
                if let Some(k) = self.known(st, e) {
                    return Ok(if k { a.clone() } else { b.clone() });
                }
                match (a, b) {
                    (V::U, _) => return Ok(b.clone()),
                    (_, V::U) => return Ok(a.clone()),
                    (V::A(x), V::A(y)) => {
                        let (x, y) = (x.clone(), y.clone());
                        let mut v = vec![];
                        for i in 0..x.len() {
                            let (_, et) = t.elem(i as u64);
                            v.push(self.select1(st, c, &et, &x[i], &y[i])?);
                        }
                        return Ok(V::A(Rc::new(v)));
                    }
                    (V::C(x), V::C(y)) if x == y => return Ok(a.clone()),
                    _ => {}
                }
                if *t == Ty::Ptr {
                    return Ok(if self.branch(st, e)? { a.clone() } else { b.clone() });
                }
                let w = t.bits();
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.ar.ite(e, x, y);
                Ok(self.v(r))
            }
            V::A(_) => unsup("select cond"),
        }
    }

    fn set(&mut self, st: &mut State, dst: u32, v: V) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.regs[dst as usize] = v;
        f.ip += 1;
    }
    fn adv(&mut self, st: &mut State) {
        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last().unwrap();
        let body = fr.body;
        let from = fr.block;
        let b = &body.blocks[to as usize];
        let mut vals: Vec<(u32, V)> = Vec::new();
        for p in &b.phis {
            let o = &p.inc.iter().find(|(bb, _)| *bb == from).expect("phi edge").1;
            let v = self.opnd(st, &p.ty, o);
            vals.push((p.dst, v));
        }
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        for (d, v) in vals {
            f.regs[d as usize] = v;
        }
        f.block = to;
        f.ip = 0;
    }

    fn truth(&mut self, st: &mut State, c: &V) -> R<bool> {
        match c {
            V::C(x) => Ok(*x != 0),
            V::S(e) => self.branch(st, *e),
            V::U => {
                if std::env::var_os("SYMEX_DEBUG").is_some() {
                    let f = st.frames.last().unwrap();
                    eprintln!("uninit branch: block {} ip {}", f.block, f.ip);
                }
                viol("uninit", "branch on an uninitialised value")
            }
            V::A(_) => unsup("branch on aggregate"),
        }
    }

    // ------------------------------------------------------------ step

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let body: &'static Body = fr.body;
        let i: &'static Instr = &body.blocks[fr.block as usize].instrs[fr.ip as usize];
        match i {
            Instr::Bin(d, op, t, a, b) => {
                let (x, y) = (self.opnd(st, t, a), self.opnd(st, t, b));
                let r = if let Some((n, et)) = is_vec(t) {
                    let w = et.bits();
                    let mut v = vec![];
                    for i in 0..n as usize {
                        let (p, q) = match (&x, &y) {
                            (V::A(p), V::A(q)) => (p[i].clone(), q[i].clone()),
                            _ => (V::U, V::U),
                        };
                        v.push(self.bin1(st, *op, w, &p, &q)?);
                    }
                    V::A(Rc::new(v))
                } else {
                    self.bin1(st, *op, t.bits(), &x, &y)?
                };
                self.set(st, *d, r);
            }
            Instr::FNeg(d, t, a) => {
                let x = self.opnd(st, t, a);
                let w = t.bits();
                let s = V::C(1u64 << (w - 1));
                let r = self.bin1(st, BinOp::Xor, w, &x, &s)?;
                self.set(st, *d, r);
            }
            Instr::ICmp(d, p, t, a, b) => {
                let (x, y) = (self.opnd(st, t, a), self.opnd(st, t, b));
                let r = if let Some((n, et)) = is_vec(t) {
                    let w = et.bits();
                    let p = *p;
                    self.map2(&x, &y, n, &mut |c, x, y| Ok(c.icmp1(p, w, x, y)))?
                } else {
                    self.icmp1(*p, t.bits(), &x, &y)
                };
                self.set(st, *d, r);
            }
            Instr::FCmp(d, p, t, a, b) => {
                let (x, y) = (self.opnd(st, t, a), self.opnd(st, t, b));
                let r = if let Some((n, et)) = is_vec(t) {
                    let w = et.bits();
                    self.map2(&x, &y, n, &mut |c, x, y| c.fcmp1(p, w, x, y))?
                } else {
                    self.fcmp1(p, t.bits(), &x, &y)?
                };
                self.set(st, *d, r);
            }
            Instr::Cast(d, k, ft, tt, a) => {
                let x = self.opnd(st, ft, a);
                let r = match (is_vec(ft), is_vec(tt)) {
                    (None, None) => self.cast1(*k, ft.bits(), tt.bits(), &x)?,
                    (Some((n, fe)), Some((n2, te))) if n == n2 => {
                        let (fw, tw) = (fe.bits(), te.bits());
                        let k = *k;
                        let z = x.clone();
                        self.map2(&x, &z, n, &mut |c, x, _| c.cast1(k, fw, tw, x))?
                    }
                    (Some((_, fe)), None) => self.join_vec(&x, fe.bits()),
                    (None, Some((n, te))) => self.split_vec(&x, n, te.bits())?,
                    (Some((_, fe)), Some((n2, te))) => {
                        let j = self.join_vec(&x, fe.bits());
                        self.split_vec(&j, n2, te.bits())?
                    }
                };
                self.set(st, *d, r);
            }
            Instr::Select(d, ct, t, c, a, b) => {
                let c = self.opnd(st, ct, c);
                let (x, y) = (self.opnd(st, t, a), self.opnd(st, t, b));
                let r = if let V::A(cs) = &c {
                    let (_, et) = is_vec(t).unwrap();
                    let (V::A(xs), V::A(ys)) = (&x, &y) else { return unsup("vector select") };
                    let mut v = vec![];
                    for i in 0..cs.len() {
                        v.push(self.select1(st, &cs[i], et, &xs[i], &ys[i])?);
                    }
                    V::A(Rc::new(v))
                } else {
                    self.select1(st, &c, t, &x, &y)?
                };
                self.set(st, *d, r);
            }
            Instr::Load(d, t, p) => {
                let mut p = self.opnd(st, &Ty::Ptr, p);
                if let (V::S(e), Ty::Double | Ty::Float) = (&p, t) {
                    // float tables: fork on the index, so that magnitude reasoning stays cheap
                    let e = *e;
                    let hi = self.ar.extract(e, SHIFT, 64 - SHIFT);
                    self.concretize(st, hi)?;
                    let q = self.resolve(st, &p, t.store_size())?;
                    if q.is_err() {
                        p = V::C(self.concretize(st, e)?);
                    }
                }
                let r = self.load(st, &p, t)?;
                self.set(st, *d, r);
            }
            Instr::Store(t, v, p) => {
                let p = self.opnd(st, &Ty::Ptr, p);
                let v = self.opnd(st, t, v);
                self.store(st, &p, &v, t)?;
                self.adv(st);
            }
            Instr::Gep(d, b, off, idx) => {
                let b = self.opnd(st, &Ty::Ptr, b);
                let mut r = self.addv(&b, *off as u64);
                for g in idx {
                    let t = Ty::Int(g.w);
                    let x = self.opnd(st, &t, &g.op);
                    r = match (&r, &x) {
                        (V::C(p), V::C(i)) => V::C(p.wrapping_add((sext(*i as u128, g.w) as i64 as u64).wrapping_mul(g.scale as u64))),
                        (V::U, _) | (_, V::U) => V::U,
                        _ => {
                            let p = self.e(&r, 64);
                            let i = self.e(&x, g.w);
                            let i = if g.w < 64 { self.ar.sext(i, 64) } else { i };
                            let k = self.ar.konst(g.scale as u64 as u128, 64);
                            let i = self.ar.bin(Op::Mul, i, k);
                            let q = self.ar.bin(Op::Add, p, i);
                            self.v(q)
                        }
                    };
                }
                self.set(st, *d, r);
            }
            Instr::Alloca(d, sz, al, cnt) => {
                let mut n = *sz;
                if let Some((w, o)) = cnt {
                    let x = self.opnd(st, &Ty::Int(*w), o);
                    n *= self.conc_v(st, &x)?;
                }
                let a = st.mem.alloc(n, *al, Kind::Stack, false);
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(region(a));
                self.set(st, *d, V::C(a));
            }
            Instr::ExtractValue(d, t, o, ix) => {
                let mut v = self.opnd(st, t, o);
                for &i in ix {
                    v = match v {
                        V::A(x) => x[i as usize].clone(),
                        V::U => V::U,
                        _ => return unsup("extractvalue"),
                    };
                }
                self.set(st, *d, v);
            }
            Instr::InsertValue(d, t, o, vt, v, ix) => {
                let a = self.opnd(st, t, o);
                let x = self.opnd(st, vt, v);
                fn ins(a: V, x: V, ix: &[u32]) -> V {
                    if ix.is_empty() {
                        return x;
                    }
                    let V::A(mut r) = a else { return V::U };
                    let m = Rc::make_mut(&mut r);
                    let old = std::mem::replace(&mut m[ix[0] as usize], V::U);
                    m[ix[0] as usize] = ins(old, x, &ix[1..]);
                    V::A(r)
                }
                let r = ins(a, x, ix);
                self.set(st, *d, r);
            }
            Instr::ExtractElement(d, t, o, i) => {
                let a = self.opnd(st, t, o);
                let i = self.opnd(st, &Ty::Int(64), i);
                let i = self.conc_v(st, &i)?;
                let r = match a {
                    V::A(x) => x.get(i as usize).cloned().unwrap_or(V::U),
                    _ => V::U,
                };
                self.set(st, *d, r);
            }
            Instr::InsertElement(d, t, o, x, i) => {
                let a = self.opnd(st, t, o);
                let (_, et) = is_vec(t).unwrap();
                let x = self.opnd(st, et, x);
                let i = self.opnd(st, &Ty::Int(64), i);
                let i = self.conc_v(st, &i)?;
                let V::A(mut r) = a else { return unsup("insertelement") };
                Rc::make_mut(&mut r)[i as usize] = x;
                self.set(st, *d, V::A(r));
            }
            Instr::Shuffle(d, t, a, b, ix) => {
                let (a, b) = (self.opnd(st, t, a), self.opnd(st, t, b));
                let (V::A(x), V::A(y)) = (&a, &b) else { return unsup("shuffle") };
                let n = x.len() as i64;
                let v = ix
                    .iter()
                    .map(|&i| {
                        if i < 0 {
                            V::U
                        } else if i < n {
                            x[i as usize].clone()
                        } else {
                            y[(i - n) as usize].clone()
                        }
                    })
                    .collect();
                self.set(st, *d, V::A(Rc::new(v)));
            }
            Instr::AtomicRMW(d, op, t, p, v) => {
                let p = self.opnd(st, &Ty::Ptr, p);
                let p = V::C(self.conc_v(st, &p)?);
                let v = self.opnd(st, t, v);
                let w = t.bits();
                let old = self.load_scalar(st, &p, w)?;
                let n = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin1(st, BinOp::Add, w, &old, &v)?,
                    "sub" => self.bin1(st, BinOp::Sub, w, &old, &v)?,
                    "and" => self.bin1(st, BinOp::And, w, &old, &v)?,
                    "or" => self.bin1(st, BinOp::Or, w, &old, &v)?,
                    "xor" => self.bin1(st, BinOp::Xor, w, &old, &v)?,
                    o => return unsup(format!("atomicrmw {}", o)),
                };
                self.store_scalar(st, &p, &n, w)?;
                self.set(st, *d, old);
            }
            Instr::CmpXchg(d, t, p, a, b) => {
                let p = self.opnd(st, &Ty::Ptr, p);
                let p = V::C(self.conc_v(st, &p)?);
                let (a, b) = (self.opnd(st, t, a), self.opnd(st, t, b));
                let w = t.bits();
                let old = self.load_scalar(st, &p, w)?;
                let c = self.icmp1(Pred::Eq, w, &old, &a);
                let ok = self.truth(st, &c)?;
                if ok {
                    self.store_scalar(st, &p, &b, w)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
            }
            Instr::Freeze(d, t, a) => {
                let x = self.opnd(st, t, a);
                let x = match x {
                    V::U => self.konst_v(t, &Const::Zero),
                    x => x,
                };
                self.set(st, *d, x);
            }
            Instr::Nop => self.adv(st),
            Instr::Br(b) => self.jump(st, *b),
            Instr::CondBr(c, a, b) => {
                let c = self.opnd(st, &Ty::Int(1), c);
                let t = self.truth(st, &c)?;
                self.jump(st, if t { *a } else { *b });
            }
            Instr::Switch(w, o, def, cases) => {
                let x = self.opnd(st, &Ty::Int(*w), o);
                let to = match &x {
                    V::C(c) => cases.iter().find(|(k, _)| *k == *c as u128).map(|x| x.1).unwrap_or(*def),
                    V::U => return viol("uninit", "switch on an uninitialised value"),
                    V::A(_) => return unsup("switch"),
                    V::S(e) => {
                        let e = *e;
                        loop {
                            let mv = self.ar.eval(e, &st.model);
                            let target = cases.iter().find(|(k, _)| *k == mv).map(|x| x.1).unwrap_or(*def);
                            let c = self.switch_cond(e, *w, target, *def, cases);
                            if self.known(st, c) == Some(true) {
                                break target;
                            }
                            let t = self.next_tag(st).map(|x| x as u32).unwrap_or(target);
                            let c = if t == target { c } else { self.switch_cond(e, *w, t, *def, cases) };
                            if self.branch_tag(st, c, t as u64)? {
                                break t;
                            }
                        }
                    }
                };
                self.jump(st, to);
            }
            Instr::Ret(t, o) => {
                let v = match o {
                    Some(o) => Some(self.opnd(st, t, o)),
                    None => None,
                };
                let f = st.frames.pop().unwrap();
                for r in &f.allocas {
                    st.mem.kill(*r);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                if let (Some(d), Some(v)) = (f.ret_dst, v) {
                    fr.regs[d as usize] = v;
                }
                match f.normal {
                    None => fr.ip += 1,
                    Some(b) => self.jump(st, b),
                }
            }
            Instr::Unreachable => return viol("ub", "reached an `unreachable` instruction"),
            Instr::Unsupported(s) => return unsup(format!("instruction: {}", s)),
            Instr::Call(c) => self.call(st, c)?,
        }
        Ok(())
    }

    fn switch_cond(&mut self, e: E, w: u32, t: u32, def: u32, cases: &[(u128, u32)]) -> E {
        if t == def {
            let mut c = self.ar.tru();
            for (k, b) in cases {
                if *b != def {
                    let k = self.ar.konst(*k, w);
                    let q = self.ar.cmp(Op::Eq, e, k);
                    let q = self.ar.not(q);
                    c = self.ar.and(c, q);
                }
            }
            c
        } else {
            let mut c = self.ar.fls();
            for (k, b) in cases {
                if *b == t {
                    let k = self.ar.konst(*k, w);
                    let q = self.ar.cmp(Op::Eq, e, k);
                    c = self.ar.or(c, q);
                }
            }
            c
        }
    }

    fn cstr(&mut self, st: &mut State, p: &V, n: &V) -> String {
        let (V::C(a), V::C(n)) = (p, n) else { return "?".into() };
        match st.mem.check(self.m, *a, *n) {
            Ok(o) => {
                let off = offset(*a) as usize;
                String::from_utf8_lossy(&o.data[off..off + *n as usize]).to_string()
            }
            Err(_) => "?".into(),
        }
    }

    fn finish_call(&mut self, st: &mut State, c: &CallI, v: Option<V>) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if let (Some(d), Some(v)) = (c.dst, v) {
            fr.regs[d as usize] = v;
        }
        match c.normal {
            None => fr.ip += 1,
            Some(b) => self.jump(st, b),
        }
    }

    fn call(&mut self, st: &mut State, c: &'static CallI) -> R<()> {
        let fid = match &c.callee {
            Callee::Func(f) => *f,
            Callee::Indirect(o) => {
                let v = self.opnd(st, &Ty::Ptr, o);
                let a = self.conc_v(st, &v)?;
                match self.m.func_by_addr(a) {
                    Some(f) => f,
                    None => return viol("memory", format!("call through a bad function pointer {:#x}", a)),
                }
            }
        };
        let k = self.kinds[fid as usize];
        let mut args: Vec<V> = Vec::with_capacity(c.args.len());
        for (t, o) in &c.args {
            if *t == Ty::Meta {
                args.push(V::U);
                continue;
            }
            let v = self.opnd(st, t, o);
            args.push(v);
        }
        if k == Intr::Body {
            let body = match self.m.body(fid) {
                Ok(b) => b,
                Err(e) => return unsup(format!("cannot parse {}: {}", self.m.funcs[fid as usize].name, e)),
            };
            self.sh.fns[fid as usize].store(true, Ordering::Relaxed);
            let mut regs = vec![V::U; body.nregs as usize];
            for (i, p) in body.params.iter().enumerate() {
                if i < args.len() {
                    regs[*p as usize] = args[i].clone();
                }
            }
            if st.frames.len() > 4000 {
                return viol("stack", "call depth above 4000 frames");
            }
            st.frames.push(Rc::new(Frame { fid, body, regs, block: 0, ip: 0, allocas: vec![], ret_dst: c.dst, normal: c.normal }));
            st.max_depth = st.max_depth.max(st.frames.len() as u32);
            st.peak = st.peak.max(st.frames.len() as u32);
            return Ok(());
        }
        let r = self.intrinsic(st, k, fid, c, &args)?;
        self.finish_call(st, c, r);
        Ok(())
    }

    fn with_ovf(&mut self, st: &mut State, k: Intr, w: u32, a: &V, b: &V) -> R<V> {
        if matches!(a, V::U) || matches!(b, V::U) {
            return Ok(V::A(Rc::new(vec![V::U, V::U])));
        }
        use Intr::*;
        let _ = st;
        let (x, y) = (self.e(a, w), self.e(b, w));
        let (op, signed) = match k {
            UaddO => (Op::Add, false),
            UsubO => (Op::Sub, false),
            UmulO => (Op::Mul, false),
            SaddO => (Op::Add, true),
            SsubO => (Op::Sub, true),
            _ => (Op::Mul, true),
        };
        let r = self.ar.bin(op, x, y);
        let o = match (op, signed) {
            (Op::Add, false) => {
                let (rx, ry) = (self.ar.urange(x), self.ar.urange(y));
                match rx.1.checked_add(ry.1) {
                    Some(h) if h <= mask(u128::MAX, w) => self.ar.fls(),
                    _ => self.ar.cmp(Op::Ult, r, x),
                }
            }
            (Op::Mul, false) if matches!(self.ar.urange(x).1.checked_mul(self.ar.urange(y).1), Some(h) if h <= mask(u128::MAX, w)) => self.ar.fls(),
            (Op::Sub, false) => self.ar.cmp(Op::Ult, x, y),
            (Op::Mul, _)
                if self.ar.get(y).map_or(false, |k| k > 0 && (!signed || k < 1u128 << (w - 1)))
                    && (!signed || self.ar.urange(x).1 < 1u128 << (w - 1)) =>
            {
                let k = self.ar.get(y).unwrap();
                let max = if signed { (1u128 << (w - 1)) - 1 } else { mask(u128::MAX, w) };
                let lim = self.ar.konst(max / k, w);
                self.ar.cmp(Op::Ult, lim, x)
            }
            _ => {
                let w2 = if op == Op::Mul { 2 * w } else { w + 1 };
                if w2 > 128 {
                    return unsup("128-bit overflow multiply");
                }
                let (xx, yy) = if signed { (self.ar.sext(x, w2), self.ar.sext(y, w2)) } else { (self.ar.zext(x, w2), self.ar.zext(y, w2)) };
                let rr = self.ar.bin(op, xx, yy);
                let back = if signed { self.ar.sext(r, w2) } else { self.ar.zext(r, w2) };
                let e = self.ar.cmp(Op::Eq, rr, back);
                self.ar.not(e)
            }
        };
        let (r, o) = (self.v(r), self.v(o));
        Ok(V::A(Rc::new(vec![r, o])))
    }

    fn ptr_arg(&mut self, st: &mut State, v: &V) -> R<u64> {
        self.conc_v(st, v)
    }

    fn intrinsic(&mut self, st: &mut State, k: Intr, fid: u32, c: &CallI, a: &[V]) -> R<Option<V>> {
        use Intr::*;
        let bits = |t: &Ty| match t {
            Ty::Struct(f, _) => f[0].bits(),
            t => t.bits(),
        };
        // element-wise vector versions of the simple ones
        if let Ty::Vector(n, et) = &c.ret {
            match k {
                Umax | Umin | Smax | Smin | UaddSat | UsubSat | SaddSat | SsubSat | Ctpop | Bswap => {
                    let mut v = vec![];
                    for i in 0..*n as usize {
                        let aa: Vec<V> = a
                            .iter()
                            .map(|x| match x {
                                V::A(x) => x[i].clone(),
                                x => x.clone(),
                            })
                            .collect();
                        let c2 = CallI { dst: None, ret: (**et).clone(), callee: Callee::Func(fid), args: vec![], normal: None, noreturn: false };
                        v.push(self.intrinsic(st, k, fid, &c2, &aa)?.unwrap());
                    }
                    return Ok(Some(V::A(Rc::new(v))));
                }
                _ => return unsup(format!("vector intrinsic {}", self.m.funcs[fid as usize].name)),
            }
        }
        Ok(match k {
            Body => unreachable!(),
            Unknown => return unsup(format!("external function {}", self.m.funcs[fid as usize].name)),
            SymBytes => {
                let p = self.ptr_arg(st, &a[0])?;
                let n = self.conc_v(st, &a[1])?;
                for i in 0..n {
                    let e = self.new_sym(st, 8)?;
                    self.store_scalar(st, &V::C(p + i), &V::S(e), 8)?;
                }
                None
            }
            SymU => {
                let w = self.conc_v(st, &a[0])? as u32;
                let e = self.new_sym(st, w)?;
                let e = self.ar.zext(e, 64);
                Some(V::S(e))
            }
            SymAssume => {
                match &a[0] {
                    V::C(0) => return Err(Stop::Assume),
                    V::C(_) => {}
                    V::S(e) => {
                        let e = *e;
                        match self.known(st, e) {
                            Some(true) => {}
                            Some(false) => return Err(Stop::Assume),
                            None => {
                                if self.ar.eval(e, &st.model) == 0 {
                                    if st.dec.len() < st.replay.len() {
                                        return unsup("replay divergence (assume)");
                                    }
                                    match self.query(&st.pc, e) {
                                        Some(Some(m)) => {
                                            for (i, x) in m.iter() {
                                                if st.model.len() <= *i as usize {
                                                    st.model.resize(*i as usize + 1, 0);
                                                }
                                                st.model[*i as usize] = *x;
                                            }
                                        }
                                        Some(None) => return Err(Stop::Assume),
                                        None => return unsup("solver returned unknown on an assumption"),
                                    }
                                }
                                self.assume_pc(st, e);
                            }
                        }
                    }
                    _ => return unsup("assume of undefined value"),
                }
                None
            }
            SymAssert => {
                let ok = match &a[0] {
                    V::U => return viol("uninit", "assertion depends on uninitialised data"),
                    x => self.truth(st, x)?,
                };
                if !ok {
                    let m = self.cstr(st, &a[1], &a[2]);
                    return viol("assert", m);
                }
                None
            }
            SymReach => {
                let i = self.conc_v(st, &a[0])?;
                self.sh.reach[i as usize & 255].fetch_add(1, Ordering::Relaxed);
                None
            }
            SymOut => {
                if let V::U = a[0] {
                    return viol("uninit", "output of uninitialised data");
                }
                st.out.push(a[0].clone());
                None
            }
            SymParam => {
                let i = self.conc_v(st, &a[0])?;
                Some(V::C(self.cfg.params.get(i as usize).copied().unwrap_or(0)))
            }
            SymLive => Some(V::C(st.mem.live_heap)),
            SymDepth => Some(V::C(st.frames.len() as u64)),
            // deepest call since the last such question
            SymPeak => {
                let p = st.peak;
                st.peak = st.frames.len() as u32;
                Some(V::C(p as u64))
            }
            SymConcrete => Some(V::C(self.conc_v(st, &a[0])?)),
            Alloc | AllocZeroed => {
                let n = self.conc_v(st, &a[0])?;
                let al = self.conc_v(st, &a[1])?;
                if n >= 1 << 28 {
                    return viol("alloc", format!("huge allocation of {} bytes", n));
                }
                Some(V::C(st.mem.alloc(n, al, Kind::Heap, k == AllocZeroed)))
            }
            // (std's own handles, e.g. of the current thread; never released)
            KeyCreate => {
                self.store_scalar(st, &a[0].clone(), &V::C(1), 32)?;
                Some(V::C(0))
            }
            Malloc => {
                let n = self.conc_v(st, &a[0])?;
                if n >= 1 << 28 {
                    return viol("alloc", format!("huge allocation of {} bytes", n));
                }
                Some(V::C(st.mem.alloc(n, 16, Kind::Global, false)))
            }
            Dealloc => {
                let p = self.ptr_arg(st, &a[0])?;
                let n = self.conc_v(st, &a[1])?;
                let al = self.conc_v(st, &a[2])?;
                self.free(st, p, n, al)?;
                None
            }
            Realloc => {
                let p = self.ptr_arg(st, &a[0])?;
                let n = self.conc_v(st, &a[1])?;
                let al = self.conc_v(st, &a[2])?;
                let nn = self.conc_v(st, &a[3])?;
                if nn >= 1 << 28 {
                    return viol("alloc", format!("huge allocation of {} bytes", nn));
                }
                let q = st.mem.alloc(nn, al, Kind::Heap, false);
                self.memcpy(st, q, p, n.min(nn))?;
                self.free(st, p, n, al)?;
                Some(V::C(q))
            }
            NoopAlloc | Nop | Assume => None,
            Panic => {
                let name = &self.m.funcs[fid as usize].name;
                let msg = if (name.ends_with("9panicking5panic") || name.ends_with("14panic_nounwind")) && a.len() >= 2 {
                    self.cstr(st, &a[0].clone(), &a[1].clone())
                } else {
                    short(name)
                };
                return viol("panic", msg);
            }
            Abort => return viol("abort", "process abort"),
            Memcpy => {
                let n = self.conc_v(st, &a[2])?;
                if n > 0 {
                    let d = self.ptr_arg(st, &a[0])?;
                    let s = self.ptr_arg(st, &a[1])?;
                    self.memcpy(st, d, s, n)?;
                }
                Some(a[0].clone())
            }
            Memset => {
                let n = self.conc_v(st, &a[2])?;
                if n > 0 {
                    let d = self.ptr_arg(st, &a[0])?;
                    let v = match &a[1] {
                        V::S(e) => {
                            let x = self.ar.extract(*e, 0, 8);
                            self.v(x)
                        }
                        V::C(x) => V::C(x & 255),
                        x => x.clone(),
                    };
                    let m = self.m;
                    if let Err(x) = st.mem.check(m, d, n) {
                        return self.memerr(x);
                    }
                    for i in 0..n {
                        self.store_scalar(st, &V::C(d + i), &v, 8)?;
                    }
                }
                Some(a[0].clone())
            }
            Bcmp => {
                let n = self.conc_v(st, &a[2])? as usize;
                if n == 0 {
                    return Ok(Some(V::C(0)));
                }
                let p = self.ptr_arg(st, &a[0])?;
                let q = self.ptr_arg(st, &a[1])?;
                let m = self.m;
                let x = match st.mem.check(m, p, n as u64) {
                    Ok(o) => o.clone(),
                    Err(x) => return self.memerr(x),
                };
                let y = match st.mem.check(m, q, n as u64) {
                    Ok(o) => o.clone(),
                    Err(x) => return self.memerr(x),
                };
                let (po, qo) = (offset(p) as usize, offset(q) as usize);
                let mut r = self.ar.konst(0, 32);
                for i in (0..n).rev() {
                    let xa = self.byte_at(&x, po + i)?;
                    let ya = self.byte_at(&y, qo + i)?;
                    let eq = self.ar.cmp(Op::Eq, xa, ya);
                    let xz = self.ar.zext(xa, 32);
                    let yz = self.ar.zext(ya, 32);
                    let d = self.ar.bin(Op::Sub, xz, yz);
                    r = self.ar.ite(eq, r, d);
                }
                Some(self.v(r))
            }
            Strlen => {
                let p = self.ptr_arg(st, &a[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_scalar(st, &V::C(p + n), 8)?;
                    let b = self.conc_v(st, &b)?;
                    if b == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(V::C(n))
            }
            HashKeys => Some(V::A(Rc::new(vec![V::C(0x0706050403020100), V::C(0x0f0e0d0c0b0a0908)]))),
            GetRandom => {
                let p = self.ptr_arg(st, &a[0])?;
                let n = self.conc_v(st, &a[1])?;
                for i in 0..n {
                    self.store_scalar(st, &V::C(p + i), &V::C(i & 255), 8)?;
                }
                Some(V::C(n))
            }
            Zero => Some(V::C(0)),
            ExpectOk => None,
            IsConst => Some(V::C(0)),
            Ident | TlsAddr => Some(a[0].clone()),
            UaddO | UsubO | UmulO | SaddO | SsubO | SmulO => {
                let w = bits(&c.ret);
                Some(self.with_ovf(st, k, w, &a[0], &a[1])?)
            }
            FptosiSat | FptouiSat => {
                let w = c.ret.bits();
                let fw = c.args.get(0).map(|x| x.0.bits()).unwrap_or(64);
                let kk = if k == FptosiSat { CastOp::FPToSI } else { CastOp::FPToUI };
                Some(self.cast1(kk, fw, w, &a[0])?)
            }
            Fabs => {
                let w = c.ret.bits();
                if let V::S(e) = a[0] {
                    let r = self.ar.fabs(e);
                    return Ok(Some(self.v(r)));
                }
                let m = V::C(if w == 64 { (1 << 63) - 1 } else { (1 << 31) - 1 });
                Some(self.bin1(st, BinOp::And, w, &a[0], &m)?)
            }
            Ucmp | Scmp => {
                let iw = c.args[0].0.bits();
                let rw = c.ret.bits();
                let (lt, gt) = if k == Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp1(lt, iw, &a[0], &a[1]);
                let g = self.icmp1(gt, iw, &a[0], &a[1]);
                if matches!(l, V::U) {
                    return Ok(Some(V::U));
                }
                let (l, g) = (self.e(&l, 1), self.e(&g, 1));
                let (m1, p1, z) = (self.ar.konst(u128::MAX, rw), self.ar.konst(1, rw), self.ar.konst(0, rw));
                let r = self.ar.ite(g, p1, z);
                let r = self.ar.ite(l, m1, r);
                Some(self.v(r))
            }
            Umax | Umin | Smax | Smin | UaddSat | UsubSat | SaddSat | SsubSat | Abs | Ctpop | Ctlz | Cttz | Bitreverse | Bswap | Fshl | Fshr => {
                let w = c.ret.bits();
                if a.iter().any(|x| matches!(x, V::U)) {
                    return Ok(Some(V::U));
                }
                let x = self.e(&a[0], w);
                let y = if a.len() > 1 && !matches!(k, Ctlz | Cttz | Abs) { Some(self.e(&a[1], w)) } else { None };
                let r = match k {
                    Umax | Umin | Smax | Smin => {
                        let y = y.unwrap();
                        let o = if matches!(k, Umax | Umin) { Op::Ult } else { Op::Slt };
                        let c = self.ar.cmp(o, x, y);
                        if matches!(k, Umax | Smax) {
                            self.ar.ite(c, y, x)
                        } else {
                            self.ar.ite(c, x, y)
                        }
                    }
                    UaddSat => {
                        let s = self.ar.bin(Op::Add, x, y.unwrap());
                        let o = self.ar.cmp(Op::Ult, s, x);
                        let m = self.ar.konst(u128::MAX, w);
                        self.ar.ite(o, m, s)
                    }
                    UsubSat => {
                        let s = self.ar.bin(Op::Sub, x, y.unwrap());
                        let o = self.ar.cmp(Op::Ult, x, y.unwrap());
                        let m = self.ar.konst(0, w);
                        self.ar.ite(o, m, s)
                    }
                    SaddSat | SsubSat => {
                        if w + 1 > 128 {
                            return unsup("wide saturating op");
                        }
                        let o = if k == SaddSat { Op::Add } else { Op::Sub };
                        let (xx, yy) = (self.ar.sext(x, w + 1), self.ar.sext(y.unwrap(), w + 1));
                        let s = self.ar.bin(o, xx, yy);
                        let mx = self.ar.konst((1u128 << (w - 1)) - 1, w + 1);
                        let mn = self.ar.konst((-(1i128 << (w - 1))) as u128, w + 1);
                        let hi = self.ar.cmp(Op::Slt, mx, s);
                        let lo = self.ar.cmp(Op::Slt, s, mn);
                        let r = self.ar.ite(lo, mn, s);
                        let r = self.ar.ite(hi, mx, r);
                        self.ar.extract(r, 0, w)
                    }
                    Abs => {
                        let z = self.ar.konst(0, w);
                        let n = self.ar.bin(Op::Sub, z, x);
                        let c = self.ar.cmp(Op::Slt, x, z);
                        self.ar.ite(c, n, x)
                    }
                    Ctpop => {
                        let mut s = self.ar.konst(0, w);
                        for i in 0..w {
                            let b = self.ar.extract(x, i, 1);
                            let b = self.ar.zext(b, w);
                            s = self.ar.bin(Op::Add, s, b);
                        }
                        s
                    }
                    Ctlz => {
                        let mut r = self.ar.konst(w as u128, w);
                        for i in 0..w {
                            let b = self.ar.extract(x, i, 1);
                            let v = self.ar.konst((w - 1 - i) as u128, w);
                            r = self.ar.ite(b, v, r);
                        }
                        r
                    }
                    Cttz => {
                        let mut r = self.ar.konst(w as u128, w);
                        for i in (0..w).rev() {
                            let b = self.ar.extract(x, i, 1);
                            let v = self.ar.konst(i as u128, w);
                            r = self.ar.ite(b, v, r);
                        }
                        r
                    }
                    Bitreverse => {
                        let mut r = self.ar.extract(x, 0, 1);
                        for i in 1..w {
                            let b = self.ar.extract(x, i, 1);
                            r = self.ar.concat(r, b);
                        }
                        r
                    }
                    Bswap => {
                        let mut r = self.ar.extract(x, 0, 8);
                        for i in 1..w / 8 {
                            let b = self.ar.extract(x, i * 8, 8);
                            r = self.ar.concat(r, b);
                        }
                        r
                    }
                    Fshl | Fshr => {
                        let s = self.e(&a[2], w);
                        let s = match self.ar.get(s) {
                            Some(v) => (v % w as u128) as u32,
                            None => {
                                // rotate by a symbolic amount: fork
                                (self.concretize(st, s)? % w as u64) as u32
                            }
                        };
                        let y = y.unwrap();
                        if w * 2 > 128 {
                            return unsup("wide funnel shift");
                        }
                        let cc = self.ar.concat(x, y);
                        if k == Fshl {
                            self.ar.extract(cc, w - s, w)
                        } else {
                            self.ar.extract(cc, s, w)
                        }
                    }
                    _ => unreachable!(),
                };
                Some(self.v(r))
            }
        })
    }

    fn free(&mut self, st: &mut State, p: u64, n: u64, al: u64) -> R<()> {
        let m = self.m;
        let o = match st.mem.get(m, p) {
            Ok(o) => o.clone(),
            Err(MemErr::Freed(_)) => return viol("memory", "double free"),
            Err(_) => return viol("memory", "free of an invalid pointer"),
        };
        if o.kind != Kind::Heap || offset(p) != 0 {
            return viol("memory", "free of a non-heap or interior pointer");
        }
        if o.size != n || o.align != al {
            return viol("memory", "deallocation with a different layout than the allocation");
        }
        st.mem.kill(region(p));
        Ok(())
    }

    fn new_sym(&mut self, st: &mut State, w: u32) -> R<E> {
        let i = st.inputs.len() as u32;
        if i >= 128 {
            return unsup("more than 128 symbolic inputs");
        }
        // distinct widths for the same index on different paths get distinct numbers
        let e = self.ar.sym(i, w);
        st.inputs.push(Input { sym: i, w });
        if st.model.len() <= i as usize {
            st.model.resize(i as usize + 1, 0);
        }
        Ok(e)
    }

    // ------------------------------------------------------------ driver

    pub fn error(&self, s: String) {
        let mut e = self.sh.errors.lock().unwrap();
        if let Some(x) = e.iter_mut().find(|x| x.0 == s) {
            x.1 += 1;
        } else {
            e.push((s, 1));
        }
    }

    pub fn initial(&mut self, job: Job) -> R<State> {
        let fid = match self.m.fmap.get(&self.cfg.entry) {
            Some(f) => *f,
            None => return unsup(format!("no function {}", self.cfg.entry)),
        };
        let body = match self.m.body(fid) {
            Ok(b) => b,
            Err(e) => return unsup(e),
        };
        Ok(State {
            frames: vec![Rc::new(Frame {
                fid,
                body,
                regs: vec![V::U; body.nregs as usize],
                block: 0,
                ip: 0,
                allocas: vec![],
                ret_dst: None,
                normal: None,
            })],
            mem: Mem::new(self.m),
            pc: vec![],
            bnd: vec![],
            model: job.model,
            inputs: vec![],
            dec: vec![],
            replay: Rc::new(job.dec),
            out: vec![],
            steps: 0,
            tls_dtors: 0,
            max_depth: 1,
            peak: 1,
        })
    }

    fn model_inputs(&self, st: &State) -> Vec<(u32, u128)> {
        st.inputs.iter().map(|i| (i.w, mask(st.model.get(i.sym as usize).copied().unwrap_or(0), i.w))).collect()
    }

    /// run one state until it ends; forks land on self.local
    pub fn run(&mut self, mut st: State) {
        let start = st.steps;
        let mut cnt = 0u64;
        let stop = loop {
            if let Err(e) = self.step(&mut st) {
                break e;
            }
            st.steps += 1;
            cnt += 1;
            if cnt & 0xfff == 0 {
                if st.steps > self.cfg.max_steps {
                    break Stop::Steps;
                }
                if self.sh.stop.load(Ordering::Relaxed) || Instant::now() > self.cfg.deadline {
                    self.sh.stop.store(true, Ordering::Relaxed);
                    self.sh.stats.unexplored.fetch_add(1, Ordering::Relaxed);
                    return;
                }
                self.donate();
            }
        };
        let stt = &self.sh.stats;
        stt.instrs.fetch_add(st.steps - start, Ordering::Relaxed);
        stt.max_depth.fetch_max(st.max_depth as u64, Ordering::Relaxed);
        stt.max_syms.fetch_max(st.inputs.len() as u64, Ordering::Relaxed);
        match stop {
            Stop::Assume => {
                stt.assumed.fetch_add(1, Ordering::Relaxed);
            }
            Stop::Done => {
                stt.paths.fetch_add(1, Ordering::Relaxed);
                self.seen_done += 1;
                let per = self.cfg.samples / self.cfg.threads + 1;
                // reservoir sampling
                let slot = if self.nsamples < per {
                    self.nsamples += 1;
                    Some(usize::MAX)
                } else {
                    let r = self.rnd() % self.seen_done;
                    if (r as usize) < per {
                        Some(r as usize)
                    } else {
                        None
                    }
                };
                if slot.is_some() {
                    let out: Vec<u128> = st
                        .out
                        .clone()
                        .iter()
                        .map(|v| match v {
                            V::C(c) => *c as u128,
                            V::S(e) => self.ar.eval(*e, &st.model),
                            _ => 0,
                        })
                        .collect();
                    let s = Sample { inputs: self.model_inputs(&st), out };
                    let mut v = self.sh.samples.lock().unwrap();
                    if slot == Some(usize::MAX) || v.len() < self.cfg.samples {
                        v.push(s);
                    } else {
                        let n = v.len();
                        let i = (self.seen_done as usize).wrapping_mul(7919) % n;
                        v[i] = s;
                    }
                }
            }
            Stop::Unsup(s) => {
                let f = st.frames.last().map(|f| short(&self.m.funcs[f.fid as usize].name)).unwrap_or_default();
                self.error(format!("{} (in {})", s, f));
                if self.cfg.trace {
                    eprintln!("unsup {} inputs {:?}", s, self.model_inputs(&st));
                }
            }
            Stop::Steps => {
                self.record_viol(&st, "hang".into(), format!("path exceeds {} instructions", self.cfg.max_steps));
            }
            Stop::Viol(k, m) => {
                self.record_viol(&st, k, m);
            }
        }
    }

    fn record_viol(&mut self, st: &State, kind: String, msg: String) {
        self.sh.stats.paths.fetch_add(1, Ordering::Relaxed);
        let stack: Vec<String> = st.frames.iter().rev().take(8).map(|f| short(&self.m.funcs[f.fid as usize].name)).collect();
        let inputs = self.model_inputs(st);
        let mut v = self.sh.viols.lock().unwrap();
        for (x, n) in v.iter_mut() {
            if x.kind == kind && x.msg == msg && x.stack.first() == stack.first() && x.stack.get(1) == stack.get(1) {
                *n += 1;
                return;
            }
        }
        v.push((Violation { kind, msg, stack, inputs }, 1));
        if v.len() > 40 {
            self.sh.stop.store(true, Ordering::Relaxed);
        }
    }

    pub fn donate(&mut self) {
        if self.local.len() < 2 || self.sh.idle.load(Ordering::Relaxed) == 0 || self.sh.qlen.load(Ordering::Relaxed) >= 2 * self.cfg.threads {
            return;
        }
        let n = (self.local.len() / 2).min(4).max(1);
        let mut jobs = vec![];
        for s in self.local.drain(0..n) {
            jobs.push(Job { model: s.model, dec: s.dec });
        }
        let mut q = self.sh.queue.lock().unwrap();
        for j in jobs {
            q.push_back(j);
        }
        self.sh.qlen.store(q.len(), Ordering::Relaxed);
        self.sh.cv.notify_all();
    }

    pub fn worker(&mut self) {
        loop {
            if let Some(s) = self.local.pop() {
                if self.sh.stop.load(Ordering::Relaxed) || Instant::now() > self.cfg.deadline {
                    self.sh.stop.store(true, Ordering::Relaxed);
                    self.sh.stats.unexplored.fetch_add(1 + self.local.len() as u64, Ordering::Relaxed);
                    self.local.clear();
                    continue;
                }
                self.run(s);
                self.donate();
                if self.ar.nodes.len() > 12_000_000 || self.qcache.len() > 3_000_000 {
                    // start over with a fresh arena; pending states become jobs
                    let jobs: Vec<Job> = self.local.drain(..).map(|s| Job { model: s.model, dec: s.dec }).collect();
                    {
                        let mut q = self.sh.queue.lock().unwrap();
                        for j in jobs {
                            q.push_back(j);
                        }
                        self.sh.qlen.store(q.len(), Ordering::Relaxed);
                        self.sh.cv.notify_all();
                    }
                    self.ar = Arena::new();
                    self.z3 = Z3::new(self.cfg.timeout_ms);
                    self.qcache = FxMap::default();
                }
                continue;
            }
            // need a job
            let mut q = self.sh.queue.lock().unwrap();
            let n = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
            if n == self.cfg.threads && q.is_empty() {
                self.sh.cv.notify_all();
            }
            let job = loop {
                if self.sh.stop.load(Ordering::Relaxed) {
                    let k = q.len() as u64;
                    if k > 0 {
                        self.sh.stats.unexplored.fetch_add(k, Ordering::Relaxed);
                        q.clear();
                    }
                    self.sh.cv.notify_all();
                    return;
                }
                if let Some(j) = q.pop_front() {
                    self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                    self.sh.qlen.store(q.len(), Ordering::Relaxed);
                    break j;
                }
                if self.sh.idle.load(Ordering::SeqCst) == self.cfg.threads {
                    self.sh.cv.notify_all();
                    return;
                }
                let (g, _) = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap();
                q = g;
            };
            drop(q);
            match self.initial(job) {
                Ok(s) => self.local.push(s),
                Err(e) => self.error(format!("{:?}", e)),
            }
        }
    }
}

/// shorten a v0-mangled symbol to something readable
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[st..i].parse().unwrap_or(0);
            let mut s = i;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if l > 0 && s + l <= b.len() && l < 80 {
                let id = &n[s..s + l];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && id.len() > 1 {
                    out.push(id.to_string());
                    i = s + l;
                    continue;
                }
            }
        } else if b[i] == b's' || b[i] == b'C' || b[i] == b'B' {
            // skip disambiguators  s<base62>_  and backrefs B<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 14 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
