//! Textual LLVM IR (as emitted by rustc after fat LTO) -> executable form.
//! Function bodies are parsed lazily, on first call.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Array(u64, Arc<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u32, Arc<Ty>),
    Meta,
    Label,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    /// bit width of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            _ => panic!("bits of non-scalar {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double)
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Ptr => 8,
            Ty::Float => 4,
            Ty::Double => 8,
            Ty::Vector(n, t) => ((*n as u64) * t.bits() as u64 + 7) / 8,
            Ty::Array(n, t) => n * t.alloc_size(),
            Ty::Struct(..) => self.alloc_size(),
            Ty::Void | Ty::Meta | Ty::Label => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                if *w <= 8 {
                    1
                } else if *w <= 16 {
                    2
                } else if *w <= 32 {
                    4
                } else if *w <= 64 {
                    8
                } else {
                    16
                }
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vector(..) => self.store_size().next_power_of_two(),
            Ty::Array(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        match self {
            Ty::Array(n, t) => n * t.alloc_size(),
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for f in fs {
                    if !*packed {
                        off = align_up(off, f.align());
                    }
                    off += f.alloc_size();
                }
                if !*packed {
                    off = align_up(off, self.align());
                }
                off
            }
            _ => align_up(self.store_size(), self.align()),
        }
    }
    /// offset and type of element i of an aggregate
    pub fn elem(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Array(_, t) => (i * t.alloc_size(), (**t).clone()),
            Ty::Vector(_, t) => (i * t.store_size(), (**t).clone()),
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        off = align_up(off, f.align());
                    }
                    if k as u64 == i {
                        return (off, f.clone());
                    }
                    off += f.alloc_size();
                }
                panic!("elem out of range")
            }
            _ => panic!("elem of non-aggregate {:?}", self),
        }
    }
    pub fn nelems(&self) -> u64 {
        match self {
            Ty::Array(n, _) => *n,
            Ty::Vector(n, _) => *n as u64,
            Ty::Struct(f, _) => f.len() as u64,
            _ => panic!("nelems"),
        }
    }
}

/// constant value
#[derive(Debug, Clone)]
pub enum Const {
    Int(u128, u32), // value, width (also floats by bits, pointers as resolved addresses)
    Undef,
    Zero, // zeroinitializer of an aggregate
    Agg(Vec<(Ty, Const)>),
    Bytes(Vec<u8>),
}

#[derive(Debug, Clone)]
pub enum Opnd {
    Reg(u32),
    C(u64),           // concrete scalar, width <= 64 known from context
    K(Arc<Const>),    // anything else
    Undef,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast, ptrtoint, inttoptr (width change = zext/trunc)
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FPExt,
    FPTrunc,
}

#[derive(Debug, Clone)]
pub struct GepIdx {
    pub scale: i64,
    pub op: Opnd,
    pub w: u32,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Func(u32),
    Indirect(Opnd),
}

#[derive(Debug, Clone)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, Opnd)>,
    /// for invoke: normal destination
    pub normal: Option<u32>,
    pub noreturn: bool,
}

#[derive(Debug, Clone)]
pub enum Instr {
    Bin(u32, BinOp, Ty, Opnd, Opnd),
    FNeg(u32, Ty, Opnd),
    ICmp(u32, Pred, Ty, Opnd, Opnd),
    FCmp(u32, String, Ty, Opnd, Opnd),
    Cast(u32, CastOp, Ty, Ty, Opnd),
    Select(u32, Ty, Ty, Opnd, Opnd, Opnd), // condty, ty
    Load(u32, Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, i64, Vec<GepIdx>),
    Alloca(u32, u64, u64, Option<(u32, Opnd)>),
    Call(Box<CallI>),
    ExtractValue(u32, Ty, Opnd, Vec<u32>),
    InsertValue(u32, Ty, Opnd, Ty, Opnd, Vec<u32>),
    ExtractElement(u32, Ty, Opnd, Opnd),
    InsertElement(u32, Ty, Opnd, Opnd, Opnd),
    Shuffle(u32, Ty, Opnd, Opnd, Vec<i64>),
    AtomicRMW(u32, String, Ty, Opnd, Opnd),
    CmpXchg(u32, Ty, Opnd, Opnd, Opnd),
    Freeze(u32, Ty, Opnd),
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Opnd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Opnd)>, // (pred block, value)
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub instrs: Vec<Instr>,
}

#[derive(Debug)]
pub struct Body {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub addr: u64,
    pub ret: Ty,
    pub nparams: usize,
    pub text: Option<(usize, usize)>, // header-line start .. end offset in module text
    pub body: OnceLock<Result<Body, String>>,
    pub varargs: bool,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub ty: Ty,
    pub size: u64,
    pub constant: bool,
    pub tls: bool,
    pub init: Option<(usize, usize)>, // text range of initializer
    pub parsed: OnceLock<(Vec<u8>, Vec<bool>)>, // bytes, undef mask
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    /// region number -> (is function, id)
    pub regions: Vec<(bool, u32)>,
}

/// Address layout: every object (global, function, heap block, stack slot) owns a
/// 2^SHIFT-aligned region; region number = addr >> SHIFT.
pub const SHIFT: u32 = 30;

// ------------------------------------------------------------------ lexer / cursor

pub struct Cur<'a> {
    s: &'a [u8],
    p: usize,
    m: Option<&'a Module>,
    types: &'a HashMap<String, Ty>,
}

type R<T> = Result<T, String>;

impl<'a> Cur<'a> {
    fn new(s: &'a str, m: Option<&'a Module>, types: &'a HashMap<String, Ty>) -> Self {
        Cur { s: s.as_bytes(), p: 0, m, types }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\n' || self.s[self.p] == b'\t') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let b = t.as_bytes();
        if self.s[self.p..].starts_with(b) {
            // whole-word check for identifiers
            if b[b.len() - 1].is_ascii_alphanumeric() {
                if let Some(c) = self.s.get(self.p + b.len()) {
                    if c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.' {
                        return false;
                    }
                }
            }
            self.p += b.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", t, self.rest()))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.p..(self.p + 80).min(self.s.len())]).to_string()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' {
                self.p += 1;
            } else {
                break;
            }
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let sv = self.p;
        let w = self.word();
        self.p = sv;
        w
    }
    /// name after % or @ (sigil already consumed), handles quotes
    fn name(&mut self) -> String {
        if self.s.get(self.p) == Some(&b'"') {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).to_string();
            self.p += 1;
            r
        } else {
            self.word().to_string()
        }
    }
    fn skip_parens(&mut self) {
        self.ws();
        if self.s.get(self.p) != Some(&b'(') {
            return;
        }
        let mut d = 0;
        let mut inq = false;
        while self.p < self.s.len() {
            let c = self.s[self.p];
            self.p += 1;
            if inq {
                if c == b'"' {
                    inq = false;
                }
                continue;
            }
            match c {
                b'"' => inq = true,
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    /// skip parameter / return / call attributes
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                // string attr
                self.p += 1;
                while self.s[self.p] != b'"' {
                    self.p += 1;
                }
                self.p += 1;
                if self.eat("=") {
                    self.ws();
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                }
                continue;
            }
            if c == b'#' {
                self.p += 1;
                self.word();
                continue;
            }
            let w = self.peek_word();
            match w {
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "writeonly" | "readnone" | "returned"
                | "signext" | "zeroext" | "inreg" | "nocapture" | "nest" | "swiftself" | "immarg" | "allocptr"
                | "allocalign" | "dead_on_unwind" | "writable" | "dead_on_return" | "nonlazybind" | "fastcc" | "coldcc"
                | "ccc" | "tailcc" | "preserve_mostcc" | "preserve_allcc" | "internal" | "private" | "external"
                | "hidden" | "protected" | "default" | "dso_local" | "dso_preemptable" | "weak" | "weak_odr" | "linkonce" | "linkonce_odr"
                | "unnamed_addr" | "local_unnamed_addr" | "extern_weak" | "available_externally" | "common"
                | "nsz" | "nnan" | "ninf" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "noext" | "noreturn" | "nounwind" | "cold" => {
                    self.word();
                    continue;
                }
                "captures" | "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "byref" | "range"
                | "memory" | "initializes" | "nofpclass" | "allocsize" | "elementtype" | "inalloca" | "preallocated" | "addrspace" => {
                    self.word();
                    self.skip_parens();
                    continue;
                }
                "align" | "alignstack" => {
                    self.word();
                    self.ws();
                    if self.s.get(self.p) == Some(&b'(') {
                        self.skip_parens();
                    } else {
                        self.word();
                    }
                    continue;
                }
                _ => return,
            }
        }
    }
    fn uint(&mut self) -> R<u64> {
        let w = self.word();
        w.parse::<u64>().map_err(|_| format!("bad uint {:?} at {:?}", w, self.rest()))
    }
    pub fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        let base = match c {
            b'[' => {
                self.p += 1;
                let n = self.uint()?;
                self.expect("x")?;
                let t = self.ty()?;
                self.expect("]")?;
                Ty::Array(n, Arc::new(t))
            }
            b'{' => {
                self.p += 1;
                let mut v = vec![];
                if !self.eat("}") {
                    loop {
                        v.push(self.ty()?);
                        if self.eat("}") {
                            break;
                        }
                        self.expect(",")?;
                    }
                }
                Ty::Struct(v, false)
            }
            b'<' => {
                self.p += 1;
                if self.eat("{") {
                    let mut v = vec![];
                    if !self.eat("}") {
                        loop {
                            v.push(self.ty()?);
                            if self.eat("}") {
                                break;
                            }
                            self.expect(",")?;
                        }
                    }
                    self.expect(">")?;
                    Ty::Struct(v, true)
                } else {
                    let n = self.uint()?;
                    self.expect("x")?;
                    let t = self.ty()?;
                    self.expect(">")?;
                    Ty::Vector(n as u32, Arc::new(t))
                }
            }
            b'%' => {
                self.p += 1;
                let n = self.name();
                self.types.get(&n).cloned().ok_or_else(|| format!("unknown type %{}", n))?
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "half" => Ty::Int(16),
                    "bfloat" => Ty::Int(16),
                    "fp128" => Ty::Int(128),
                    "x86_fp80" => Ty::Int(80),
                    "metadata" => Ty::Meta,
                    "label" => Ty::Label,
                    "token" => Ty::Meta,
                    _ => {
                        if let Some(n) = w.strip_prefix('i') {
                            if let Ok(n) = n.parse::<u32>() {
                                return self.ty_suffix(Ty::Int(n));
                            }
                        }
                        return Err(format!("bad type {:?} at {:?}", w, self.rest()));
                    }
                }
            }
        };
        self.ty_suffix(base)
    }
    fn ty_suffix(&mut self, t: Ty) -> R<Ty> {
        Ok(t)
    }

    /// parse a constant of the given type
    pub fn konst(&mut self, ty: &Ty) -> R<Const> {
        let c = self.peek();
        match c {
            b'@' => {
                self.p += 1;
                let n = self.name();
                let m = self.m.ok_or("no module")?;
                Ok(Const::Int(m.symbol_addr(&n)? as u128, 64))
            }
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                self.p += 2;
                let mut out = vec![];
                loop {
                    let ch = self.s[self.p];
                    if ch == b'"' {
                        self.p += 1;
                        break;
                    }
                    if ch == b'\\' && self.s[self.p + 1] == b'\\' {
                        out.push(b'\\');
                        self.p += 2;
                    } else if ch == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                        out.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                        self.p += 3;
                    } else {
                        out.push(ch);
                        self.p += 1;
                    }
                }
                Ok(Const::Bytes(out))
            }
            b'[' | b'{' => {
                self.p += 1;
                let close = if c == b'[' { "]" } else { "}" };
                self.agg(close)
            }
            b'<' => {
                self.p += 1;
                if self.eat("{") {
                    let r = self.agg("}")?;
                    self.expect(">")?;
                    Ok(r)
                } else {
                    self.agg(">")
                }
            }
            _ => {
                let w = self.peek_word();
                match w {
                    "null" => {
                        self.word();
                        Ok(Const::Int(0, 64))
                    }
                    "true" => {
                        self.word();
                        Ok(Const::Int(1, 1))
                    }
                    "false" => {
                        self.word();
                        Ok(Const::Int(0, 1))
                    }
                    "undef" | "poison" => {
                        self.word();
                        Ok(Const::Undef)
                    }
                    "none" => {
                        self.word();
                        Ok(Const::Undef)
                    }
                    "zeroinitializer" => {
                        self.word();
                        if ty.is_scalar() {
                            Ok(Const::Int(0, ty.bits()))
                        } else {
                            Ok(Const::Zero)
                        }
                    }
                    "splat" => {
                        self.word();
                        self.expect("(")?;
                        let t = self.ty()?;
                        let k = self.konst(&t)?;
                        self.expect(")")?;
                        if let Ty::Vector(n, _) = ty {
                            Ok(Const::Agg((0..*n).map(|_| (t.clone(), k.clone())).collect()))
                        } else {
                            Err("splat of non-vector".into())
                        }
                    }
                    "getelementptr" => {
                        self.word();
                        while matches!(self.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                            self.word();
                            if self.s.get(self.p) == Some(&b'(') && self.m.is_some() && false {}
                        }
                        self.expect("(")?;
                        let st = self.ty()?;
                        self.expect(",")?;
                        let pt = self.ty()?;
                        let base = match self.konst(&pt)? {
                            Const::Int(v, _) => v as u64,
                            _ => return Err("gep const base".into()),
                        };
                        let mut off: i64 = 0;
                        let mut cur = st.clone();
                        let mut first = true;
                        while self.eat(",") {
                            let it = self.ty()?;
                            let iv = match self.konst(&it)? {
                                Const::Int(v, w) => sext(v, w) as i64,
                                _ => return Err("gep idx".into()),
                            };
                            if first {
                                off += iv * st.alloc_size() as i64;
                                first = false;
                            } else {
                                let (o, t) = match &cur {
                                    Ty::Array(_, t) => (iv * t.alloc_size() as i64, (**t).clone()),
                                    _ => {
                                        let (o, t) = cur.elem(iv as u64);
                                        (o as i64, t)
                                    }
                                };
                                off += o;
                                cur = t;
                            }
                        }
                        self.expect(")")?;
                        Ok(Const::Int(base.wrapping_add(off as u64) as u128, 64))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                        self.word();
                        self.expect("(")?;
                        let t = self.ty()?;
                        let k = self.konst(&t)?;
                        self.expect("to")?;
                        let t2 = self.ty()?;
                        self.expect(")")?;
                        match k {
                            Const::Int(v, _) => {
                                let b = t2.bits();
                                Ok(Const::Int(mask(v, b), b))
                            }
                            k => Ok(k),
                        }
                    }
                    "add" | "sub" | "xor" | "and" | "or" | "mul" => {
                        self.word();
                        while matches!(self.peek_word(), "nuw" | "nsw" | "disjoint") {
                            self.word();
                        }
                        self.expect("(")?;
                        let t = self.ty()?;
                        let a = self.konst(&t)?;
                        self.expect(",")?;
                        let t2 = self.ty()?;
                        let b = self.konst(&t2)?;
                        self.expect(")")?;
                        match (a, b) {
                            (Const::Int(x, w0), Const::Int(y, _)) => {
                                let r = match w {
                                    "add" => x.wrapping_add(y),
                                    "sub" => x.wrapping_sub(y),
                                    "xor" => x ^ y,
                                    "and" => x & y,
                                    "or" => x | y,
                                    _ => x.wrapping_mul(y),
                                };
                                Ok(Const::Int(mask(r, w0), w0))
                            }
                            _ => Err("const binop".into()),
                        }
                    }
                    _ => {
                        // number
                        let w = self.word();
                        let w = if w.is_empty() && self.peek() == b'+' {
                            self.p += 1;
                            self.word()
                        } else {
                            w
                        };
                        match ty {
                            Ty::Int(b) => {
                                if let Ok(v) = w.parse::<i128>() {
                                    Ok(Const::Int(mask(v as u128, *b), *b))
                                } else if let Ok(v) = w.parse::<u128>() {
                                    Ok(Const::Int(mask(v, *b), *b))
                                } else {
                                    Err(format!("bad int const {:?} at {:?}", w, self.rest()))
                                }
                            }
                            Ty::Double | Ty::Float => {
                                let d: f64 = if let Some(h) = w.strip_prefix("0x") {
                                    f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| format!("{} {}", e, w))?)
                                } else if let Some(h) = w.strip_prefix("f0x") {
                                    if *ty == Ty::Float {
                                        f32::from_bits(u32::from_str_radix(h, 16).map_err(|e| e.to_string())?) as f64
                                    } else {
                                        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                                    }
                                } else {
                                    // decimal form possibly like 1.000000e+02
                                    let mut s = w.to_string();
                                    if self.s.get(self.p) == Some(&b'+') {
                                        self.p += 1;
                                        s.push('+');
                                        s.push_str(self.word());
                                    }
                                    match s.as_str() {
                                        "inf" | "+inf" => f64::INFINITY,
                                        "-inf" => f64::NEG_INFINITY,
                                        "nan" | "+nan" | "+qnan" | "qnan" => f64::NAN,
                                        _ => s.parse::<f64>().map_err(|e| format!("{} {:?}", e, s))?,
                                    }
                                };
                                if *ty == Ty::Double {
                                    Ok(Const::Int(d.to_bits() as u128, 64))
                                } else {
                                    Ok(Const::Int((d as f32).to_bits() as u128, 32))
                                }
                            }
                            Ty::Meta => Ok(Const::Undef),
                            _ => Err(format!("bad const {:?} of {:?} at {:?}", w, ty, self.rest())),
                        }
                    }
                }
            }
        }
    }
    fn agg(&mut self, close: &str) -> R<Const> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(Const::Agg(v));
        }
        loop {
            let t = self.ty()?;
            let k = self.konst(&t)?;
            v.push((t, k));
            if self.eat(close) {
                break;
            }
            self.expect(",")?;
        }
        Ok(Const::Agg(v))
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

// ------------------------------------------------------------------ module

impl Module {
    pub fn symbol_addr(&self, n: &str) -> R<u64> {
        if let Some(&g) = self.gmap.get(n) {
            return Ok(self.globals[g as usize].addr);
        }
        if let Some(&f) = self.fmap.get(n) {
            return Ok(self.funcs[f as usize].addr);
        }
        Err(format!("unknown symbol @{}", n))
    }

    pub fn global_by_region(&self, r: u64) -> Option<u32> {
        match self.regions.get(r as usize) {
            Some((false, g)) => Some(*g),
            _ => None,
        }
    }
    pub fn func_by_addr(&self, a: u64) -> Option<u32> {
        if a & ((1 << SHIFT) - 1) != 0 {
            return None;
        }
        match self.regions.get((a >> SHIFT) as usize) {
            Some((true, f)) if *f != u32::MAX => Some(*f),
            _ => None,
        }
    }

    pub fn nregions(&self) -> u64 {
        1 + self.funcs.len() as u64 + self.globals.len() as u64
    }

    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut types: HashMap<String, Ty> = HashMap::new();
        let mut funcs: Vec<Func> = vec![];
        let mut fmap = HashMap::new();
        let mut globals: Vec<Global> = vec![];
        let mut gmap = HashMap::new();
        let empty: HashMap<String, Ty> = HashMap::new();
        // pass 1: named types
        for line in text.lines() {
            if line.starts_with('%') {
                let mut c = Cur::new(line, None, &empty);
                c.p = 1;
                let n = c.name();
                c.expect("=")?;
                c.expect("type")?;
                if c.peek_word() == "opaque" {
                    continue;
                }
                let t = {
                    let mut c2 = Cur::new(line, None, &types);
                    c2.p = c.p;
                    c2.ty()?
                };
                types.insert(n, t);
            }
        }
        // pass 2
        let mut pos = 0usize;
        let bytes = text.as_bytes();
        let mut region: u64 = 1;
        while pos < bytes.len() {
            let eol = memchr(b'\n', bytes, pos);
            let line = &text[pos..eol];
            if line.starts_with("define ") || line.starts_with("declare ") {
                let is_def = line.starts_with("define ");
                let mut c = Cur::new(line, None, &types);
                c.word();
                // skip metadata on declares
                loop {
                    c.skip_attrs();
                    if c.peek() == b'!' {
                        c.p += 1;
                        c.word();
                        c.peek();
                        c.p += 1;
                        c.word();
                        continue;
                    }
                    break;
                }
                let ret = c.ty()?;
                c.skip_attrs();
                c.expect("@")?;
                let name = c.name();
                let mut np = 0;
                let mut varargs = false;
                c.expect("(")?;
                if !c.eat(")") {
                    loop {
                        if c.eat("...") {
                            varargs = true;
                        } else {
                            c.ty()?;
                            c.skip_attrs();
                            if c.peek() == b'%' {
                                c.p += 1;
                                c.name();
                            }
                            np += 1;
                        }
                        if c.eat(")") {
                            break;
                        }
                        c.expect(",")?;
                    }
                }
                let mut end = eol;
                let id = funcs.len() as u32;
                let mut t = None;
                if is_def {
                    // find closing "}" at line start
                    let e = text[eol..].find("\n}").ok_or("unterminated function")? + eol;
                    t = Some((pos, e + 1));
                    end = e + 2;
                }
                fmap.insert(name.clone(), id);
                funcs.push(Func { name, id, addr: region << SHIFT, ret, nparams: np, text: t, body: OnceLock::new(), varargs });
                region += 1;
                pos = end + 1;
                continue;
            }
            if line.starts_with('@') {
                let mut c = Cur::new(line, None, &types);
                c.p = 1;
                let name = c.name();
                c.expect("=")?;
                let mut tls = false;
                let constant;
                let mut external = false;
                loop {
                    if c.peek_word() == "thread_local" {
                        c.word();
                        c.skip_parens();
                        tls = true;
                        continue;
                    }
                    if c.peek_word() == "external" || c.peek_word() == "extern_weak" {
                        external = true;
                    }
                    if c.peek_word() == "alias" || c.peek_word() == "ifunc" {
                        return Err(format!("alias not supported: {}", name));
                    }
                    if c.peek_word() == "appending" {
                        c.word();
                        continue;
                    }
                    if c.peek_word() == "externally_initialized" {
                        c.word();
                        continue;
                    }
                    let p0 = c.p;
                    c.skip_attrs();
                    if c.peek_word() == "global" {
                        c.word();
                        constant = false;
                        break;
                    }
                    if c.peek_word() == "constant" {
                        c.word();
                        constant = true;
                        break;
                    }
                    if c.p == p0 {
                        return Err(format!("global parse: {:?}", c.rest()));
                    }
                }
                let ty = c.ty()?;
                let size = ty.alloc_size();
                let id = globals.len() as u32;
                gmap.insert(name.clone(), id);
                let init = if external { None } else { Some((pos + c.p, eol)) };
                globals.push(Global { name, addr: region << SHIFT, ty, size, constant, tls, init, parsed: OnceLock::new() });
                region += 1;
            }
            pos = eol + 1;
        }
        let mut regions = vec![(true, u32::MAX); region as usize];
        for f in &funcs {
            regions[(f.addr >> SHIFT) as usize] = (true, f.id);
        }
        for (i, g) in globals.iter().enumerate() {
            regions[(g.addr >> SHIFT) as usize] = (false, i as u32);
        }
        Ok(Module { text, types, funcs, fmap, globals, gmap, regions })
    }

    pub fn global_bytes(&self, g: u32) -> R<&(Vec<u8>, Vec<bool>)> {
        let gl = &self.globals[g as usize];
        if let Some(b) = gl.parsed.get() {
            return Ok(b);
        }
        let mut bytes = vec![0u8; gl.size as usize];
        let mut und = vec![false; gl.size as usize];
        if let Some((a, b)) = gl.init {
            let mut c = Cur::new(&self.text[a..b], Some(self), &self.types);
            let k = c.konst(&gl.ty).map_err(|e| format!("global {}: {}", gl.name, e))?;
            write_const(&gl.ty, &k, &mut bytes, &mut und, 0);
        } else {
            return Err(format!("access to external global {}", gl.name));
        }
        let _ = gl.parsed.set((bytes, und));
        Ok(gl.parsed.get().unwrap())
    }

    pub fn body(&self, f: u32) -> Result<&Body, String> {
        let fu = &self.funcs[f as usize];
        fu.body
            .get_or_init(|| match fu.text {
                None => Err(format!("no body: {}", fu.name)),
                Some((a, b)) => parse_body(self, &self.text[a..b]).map_err(|e| format!("in {}: {}", fu.name, e)),
            })
            .as_ref()
            .map_err(|e| e.clone())
    }
}

pub fn write_const(ty: &Ty, k: &Const, out: &mut [u8], und: &mut [bool], off: usize) {
    match k {
        Const::Int(v, _) => {
            let n = ty.store_size() as usize;
            for i in 0..n {
                out[off + i] = (v >> (8 * i)) as u8;
            }
        }
        Const::Undef => {
            for i in 0..ty.alloc_size() as usize {
                und[off + i] = true;
            }
        }
        Const::Zero => {}
        Const::Bytes(b) => out[off..off + b.len()].copy_from_slice(b),
        Const::Agg(v) => {
            for (i, (t, k)) in v.iter().enumerate() {
                let (o, _) = ty.elem(i as u64);
                write_const(t, k, out, und, off + o as usize);
            }
        }
    }
}

fn memchr(c: u8, b: &[u8], from: usize) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}

struct FnCtx<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

impl<'a> FnCtx<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn lab(&mut self, n: &str) -> u32 {
        *self.labels.get(n).unwrap_or(&u32::MAX)
    }
    fn opnd(&mut self, c: &mut Cur, ty: &Ty) -> R<Opnd> {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            return Ok(Opnd::Reg(self.reg(&n)));
        }
        if *ty == Ty::Meta {
            // metadata operand: skip to , or )
            let mut d = 0;
            while c.p < c.s.len() {
                match c.s[c.p] {
                    b'(' => d += 1,
                    b')' if d == 0 => break,
                    b')' => d -= 1,
                    b',' if d == 0 => break,
                    _ => {}
                }
                c.p += 1;
            }
            return Ok(Opnd::Undef);
        }
        let k = c.konst(ty)?;
        Ok(match k {
            Const::Int(v, w) if w <= 64 => Opnd::C(v as u64),
            Const::Undef if ty.is_scalar() => Opnd::Undef,
            k => Opnd::K(Arc::new(expand(ty, k))),
        })
    }
    fn topnd(&mut self, c: &mut Cur) -> R<(Ty, Opnd)> {
        let t = c.ty()?;
        c.skip_attrs();
        let o = self.opnd(c, &t)?;
        Ok((t, o))
    }
}

/// expand zero / bytes constants into element lists so the executor only sees Agg/Int/Undef
fn expand(ty: &Ty, k: Const) -> Const {
    match (ty, k) {
        (_, Const::Zero) => {
            if ty.is_scalar() {
                return Const::Int(0, ty.bits());
            }
            let n = ty.nelems();
            Const::Agg(
                (0..n)
                    .map(|i| {
                        let (_, t) = ty.elem(i);
                        let z = expand(&t, Const::Zero);
                        (t, z)
                    })
                    .collect(),
            )
        }
        (_, Const::Bytes(b)) => Const::Agg(b.into_iter().map(|x| (Ty::Int(8), Const::Int(x as u128, 8))).collect()),
        (_, Const::Agg(v)) => Const::Agg(
            v.into_iter()
                .map(|(t, k)| {
                    let k = expand(&t, k);
                    (t, k)
                })
                .collect(),
        ),
        (_, Const::Undef) => {
            if ty.is_scalar() || matches!(ty, Ty::Meta) {
                return Const::Undef;
            }
            let n = ty.nelems();
            Const::Agg(
                (0..n)
                    .map(|i| {
                        let (_, t) = ty.elem(i);
                        let z = expand(&t, Const::Undef);
                        (t, z)
                    })
                    .collect(),
            )
        }
        (_, k) => k,
    }
}

fn parse_body(m: &Module, text: &str) -> R<Body> {
    // header
    let hl = text.find('\n').unwrap();
    let header = &text[..hl];
    let mut fc = FnCtx { m, regs: HashMap::new(), labels: HashMap::new() };
    let mut params = vec![];
    let mut unnamed = 0usize;
    {
        let mut c = Cur::new(header, Some(m), &m.types);
        c.word();
        c.skip_attrs();
        c.ty()?;
        c.skip_attrs();
        c.expect("@")?;
        c.name();
        c.expect("(")?;
        let mut anon = 0;
        if !c.eat(")") {
            loop {
                if c.eat("...") {
                } else {
                    c.ty()?;
                    c.skip_attrs();
                    if c.peek() == b'%' {
                        c.p += 1;
                        let n = c.name();
                        if n.bytes().all(|b| b.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        params.push(fc.reg(&n));
                    } else {
                        unnamed += 1;
                        params.push(fc.reg(&format!("{}", anon)));
                        anon += 1;
                    }
                }
                if c.eat(")") {
                    break;
                }
                c.expect(",")?;
            }
        }
    }
    // logical lines grouped by block
    let mut blocks: Vec<(String, Vec<String>)> = vec![];
    let mut lines = text[hl + 1..].lines().peekable();
    while let Some(l) = lines.next() {
        let t = l.trim_start();
        if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let lab = if let Some(r) = l.strip_prefix('"') {
                r[..r.find('"').unwrap()].to_string()
            } else {
                l[..l.find(':').ok_or_else(|| format!("label? {}", l))?].to_string()
            };
            blocks.push((lab, vec![]));
            continue;
        }
        if blocks.is_empty() {
            blocks.push((String::new(), vec![]));
        }
        let mut s = t.to_string();
        // `switch ... [` spans lines until "]"
        if t.starts_with("switch ") && !t.contains(']') {
            loop {
                let n = lines.next().ok_or("eof in switch")?;
                s.push(' ');
                s.push_str(n.trim());
                if n.trim().starts_with(']') {
                    break;
                }
            }
        } else if t.starts_with("invoke ") || t.contains("= invoke ") {
            let n = lines.next().ok_or("eof in invoke")?;
            s.push(' ');
            s.push_str(n.trim());
        } else if t.contains("= landingpad ") {
            while let Some(n) = lines.peek() {
                let n = n.trim_start();
                if n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter") {
                    lines.next();
                } else {
                    break;
                }
            }
        }
        blocks.last_mut().unwrap().1.push(s);
    }
    // entry block label: unnamed -> number of params
    for (i, (l, _)) in blocks.iter().enumerate() {
        if i == 0 && l.is_empty() {
            // implicit label number = next unnamed value
            let n = unnamed;
            fc.labels.insert(format!("{}", n), 0);
        } else {
            fc.labels.insert(l.clone(), i as u32);
        }
    }
    let mut out = vec![];
    for (_, ls) in &blocks {
        let mut b = Block { phis: vec![], instrs: vec![] };
        for l in ls {
            match parse_instr(&mut fc, l, &mut b.phis) {
                Ok(Some(i)) => b.instrs.push(i),
                Ok(None) => {}
                Err(e) => b.instrs.push(Instr::Unsupported(format!("{} [{}]", l, e))),
            }
        }
        out.push(b);
    }
    Ok(Body { nregs: fc.regs.len() as u32, params, blocks: out })
}

fn parse_instr(fc: &mut FnCtx, l: &str, phis: &mut Vec<Phi>) -> R<Option<Instr>> {
    let m = fc.m;
    let mut c = Cur::new(l, Some(m), &m.types);
    let mut dst = u32::MAX;
    let mut has_dst = false;
    if c.peek() == b'%' {
        c.p += 1;
        let n = c.name();
        dst = fc.reg(&n);
        has_dst = true;
        c.expect("=")?;
    }
    let op = c.word();
    let bin = |o| -> Option<BinOp> {
        Some(match o {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            "mul" => BinOp::Mul,
            "udiv" => BinOp::UDiv,
            "sdiv" => BinOp::SDiv,
            "urem" => BinOp::URem,
            "srem" => BinOp::SRem,
            "and" => BinOp::And,
            "or" => BinOp::Or,
            "xor" => BinOp::Xor,
            "shl" => BinOp::Shl,
            "lshr" => BinOp::LShr,
            "ashr" => BinOp::AShr,
            "fadd" => BinOp::FAdd,
            "fsub" => BinOp::FSub,
            "fmul" => BinOp::FMul,
            "fdiv" => BinOp::FDiv,
            "frem" => BinOp::FRem,
            _ => return None,
        })
    };
    fn flags(c: &mut Cur) {
        while matches!(
            c.peek_word(),
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "nsz" | "nnan" | "ninf" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "volatile"
        ) {
            c.word();
        }
    }
    if let Some(b) = bin(op) {
        flags(&mut c);
        let t = c.ty()?;
        let a = fc.opnd(&mut c, &t)?;
        c.expect(",")?;
        let bb = fc.opnd(&mut c, &t)?;
        return Ok(Some(Instr::Bin(dst, b, t, a, bb)));
    }
    let cast = match op {
        "trunc" => Some(CastOp::Trunc),
        "zext" => Some(CastOp::ZExt),
        "sext" => Some(CastOp::SExt),
        "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => Some(CastOp::Bit),
        "uitofp" => Some(CastOp::UIToFP),
        "sitofp" => Some(CastOp::SIToFP),
        "fptoui" => Some(CastOp::FPToUI),
        "fptosi" => Some(CastOp::FPToSI),
        "fpext" => Some(CastOp::FPExt),
        "fptrunc" => Some(CastOp::FPTrunc),
        _ => None,
    };
    if let Some(k) = cast {
        flags(&mut c);
        let (t, o) = fc.topnd(&mut c)?;
        c.expect("to")?;
        let t2 = c.ty()?;
        return Ok(Some(Instr::Cast(dst, k, t, t2, o)));
    }
    match op {
        "fneg" => {
            flags(&mut c);
            let (t, o) = fc.topnd(&mut c)?;
            Ok(Some(Instr::FNeg(dst, t, o)))
        }
        "icmp" => {
            flags(&mut c);
            let p = match c.word() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                x => return Err(format!("pred {}", x)),
            };
            let t = c.ty()?;
            let a = fc.opnd(&mut c, &t)?;
            c.expect(",")?;
            let b = fc.opnd(&mut c, &t)?;
            Ok(Some(Instr::ICmp(dst, p, t, a, b)))
        }
        "fcmp" => {
            flags(&mut c);
            let p = c.word().to_string();
            let t = c.ty()?;
            let a = fc.opnd(&mut c, &t)?;
            c.expect(",")?;
            let b = fc.opnd(&mut c, &t)?;
            Ok(Some(Instr::FCmp(dst, p, t, a, b)))
        }
        "select" => {
            flags(&mut c);
            let (ct, co) = fc.topnd(&mut c)?;
            c.expect(",")?;
            let (t, a) = fc.topnd(&mut c)?;
            c.expect(",")?;
            let (_, b) = fc.topnd(&mut c)?;
            Ok(Some(Instr::Select(dst, ct, t, co, a, b)))
        }
        "freeze" => {
            let (t, a) = fc.topnd(&mut c)?;
            Ok(Some(Instr::Freeze(dst, t, a)))
        }
        "load" => {
            if c.peek_word() == "atomic" {
                c.word();
            }
            flags(&mut c);
            let t = c.ty()?;
            c.expect(",")?;
            let (_, p) = fc.topnd(&mut c)?;
            Ok(Some(Instr::Load(dst, t, p)))
        }
        "store" => {
            if c.peek_word() == "atomic" {
                c.word();
            }
            flags(&mut c);
            let (t, v) = fc.topnd(&mut c)?;
            c.expect(",")?;
            let (_, p) = fc.topnd(&mut c)?;
            Ok(Some(Instr::Store(t, v, p)))
        }
        "getelementptr" => {
            flags(&mut c);
            let st = c.ty()?;
            c.expect(",")?;
            let (bt, base) = fc.topnd(&mut c)?;
            if bt != Ty::Ptr {
                return Err("vector gep".into());
            }
            let mut coff: i64 = 0;
            let mut idx = vec![];
            let mut cur = st.clone();
            let mut first = true;
            while c.eat(",") {
                if c.peek() == b'!' {
                    break;
                }
                let (it, io) = fc.topnd(&mut c)?;
                let w = it.bits();
                if first {
                    first = false;
                    let sc = st.alloc_size() as i64;
                    match io {
                        Opnd::C(v) => coff = coff.wrapping_add((sext(v as u128, w) as i64).wrapping_mul(sc)),
                        o => idx.push(GepIdx { scale: sc, op: o, w }),
                    }
                } else {
                    match &cur {
                        Ty::Array(_, t) | Ty::Vector(_, t) => {
                            let sc = t.alloc_size() as i64;
                            match io {
                                Opnd::C(v) => coff = coff.wrapping_add((sext(v as u128, w) as i64).wrapping_mul(sc)),
                                o => idx.push(GepIdx { scale: sc, op: o, w }),
                            }
                            let t2 = (**t).clone();
                            cur = t2;
                        }
                        Ty::Struct(..) => match io {
                            Opnd::C(v) => {
                                let (o, t) = cur.elem(v);
                                coff += o as i64;
                                cur = t;
                            }
                            _ => return Err("struct gep by var".into()),
                        },
                        _ => return Err("gep into scalar".into()),
                    }
                }
            }
            Ok(Some(Instr::Gep(dst, base, coff, idx)))
        }
        "alloca" => {
            let t = c.ty()?;
            let mut cnt = None;
            let mut al = t.align();
            while c.eat(",") {
                if c.peek() == b'!' {
                    break;
                }
                if c.eat("align") {
                    al = c.uint()?;
                    continue;
                }
                if c.peek_word() == "addrspace" {
                    c.word();
                    c.skip_parens();
                    continue;
                }
                let (ct, co) = fc.topnd(&mut c)?;
                cnt = Some((ct.bits(), co));
            }
            Ok(Some(Instr::Alloca(dst, t.alloc_size(), al, cnt)))
        }
        "phi" => {
            flags(&mut c);
            let t = c.ty()?;
            let mut inc = vec![];
            loop {
                c.expect("[")?;
                let o = fc.opnd(&mut c, &t)?;
                c.expect(",")?;
                c.expect("%")?;
                let n = c.name();
                let b = fc.lab(&n);
                c.expect("]")?;
                inc.push((b, o));
                if !c.eat(",") {
                    break;
                }
                if c.peek() == b'!' {
                    break;
                }
            }
            phis.push(Phi { dst, ty: t, inc });
            Ok(None)
        }
        "br" => {
            if c.eat("label") {
                c.expect("%")?;
                let n = c.name();
                return Ok(Some(Instr::Br(fc.lab(&n))));
            }
            let (_, co) = fc.topnd(&mut c)?;
            c.expect(",")?;
            c.expect("label")?;
            c.expect("%")?;
            let n1 = c.name();
            let a = fc.lab(&n1);
            c.expect(",")?;
            c.expect("label")?;
            c.expect("%")?;
            let n2 = c.name();
            let b = fc.lab(&n2);
            Ok(Some(Instr::CondBr(co, a, b)))
        }
        "switch" => {
            let (t, o) = fc.topnd(&mut c)?;
            c.expect(",")?;
            c.expect("label")?;
            c.expect("%")?;
            let n = c.name();
            let d = fc.lab(&n);
            c.expect("[")?;
            let mut cases = vec![];
            while !c.eat("]") {
                let t = c.ty()?;
                let k = match c.konst(&t)? {
                    Const::Int(v, _) => v,
                    _ => return Err("switch case".into()),
                };
                c.expect(",")?;
                c.expect("label")?;
                c.expect("%")?;
                let n = c.name();
                cases.push((k, fc.lab(&n)));
            }
            Ok(Some(Instr::Switch(t.bits(), o, d, cases)))
        }
        "ret" => {
            let t = c.ty()?;
            if t == Ty::Void {
                return Ok(Some(Instr::Ret(t, None)));
            }
            let o = fc.opnd(&mut c, &t)?;
            Ok(Some(Instr::Ret(t, Some(o))))
        }
        "unreachable" => Ok(Some(Instr::Unreachable)),
        "extractvalue" => {
            let (t, o) = fc.topnd(&mut c)?;
            let mut ix = vec![];
            while c.eat(",") {
                if c.peek() == b'!' {
                    break;
                }
                ix.push(c.uint()? as u32);
            }
            Ok(Some(Instr::ExtractValue(dst, t, o, ix)))
        }
        "insertvalue" => {
            let (t, o) = fc.topnd(&mut c)?;
            c.expect(",")?;
            let (vt, v) = fc.topnd(&mut c)?;
            let mut ix = vec![];
            while c.eat(",") {
                if c.peek() == b'!' {
                    break;
                }
                ix.push(c.uint()? as u32);
            }
            Ok(Some(Instr::InsertValue(dst, t, o, vt, v, ix)))
        }
        "extractelement" => {
            let (t, o) = fc.topnd(&mut c)?;
            c.expect(",")?;
            let (_, i) = fc.topnd(&mut c)?;
            Ok(Some(Instr::ExtractElement(dst, t, o, i)))
        }
        "insertelement" => {
            let (t, o) = fc.topnd(&mut c)?;
            c.expect(",")?;
            let (_, v) = fc.topnd(&mut c)?;
            c.expect(",")?;
            let (_, i) = fc.topnd(&mut c)?;
            Ok(Some(Instr::InsertElement(dst, t, o, v, i)))
        }
        "shufflevector" => {
            let (t, a) = fc.topnd(&mut c)?;
            c.expect(",")?;
            let (_, b) = fc.topnd(&mut c)?;
            c.expect(",")?;
            let mt = c.ty()?;
            let k = expand(&mt, c.konst(&mt)?);
            let mut ix = vec![];
            if let Const::Agg(v) = k {
                for (_, e) in v {
                    ix.push(match e {
                        Const::Int(v, _) => v as i64,
                        _ => -1,
                    });
                }
            } else {
                return Err("shuffle mask".into());
            }
            Ok(Some(Instr::Shuffle(dst, t, a, b, ix)))
        }
        "fence" => Ok(Some(Instr::Nop)),
        "atomicrmw" => {
            flags(&mut c);
            let o = c.word().to_string();
            let (_, p) = fc.topnd(&mut c)?;
            c.expect(",")?;
            let (t, v) = fc.topnd(&mut c)?;
            Ok(Some(Instr::AtomicRMW(dst, o, t, p, v)))
        }
        "cmpxchg" => {
            if c.peek_word() == "weak" {
                c.word();
            }
            flags(&mut c);
            let (_, p) = fc.topnd(&mut c)?;
            c.expect(",")?;
            let (t, a) = fc.topnd(&mut c)?;
            c.expect(",")?;
            let (_, b) = fc.topnd(&mut c)?;
            Ok(Some(Instr::CmpXchg(dst, t, p, a, b)))
        }
        "landingpad" | "resume" => Ok(Some(Instr::Unsupported(op.to_string()))),
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if op != "call" && op != "invoke" {
                c.expect("call")?;
            }
            c.skip_attrs();
            let ret = c.ty()?;
            // function type form: ret (args...)
            c.ws();
            if c.s.get(c.p) == Some(&b'(') {
                c.skip_parens();
            }
            c.skip_attrs();
            if c.peek_word() == "asm" {
                return Ok(Some(if has_dst { Instr::Unsupported("asm".into()) } else { Instr::Nop }));
            }
            let callee = if c.peek() == b'@' {
                c.p += 1;
                let n = c.name();
                match m.fmap.get(&n) {
                    Some(&f) => Callee::Func(f),
                    None => return Err(format!("unknown callee {}", n)),
                }
            } else {
                Callee::Indirect(fc.opnd(&mut c, &Ty::Ptr)?)
            };
            c.expect("(")?;
            let mut args = vec![];
            if !c.eat(")") {
                loop {
                    let t = c.ty()?;
                    c.skip_attrs();
                    let o = fc.opnd(&mut c, &t)?;
                    args.push((t, o));
                    if c.eat(")") {
                        break;
                    }
                    c.expect(",")?;
                }
            }
            let mut normal = None;
            if op == "invoke" {
                c.skip_attrs();
                // operand bundles unlikely
                while !c.eat("to") {
                    c.p += 1;
                    if c.p >= c.s.len() {
                        return Err("invoke to".into());
                    }
                }
                c.expect("label")?;
                c.expect("%")?;
                let n = c.name();
                normal = Some(fc.lab(&n));
            }
            let void = ret == Ty::Void;
            Ok(Some(Instr::Call(Box::new(CallI {
                dst: if has_dst && !void { Some(dst) } else { None },
                ret,
                callee,
                args,
                normal,
                noreturn: false,
            }))))
        }
        _ => Err(format!("unknown op {}", op)),
    }
}
