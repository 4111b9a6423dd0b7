//! Hash-consed bit-vector / IEEE-float expression DAG with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Sym,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,  // a = hi, b = lo
    Extract, // a = expr, b = low bit, width = w
    ZExt,
    SExt,
    Table, // a = table id, b = index expr
    FAdd,
    FSub,
    FMul,
    FDiv,
    FEq,
    FLt,
    FLe,
    FUno,
    SIToFP, // a = int expr, to width w
    UIToFP,
    FPToSIsat, // rust saturating casts: NaN -> 0
    FPToUIsat,
    FPExt,
    FPTrunc,
    Bounded, // a = expr known (on this path) to lie in consts[b] ..= consts[c]
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Table {
    pub vals: Vec<u128>, // value for each index 0..n (element width = w)
    pub w: u8,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub supp: Vec<u128>,
    pub rng: Vec<(u128, u128)>,
    map: FxMap<Node, E>,
    consts: Vec<u128>,
    cmap: FxMap<u128, u32>,
    pub tables: Vec<Table>,
    tmap: HashMap<(u64, u64, u32, u32), u32>, // (obj addr, start, stride, width) -> table
    ev_gen: u32,
    ev: Vec<(u32, u128)>,
    /// widths seen for each symbol number
    pub sym_w: Vec<Vec<u8>>,
}

use crate::ir::{mask, sext};

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: Vec::new(),
            supp: Vec::new(),
            rng: Vec::new(),
            map: FxMap::default(),
            consts: Vec::new(),
            cmap: FxMap::default(),
            tables: Vec::new(),
            tmap: HashMap::new(),
            ev_gen: 1,
            ev: Vec::new(),
            sym_w: Vec::new(),
        };
        a.konst(0, 1);
        a.konst(1, 1);
        a
    }
    pub fn tru(&self) -> E {
        1
    }
    pub fn fls(&self) -> E {
        0
    }
    fn mk(&mut self, op: Op, w: u8, a: u32, b: u32, c: u32) -> E {
        let n = Node { op, w, a, b, c };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let s = match op {
            Op::Const => 0,
            Op::Sym => 1u128 << a,
            Op::Extract | Op::ZExt | Op::SExt | Op::SIToFP | Op::UIToFP | Op::FPToSIsat | Op::FPToUIsat | Op::FPExt | Op::FPTrunc | Op::Bounded => {
                self.supp[a as usize]
            }
            Op::Table => self.supp[b as usize],
            Op::Ite => self.supp[a as usize] | self.supp[b as usize] | self.supp[c as usize],
            _ => self.supp[a as usize] | self.supp[b as usize],
        };
        let e = self.nodes.len() as u32;
        let r = self.range_of(&n);
        self.nodes.push(n);
        self.supp.push(s);
        self.rng.push(r);
        self.map.insert(n, e);
        e
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        let v = mask(v, w);
        let i = match self.cmap.get(&v) {
            Some(&i) => i,
            None => {
                let i = self.consts.len() as u32;
                self.consts.push(v);
                self.cmap.insert(v, i);
                i
            }
        };
        self.mk(Op::Const, w as u8, i, 0, 0)
    }
    pub fn sym(&mut self, idx: u32, w: u32) -> E {
        assert!(idx < 128, "too many symbolic variables");
        while self.sym_w.len() <= idx as usize {
            self.sym_w.push(vec![]);
        }
        if !self.sym_w[idx as usize].contains(&(w as u8)) {
            self.sym_w[idx as usize].push(w as u8);
        }
        self.mk(Op::Sym, w as u8, idx, 0, 0)
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn get(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    /// `e`, annotated with an interval implied by the path condition
    pub fn bounded(&mut self, e: E, lo: u32, hi: u32) -> E {
        let w = self.w(e) as u8;
        self.mk(Op::Bounded, w, e, lo, hi)
    }
    pub fn boolc(&self, b: bool) -> E {
        b as u32
    }

    pub fn table(&mut self, key: (u64, u64, u32, u32), mkv: impl FnOnce() -> Vec<u128>, w: u32) -> u32 {
        if let Some(&t) = self.tmap.get(&key) {
            return t;
        }
        let t = self.tables.len() as u32;
        self.tables.push(Table { vals: mkv(), w: w as u8 });
        self.tmap.insert(key, t);
        t
    }
    /// Tables of decimal digits (checked entry by entry) in closed form.
    pub fn decimal_table(&mut self, t: u32, idx: E) -> Option<E> {
        if self.get(idx).is_some() {
            return None;
        }
        let tb = &self.tables[t as usize];
        if tb.vals.len() > 100 || tb.vals.len() < 2 {
            return None;
        }
        let w = tb.w as u32;
        let all = |f: &dyn Fn(u128) -> u128| tb.vals.iter().enumerate().all(|(j, v)| *v == f(j as u128));
        let kind = if w == 8 && all(&|j| 48 + j / 10) {
            0
        } else if w == 8 && all(&|j| 48 + j % 10) {
            1
        } else if w == 16 && all(&|j| (48 + j / 10) | (48 + j % 10) << 8) {
            2
        } else {
            return None;
        };
        let j = if self.w(idx) < 8 { self.zext(idx, 8) } else { self.extract(idx, 0, 8) };
        let (ten, zero) = (self.konst(10, 8), self.konst(48, 8));
        let hi = self.bin(Op::UDiv, j, ten);
        let hi = self.bin(Op::Add, hi, zero);
        let lo = self.bin(Op::URem, j, ten);
        let lo = self.bin(Op::Add, lo, zero);
        Some(match kind {
            0 => hi,
            1 => lo,
            _ => self.concat(lo, hi),
        })
    }
    pub fn mk_table(&mut self, t: u32, idx: E) -> E {
        if let Some(v) = self.get(idx) {
            let tb = &self.tables[t as usize];
            let r = tb.vals.get(v as usize).copied().unwrap_or(0);
            let w = tb.w as u32;
            return self.konst(r, w);
        }
        let w = self.tables[t as usize].w;
        self.mk(Op::Table, w, t, idx, 0)
    }

    fn fold2(op: Op, w: u32, a: u128, b: u128) -> u128 {
        let m = |x| mask(x, w);
        match op {
            Op::Add => m(a.wrapping_add(b)),
            Op::Sub => m(a.wrapping_sub(b)),
            Op::Mul => m(a.wrapping_mul(b)),
            Op::UDiv => {
                if b == 0 {
                    m(u128::MAX)
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    m(if x < 0 { 1 } else { u128::MAX })
                } else {
                    m(x.wrapping_div(y) as u128)
                }
            }
            Op::SRem => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    a
                } else {
                    m(x.wrapping_rem(y) as u128)
                }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    m(a << b)
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let x = sext(a, w);
                let s = if b >= w as u128 { w - 1 } else { b as u32 };
                m((x >> s) as u128)
            }
            _ => unreachable!(),
        }
    }
    fn fold_cmp(op: Op, w: u32, a: u128, b: u128) -> bool {
        match op {
            Op::Eq => a == b,
            Op::Ult => a < b,
            Op::Ule => a <= b,
            Op::Slt => sext(a, w) < sext(b, w),
            Op::Sle => sext(a, w) <= sext(b, w),
            _ => unreachable!(),
        }
    }
    fn fold_fp2(op: Op, w: u32, a: u128, b: u128) -> u128 {
        if w == 64 {
            let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
            let r = match op {
                Op::FAdd => x + y,
                Op::FSub => x - y,
                Op::FMul => x * y,
                Op::FDiv => x / y,
                _ => unreachable!(),
            };
            r.to_bits() as u128
        } else {
            let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
            let r = match op {
                Op::FAdd => x + y,
                Op::FSub => x - y,
                Op::FMul => x * y,
                Op::FDiv => x / y,
                _ => unreachable!(),
            };
            r.to_bits() as u128
        }
    }
    fn fold_fcmp(op: Op, w: u32, a: u128, b: u128) -> bool {
        let (x, y) = if w == 64 {
            (f64::from_bits(a as u64), f64::from_bits(b as u64))
        } else {
            (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
        };
        match op {
            Op::FEq => x == y,
            Op::FLt => x < y,
            Op::FLe => x <= y,
            Op::FUno => x.is_nan() || y.is_nan(),
            _ => unreachable!(),
        }
    }
    fn fold_conv(op: Op, from: u32, to: u32, a: u128) -> u128 {
        match op {
            Op::UIToFP => {
                if to == 64 {
                    (a as f64).to_bits() as u128
                } else {
                    (a as f32).to_bits() as u128
                }
            }
            Op::SIToFP => {
                let s = sext(a, from);
                if to == 64 {
                    (s as f64).to_bits() as u128
                } else {
                    (s as f32).to_bits() as u128
                }
            }
            Op::FPExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
            Op::FPTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
            Op::FPToSIsat => {
                let x = if from == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 };
                let lim = 1i128 << (to - 1);
                let v = if x.is_nan() { 0 } else { (x as i128).clamp(-lim, lim - 1) };
                mask(v as u128, to)
            }
            Op::FPToUIsat => {
                let x = if from == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 };
                let lim = mask(u128::MAX, to);
                (x as u128).min(lim)
            }
            _ => unreachable!(),
        }
    }

    pub fn fp2(&mut self, op: Op, a: E, b: E) -> E {
        // commutative (the payload of a NaN result is not relied upon)
        let (a, b) = if matches!(op, Op::FMul | Op::FAdd) && self.get(a).is_some() && self.get(b).is_none() {
            (b, a)
        } else {
            (a, b)
        };
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.get(a), self.get(b)) {
            return self.konst(Self::fold_fp2(op, w, x, y), w);
        }
        // multiplication and division by one
        let one = if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 };
        if matches!(op, Op::FMul | Op::FDiv) && self.get(b) == Some(one) && self.frange(a, 0).is_some() {
            return a;
        }
        self.mk(op, w as u8, a, b, 0)
    }
    pub fn fcmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.get(a), self.get(b)) {
            return self.boolc(Self::fold_fcmp(op, w, x, y));
        }
        // sound interval reasoning (round-to-nearest is monotone), so that magnitude tests do
        // not reach the bit-level float theory
        if let (Some((al, ah)), Some((bl, bh))) = (self.frange(a, 0), self.frange(b, 0)) {
            let r = match op {
                Op::FUno => Some(false),
                Op::FEq => {
                    if ah < bl || bh < al {
                        Some(false)
                    } else {
                        None
                    }
                }
                Op::FLt => {
                    if ah < bl {
                        Some(true)
                    } else if al >= bh {
                        Some(false)
                    } else {
                        None
                    }
                }
                _ => {
                    if ah <= bl {
                        Some(true)
                    } else if al > bh {
                        Some(false)
                    } else {
                        None
                    }
                }
            };
            if let Some(r) = r {
                return self.boolc(r);
            }
        }
        // a choice with a known arm against a constant
        for (x, y, rev) in [(a, b, false), (b, a, true)] {
            let n = self.n(x);
            if n.op == Op::Ite && self.get(y).is_some() && (self.get(n.b).is_some() || self.get(n.c).is_some()) {
                let (p, q) = if rev { (self.fcmp(op, y, n.b), self.fcmp(op, y, n.c)) } else { (self.fcmp(op, n.b, y), self.fcmp(op, n.c, y)) };
                return self.ite(n.a, p, q);
            }
        }
        // -x against a constant (or another negation)
        let sign = 1u128 << (w - 1);
        let neg = |ar: &Arena, e: E| -> Option<E> {
            let n = ar.n(e);
            if n.op == Op::Xor && ar.get(n.b) == Some(sign) { Some(n.a) } else { None }
        };
        let (na, nb) = (neg(self, a), neg(self, b));
        if na.is_some() || nb.is_some() {
            let flip = |ar: &mut Arena, e: E, m: Option<E>| -> Option<E> {
                match (m, ar.get(e)) {
                    (Some(x), _) => Some(x),
                    (_, Some(k)) => Some(ar.konst(k ^ sign, w)),
                    _ => None,
                }
            };
            if let (Some(x), Some(y)) = (flip(self, a, na), flip(self, b, nb)) {
                return match op {
                    Op::FLt | Op::FLe => self.fcmp(op, y, x),
                    _ => self.fcmp(op, x, y),
                };
            }
        }
        if let Some(r) = self.fthreshold(op, a, b) {
            return r;
        }
        self.mk(op, 1, a, b, 0)
    }

    /// `e` as a monotone function of a nonnegative integer: multiplications and divisions by
    /// positive constants applied to an unsigned conversion.  Round-to-nearest is monotone, so
    /// a comparison with a constant is a threshold on the integer.
    fn fchain(&self, mut e: E) -> Option<(E, Vec<(Op, u128)>)> {
        let w = self.w(e);
        let mut ops = vec![];
        loop {
            let n = self.n(e);
            match n.op {
                Op::FMul | Op::FDiv => {
                    let (x, k) = match (self.get(n.a), self.get(n.b)) {
                        (None, Some(k)) => (n.a, k),
                        (Some(k), None) if n.op == Op::FMul => (n.b, k),
                        _ => return None,
                    };
                    let f = if w == 64 { f64::from_bits(k as u64) } else { f32::from_bits(k as u32) as f64 };
                    if !(f > 0.0 && f.is_finite()) {
                        return None;
                    }
                    ops.push((n.op, k));
                    e = x;
                }
                Op::UIToFP => {
                    if self.w(n.a) > 64 {
                        return None;
                    }
                    ops.reverse();
                    return Some((n.a, ops));
                }
                Op::SIToFP => {
                    let iw = self.w(n.a);
                    if iw > 64 || self.urange(n.a).1 >= 1u128 << (iw - 1) {
                        return None;
                    }
                    ops.reverse();
                    return Some((n.a, ops));
                }
                _ => return None,
            }
        }
    }
    /// absolute value, dropped where the operand is certainly not negative
    pub fn fabs(&mut self, e: E) -> E {
        let w = self.w(e);
        let n = self.n(e);
        if n.op == Op::Xor && self.get(n.b) == Some(1u128 << (w - 1)) {
            return self.fabs(n.a);
        }
        if self.get(e).is_none() && self.fchain(e).is_some() {
            return e;
        }
        let x = self.extract(e, 0, w - 1);
        self.zext(x, w)
    }
    fn fchain_at(ops: &[(Op, u128)], w: u32, x: u128) -> u128 {
        let mut v = Self::fold_conv(Op::UIToFP, 64, w, x);
        for &(op, k) in ops {
            v = Self::fold_fp2(op, w, v, k);
        }
        v
    }
    fn fthreshold(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w != 64 && w != 32 {
            return None;
        }
        let (e, k, left) = match (self.get(a), self.get(b)) {
            (None, Some(k)) => (a, k, true),
            (Some(k), None) => (b, k, false),
            _ => return None,
        };
        let kf = if w == 64 { f64::from_bits(k as u64) } else { f32::from_bits(k as u32) as f64 };
        let (x, ops) = self.fchain(e)?;
        if kf.is_nan() {
            return Some(self.boolc(op == Op::FUno));
        }
        if op == Op::FUno {
            return Some(self.fls()); // finite nonnegative inputs, positive factors: never NaN
        }
        let (lo, hi) = self.urange(x);
        // least value of x for which p(f(x)), with p upward closed; None if there is none
        let least = |p: &dyn Fn(f64) -> bool| -> Option<u128> {
            let at = |x: u128| {
                let v = Self::fchain_at(&ops, w, x);
                if w == 64 {
                    f64::from_bits(v as u64)
                } else {
                    f32::from_bits(v as u32) as f64
                }
            };
            if !p(at(hi)) {
                return None;
            }
            let (mut l, mut h) = (lo, hi);
            while l < h {
                let m = l + (h - l) / 2;
                if p(at(m)) {
                    h = m;
                } else {
                    l = m + 1;
                }
            }
            Some(l)
        };
        let ge = least(&|f| f >= kf); // f(x) >= k  <=>  x >= ge
        let gt = least(&|f| f > kf);
        let iw = self.w(x);
        let mut atleast = |s: &mut Self, t: Option<u128>| match t {
            None => s.fls(),
            Some(t) => {
                let c = s.konst(t, iw);
                s.cmp(Op::Ule, c, x)
            }
        };
        let g = atleast(self, ge);
        let gg = atleast(self, gt);
        Some(match (op, left) {
            (Op::FEq, _) => {
                let n = self.not(gg);
                self.and(g, n)
            }
            (Op::FLt, true) => self.not(g),  // f < k
            (Op::FLt, false) => gg,          // k < f
            (Op::FLe, true) => self.not(gg), // f <= k
            _ => g,                          // k <= f
        })
    }
    /// unsigned range of an integer expression (syntactic, computed once per node)
    #[inline]
    pub fn urange(&self, e: E) -> (u128, u128) {
        self.rng[e as usize]
    }
    fn range_of(&self, n: &Node) -> (u128, u128) {
        let full = (0, mask(u128::MAX, n.w as u32));
        let r = |e: u32| self.rng[e as usize];
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                (v, v)
            }
            Op::ZExt => r(n.a),
            Op::Bounded => (n.b as u128, n.c as u128),
            Op::Concat => {
                let lw = self.w(n.b);
                let h = r(n.a);
                let l = r(n.b);
                ((h.0 << lw) + l.0, (h.1 << lw) + l.1)
            }
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_add(b.1) {
                    Some(h) if h <= full.1 => (a.0 + b.0, h),
                    _ => full,
                }
            }
            Op::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= full.1 => (a.0 * b.0, h),
                    _ => full,
                }
            }
            Op::And => (0, r(n.a).1.min(r(n.b).1)),
            Op::Ite => {
                let (a, b) = (r(n.b), r(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::Table => {
                let t = &self.tables[n.a as usize].vals;
                (*t.iter().min().unwrap(), *t.iter().max().unwrap())
            }
            Op::UDiv => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (0, a.1.min(b.1 - 1))
                } else {
                    full
                }
            }
            Op::Extract => {
                let a = r(n.a);
                let (l, h) = (a.0 >> n.b, a.1 >> n.b);
                if h <= full.1 {
                    (l, h)
                } else {
                    full
                }
            }
            // the bit patterns of non-negative doubles are ordered like the doubles
            Op::UIToFP if n.w == 64 => {
                let a = r(n.a);
                ((a.0 as f64).to_bits() as u128, (a.1 as f64).to_bits() as u128)
            }
            Op::FMul | Op::FDiv | Op::FAdd if n.w == 64 => {
                let (a, b) = (r(n.a), r(n.b));
                let max = f64::MAX.to_bits() as u128;
                if a.1 > max || b.1 > max || (n.op == Op::FDiv && b.0 == 0) {
                    return full;
                }
                let f = |x: u128| f64::from_bits(x as u64);
                let (l, h) = match n.op {
                    Op::FMul => (f(a.0) * f(b.0), f(a.1) * f(b.1)),
                    Op::FAdd => (f(a.0) + f(b.0), f(a.1) + f(b.1)),
                    _ => (f(a.0) / f(b.1), f(a.1) / f(b.0)),
                };
                (l.to_bits() as u128, h.to_bits() as u128)
            }
            Op::Xor if n.w > 1 && self.get(n.b) == Some(1u128 << (n.w - 1)) => {
                let a = r(n.a);
                let h = 1u128 << (n.w - 1);
                if a.1 < h {
                    (a.0 + h, a.1 + h)
                } else if a.0 >= h {
                    (a.0 - h, a.1 - h)
                } else {
                    full
                }
            }
            Op::LShr if self.get(n.b).is_some() => {
                let k = self.get(n.b).unwrap();
                let a = r(n.a);
                if k < 128 {
                    (a.0 >> k, a.1 >> k)
                } else {
                    (0, 0)
                }
            }
            _ => full,
        }
    }

    /// signed range of an integer expression
    pub fn srange(&self, e: E, d: u32) -> (i128, i128) {
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        let full = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
        let (l, h) = self.urange(e);
        if w >= 128 || d > 12 {
            return full;
        }
        if h <= full.1 as u128 {
            return (l as i128, h as i128);
        }
        if l > full.1 as u128 {
            return (sext(l, w), sext(h, w));
        }
        let fit = |x: (i128, i128)| if x.0 >= full.0 && x.1 <= full.1 { x } else { full };
        match n.op {
            Op::Const => {
                let v = sext(self.consts[n.a as usize], w);
                (v, v)
            }
            Op::SExt => self.srange(n.a, d + 1),
            Op::Add => {
                let (a, b) = (self.srange(n.a, d + 1), self.srange(n.b, d + 1));
                fit((a.0 + b.0, a.1 + b.1))
            }
            Op::Sub => {
                let (a, b) = (self.srange(n.a, d + 1), self.srange(n.b, d + 1));
                fit((a.0 - b.1, a.1 - b.0))
            }
            Op::Ite => {
                let (a, b) = (self.srange(n.b, d + 1), self.srange(n.c, d + 1));
                (a.0.min(b.0), a.1.max(b.1))
            }
            _ => full,
        }
    }

    /// range of a float expression that is certainly not NaN
    pub fn frange(&self, e: E, d: u32) -> Option<(f64, f64)> {
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        if d > 40 || (w != 64 && w != 32) {
            return None;
        }
        let rnd = |x: f64| if w == 32 { (x as f32) as f64 } else { x };
        match n.op {
            Op::Const => {
                let v = self.get(e).unwrap();
                let f = if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                if f.is_nan() {
                    None
                } else {
                    Some((f, f))
                }
            }
            Op::UIToFP => {
                let (l, h) = self.urange(n.a);
                if w == 64 {
                    Some((l as f64, h as f64))
                } else {
                    Some(((l as f32) as f64, (h as f32) as f64))
                }
            }
            Op::SIToFP => {
                let iw = self.w(n.a);
                let (l, h) = self.urange(n.a);
                if iw <= 64 && h < 1u128 << (iw - 1) {
                    Some((l as f64, h as f64)).filter(|_| w == 64)
                } else {
                    let m = 2f64.powi(iw as i32 - 1);
                    Some((-m, m))
                }
            }
            Op::FPExt => self.frange(n.a, d + 1),
            Op::FPTrunc => self.frange(n.a, d + 1).map(|(a, b)| (rnd(a), rnd(b))),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv if w == 64 => {
                let (a, b) = (self.frange(n.a, d + 1)?, self.frange(n.b, d + 1)?);
                let fin = |x: (f64, f64)| x.0.is_finite() && x.1.is_finite();
                if !fin(a) || !fin(b) {
                    return None;
                }
                match n.op {
                    Op::FAdd => Some((a.0 + b.0, a.1 + b.1)),
                    Op::FSub => Some((a.0 - b.1, a.1 - b.0)),
                    Op::FMul => {
                        let c = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
                        Some((c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max)))
                    }
                    _ => {
                        if b.0 <= 0.0 && b.1 >= 0.0 {
                            return None;
                        }
                        let c = [a.0 / b.0, a.0 / b.1, a.1 / b.0, a.1 / b.1];
                        Some((c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max)))
                    }
                }
            }
            Op::Ite => {
                let (a, b) = (self.frange(n.b, d + 1)?, self.frange(n.c, d + 1)?);
                Some((a.0.min(b.0), a.1.max(b.1)))
            }
            // fabs: sign bit cleared
            Op::ZExt => {
                let m = self.nodes[n.a as usize];
                if m.op == Op::Extract && m.b == 0 && m.w as u32 == w - 1 && self.w(m.a) == w {
                    let (a, b) = self.frange(m.a, d + 1)?;
                    let hi = a.abs().max(b.abs());
                    let lo = if a <= 0.0 && b >= 0.0 { 0.0 } else { a.abs().min(b.abs()) };
                    return Some((lo, hi));
                }
                None
            }
            // fneg: sign bit flipped
            Op::Xor => {
                if self.get(n.b) == Some(1u128 << (w - 1)) {
                    let (a, b) = self.frange(n.a, d + 1)?;
                    return Some((-b, -a));
                }
                None
            }
            _ => None,
        }
    }

    pub fn conv(&mut self, op: Op, a: E, to: u32) -> E {
        let from = self.w(a);
        if let Some(x) = self.get(a) {
            return self.konst(Self::fold_conv(op, from, to, x), to);
        }
        if op == Op::SIToFP && from <= 64 {
            if self.srange(a, 0).0 >= 0 {
                return self.conv(Op::UIToFP, a, to);
            }
            // 0 - x
            let n = self.n(a);
            if n.op == Op::Sub && self.get(n.a) == Some(0) && self.urange(n.b).1 <= 1 << (from - 1) {
                let f = self.conv(Op::UIToFP, n.b, to);
                let s = self.konst(1 << (to - 1), to);
                let f = self.bin(Op::Xor, f, s);
                let z = self.konst(0, from);
                let c = self.cmp(Op::Eq, n.b, z);
                let zf = self.konst(0, to);
                return self.ite(c, zf, f);
            }
        }
        if op == Op::FPTrunc && self.n(a).op == Op::FPExt && self.w(self.n(a).a) == to {
            // widening is exact; only the payload of a NaN is quieted
            let x = self.n(a).a;
            let nan = self.cmp(Op::FUno, x, x);
            let q = self.konst(if to == 32 { 1 << 22 } else { 1 << 51 }, to);
            let y = self.bin(Op::Or, x, q);
            return self.ite(nan, y, x);
        }
        self.mk(op, to as u8, a, 0, 0)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.get(a), self.get(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(Self::fold2(op, w, x, y), w);
        }
        let ones = mask(u128::MAX, w);
        // bounded operands: do the arithmetic in as few bits as needed
        if w > 8 && matches!(op, Op::Add | Op::Mul | Op::UDiv | Op::URem) {
            let (ra, rb) = (self.urange(a), self.urange(b));
            let hi = match op {
                Op::Add => ra.1.checked_add(rb.1),
                Op::Mul => ra.1.checked_mul(rb.1),
                _ => Some(ra.1.max(rb.1)),
            };
            if let Some(h) = hi {
                let k = (128 - h.leading_zeros()).max(1);
                if k < w && (!matches!(op, Op::UDiv | Op::URem) || rb.0 > 0) && cb != Some(0) && cb != Some(1) {
                    let x = self.extract(a, 0, k);
                    let y = self.extract(b, 0, k);
                    let r = self.bin(op, x, y);
                    return self.zext(r, w);
                }
            }
        }
        // canonical: constants right for commutative ops
        let (a, b, ca, cb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor if ca.is_some() => (b, a, cb, ca),
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor if cb.is_none() && a > b => (b, a, cb, ca),
            _ => (a, b, ca, cb),
        };
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let n = self.n(a);
                    if n.op == Op::Add {
                        if let Some(x) = self.get(n.b) {
                            let k = self.konst(x.wrapping_add(y), w);
                            return self.bin(Op::Add, n.a, k);
                        }
                    }
                    if n.op == Op::Sub {
                        if let Some(x) = self.get(n.a) {
                            let k = self.konst(x.wrapping_add(y), w);
                            return self.bin(Op::Sub, k, n.b);
                        }
                    }
                    if n.op == Op::Ite {
                        if self.get(n.b).is_some() && self.get(n.c).is_some() {
                            let l = self.bin(Op::Add, n.b, b);
                            let r = self.bin(Op::Add, n.c, b);
                            return self.ite(n.a, l, r);
                        }
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = cb {
                    let k = self.konst(0u128.wrapping_sub(y), w);
                    return self.bin(Op::Add, a, k);
                }
                if let Some(x) = ca {
                    let n = self.n(b);
                    if n.op == Op::Sub {
                        if let Some(y) = self.get(n.a) {
                            let k = self.konst(x.wrapping_sub(y), w);
                            return self.bin(Op::Add, n.b, k);
                        }
                    }
                    if n.op == Op::Add {
                        if let Some(y) = self.get(n.b) {
                            let k = self.konst(x.wrapping_sub(y), w);
                            return self.bin(Op::Sub, k, n.a);
                        }
                    }
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, k);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(y - 1, w);
                        return self.bin(Op::And, a, k);
                    }
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(ones) || a == b {
                    return a;
                }
                if let Some(y) = cb {
                    let n = self.n(a);
                    // and of low mask -> zext(extract)
                    if (y + 1).is_power_of_two() {
                        let k = (y + 1).trailing_zeros();
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let k = self.konst(mask(y, iw), iw);
                        let x = self.bin(Op::And, n.a, k);
                        return self.zext(x, w);
                    }
                    if n.op == Op::And {
                        if let Some(x) = self.get(n.b) {
                            let k = self.konst(x & y, w);
                            return self.bin(Op::And, n.a, k);
                        }
                    }
                    if n.op == Op::Ite && self.get(n.b).is_some() && self.get(n.c).is_some() {
                        let l = self.bin(op, n.b, b);
                        let r = self.bin(op, n.c, b);
                        return self.ite(n.a, l, r);
                    }
                }
                if w == 1 {
                    if self.not(a) == b {
                        return self.fls();
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(ones) {
                    return b;
                }
                if w == 1 {
                    if self.not(a) == b {
                        return self.tru();
                    }
                } else {
                    // or of disjoint shifted pieces -> concat
                    if let Some(r) = self.or_concat(a, b, w) {
                        return r;
                    }
                    if let Some(r) = self.or_concat(b, a, w) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = cb {
                    let n = self.n(a);
                    if n.op == Op::Xor {
                        if let Some(x) = self.get(n.b) {
                            let k = self.konst(x ^ y, w);
                            return self.bin(Op::Xor, n.a, k);
                        }
                    }
                    if w == 1 && n.op == Op::Ult && false {
                        return a;
                    }
                    if n.op == Op::Ite && self.get(n.b).is_some() && self.get(n.c).is_some() {
                        let l = self.bin(op, n.b, b);
                        let r = self.bin(op, n.c, b);
                        return self.ite(n.a, l, r);
                    }
                }
            }
            Op::Shl => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(s) = cb {
                    if s >= w as u128 {
                        return self.konst(0, w);
                    }
                    // (a << s) = concat(extract(a, 0, w-s), 0_s)
                    let hi = self.extract(a, 0, w - s as u32);
                    let z = self.konst(0, s as u32);
                    return self.concat(hi, z);
                }
            }
            Op::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(s) = cb {
                    if s >= w as u128 {
                        return self.konst(0, w);
                    }
                    let x = self.extract(a, s as u32, w - s as u32);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(s) = cb {
                    let s = (s as u32).min(w - 1);
                    let x = self.extract(a, s, w - s);
                    return self.sext(x, w);
                }
            }
            _ => {}
        }
        self.mk(op, w as u8, a, b, 0)
    }

    /// a = hi piece with zero low bits, b = value with zero high bits
    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        let n = self.n(a);
        // a = concat(hi, 0_k) ; b = zext(x) with w(x) <= k, or const < 2^k
        if n.op == Op::Concat && self.get(n.b) == Some(0) {
            let k = self.w(n.b);
            if let Some(v) = self.get(b) {
                if v < (1u128 << k) {
                    let lo = self.konst(v, k);
                    return Some(self.concat(n.a, lo));
                }
            }
            let m = self.n(b);
            if m.op == Op::ZExt && self.w(m.a) <= k {
                let lo = self.zext(m.a, k);
                return Some(self.concat(n.a, lo));
            }
        }
        // a = zext(concat(hi,0_k))
        if n.op == Op::ZExt {
            let m = self.n(n.a);
            if m.op == Op::Concat && self.get(m.b) == Some(0) {
                let iw = self.w(n.a);
                let bn = self.n(b);
                let k = self.w(m.b);
                if bn.op == Op::ZExt && self.w(bn.a) <= k {
                    let lo = self.zext(bn.a, k);
                    let c = self.concat(m.a, lo);
                    debug_assert!(self.w(c) == iw);
                    return Some(self.zext(c, w));
                }
                if let Some(v) = self.get(b) {
                    if v < (1u128 << k) {
                        let lo = self.konst(v, k);
                        let c = self.concat(m.a, lo);
                        return Some(self.zext(c, w));
                    }
                }
            }
        }
        None
    }

    pub fn not(&mut self, a: E) -> E {
        // boolean negation (width 1)
        let n = self.n(a);
        match n.op {
            Op::Const => self.boolc(self.get(a) == Some(0)),
            Op::Xor if self.get(n.b) == Some(1) => n.a,
            Op::Ult => self.mk(Op::Ule, 1, n.b, n.a, 0),
            Op::Ule => self.mk(Op::Ult, 1, n.b, n.a, 0),
            Op::Slt => self.mk(Op::Sle, 1, n.b, n.a, 0),
            Op::Sle => self.mk(Op::Slt, 1, n.b, n.a, 0),
            _ => {
                let o = self.tru();
                self.mk(Op::Xor, 1, a, o, 0)
            }
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }

    /// `e` as `A*k + B` (no overflow, B < k): (A, k, B)
    fn strip(&self, e: E) -> E {
        let n = self.n(e);
        if n.op == Op::Bounded {
            n.a
        } else {
            e
        }
    }
    fn horner(&self, e: E, w: u32) -> Option<(E, u128, E)> {
        let n = self.n(e);
        if n.op != Op::Add {
            return None;
        }
        for (m, d) in [(n.a, n.b), (n.b, n.a)] {
            let mn = self.n(m);
            if mn.op != Op::Mul {
                continue;
            }
            for (x, kk) in [(mn.a, mn.b), (mn.b, mn.a)] {
                if let Some(k) = self.get(kk) {
                    let full = mask(u128::MAX, w);
                    let hd = self.urange(d).1;
                    if k > 1 && hd < k && matches!(self.urange(x).1.checked_mul(k).and_then(|v| v.checked_add(hd)), Some(v) if v <= full) {
                        return Some((x, k, d));
                    }
                }
            }
        }
        None
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.get(a), self.get(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.boolc(Self::fold_cmp(op, w, x, y));
        }
        if a == b {
            return self.boolc(matches!(op, Op::Eq | Op::Ule | Op::Sle));
        }
        if op == Op::Eq && ca.is_some() {
            return self.cmp(op, b, a);
        }
        {
            let (ra, rb) = (self.urange(a), self.urange(b));
            let half = 1u128 << (w - 1);
            match op {
                Op::Eq if ra.1 < rb.0 || rb.1 < ra.0 => return self.fls(),
                Op::Ult if ra.1 < rb.0 => return self.tru(),
                Op::Ult if ra.0 >= rb.1 => return self.fls(),
                Op::Ule if ra.1 <= rb.0 => return self.tru(),
                Op::Ule if ra.0 > rb.1 => return self.fls(),
                Op::Slt | Op::Sle if w > 1 && ra.1 < half && rb.1 < half => {
                    let u = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.cmp(u, a, b);
                }
                _ => {}
            }
            if matches!(op, Op::Slt | Op::Sle) {
                let (sa, sb) = (self.srange(a, 0), self.srange(b, 0));
                let strict = op == Op::Slt;
                if sa.1 < sb.0 || (!strict && sa.1 == sb.0) {
                    return self.tru();
                }
                if sa.0 > sb.1 || (strict && sa.0 == sb.1) {
                    return self.fls();
                }
            }
            // common narrowing of both sides
            let h = ra.1.max(rb.1);
            let k = (128 - h.leading_zeros()).max(1);
            if matches!(op, Op::Eq | Op::Ult | Op::Ule) && w > 8 && k + 2 <= w {
                let x = self.extract(a, 0, k);
                let y = self.extract(b, 0, k);
                if self.w(x) == k && self.nodes[x as usize].op != Op::Extract && self.nodes[y as usize].op != Op::Extract {
                    return self.cmp(op, x, y);
                }
            }
        }
        // x + y < x without overflow
        if matches!(op, Op::Ult | Op::Ule) {
            let (s, x) = if op == Op::Ult { (a, b) } else { (b, a) };
            let n = self.n(s);
            if n.op == Op::Add && (n.a == x || n.b == x) {
                if matches!(self.urange(n.a).1.checked_add(self.urange(n.b).1), Some(h) if h <= mask(u128::MAX, w)) {
                    return self.boolc(op == Op::Ule);
                }
            }
        }
        // an interval that does not decide the comparison is dropped, so that the comparison is
        // the same node as without it
        if cb.is_some() && self.n(a).op == Op::Bounded {
            let x = self.n(a).a;
            return self.cmp(op, x, b);
        }
        if ca.is_some() && self.n(b).op == Op::Bounded {
            let x = self.n(b).a;
            return self.cmp(op, a, x);
        }
        if op == Op::Eq {
            let (x, y) = (self.strip(a), self.strip(b));
            if x == y {
                return self.tru();
            }
        }
        // A*k + B <> const with 0 <= B < k and no overflow: compare digit-wise
        if let Some(y) = cb {
            if matches!(op, Op::Eq | Op::Ult | Op::Ule) {
                if let Some((x, k, d)) = self.horner(a, w) {
                    let (yq, yr) = (self.konst(y / k, w), self.konst(y % k, w));
                    let he = self.cmp(Op::Eq, x, yq);
                    let le = self.cmp(op, d, yr);
                    let both = self.and(he, le);
                    if op == Op::Eq {
                        return both;
                    }
                    let hl = self.cmp(Op::Ult, x, yq);
                    return self.or(hl, both);
                }
            }
        }
        if ca.is_some() && matches!(op, Op::Ult | Op::Ule) && self.horner(b, w).is_some() {
            let r = self.cmp(if op == Op::Ult { Op::Ule } else { Op::Ult }, b, a);
            return self.not(r);
        }
        // comparisons against constants: push through zext / concat / ite
        if let Some(y) = cb {
            let n = self.n(a);
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    let lim = mask(u128::MAX, iw);
                    match op {
                        Op::Eq => {
                            if y > lim {
                                return self.fls();
                            }
                            let k = self.konst(y, iw);
                            return self.cmp(op, n.a, k);
                        }
                        Op::Ult => {
                            if y > lim {
                                return self.tru();
                            }
                            let k = self.konst(y, iw);
                            return self.cmp(op, n.a, k);
                        }
                        Op::Ule => {
                            if y >= lim {
                                return self.tru();
                            }
                            let k = self.konst(y, iw);
                            return self.cmp(op, n.a, k);
                        }
                        Op::Slt | Op::Sle => {
                            // zext'd value is non-negative in w bits
                            let sy = sext(y, w);
                            if sy < 0 {
                                return self.fls();
                            }
                            let uop = if op == Op::Slt { Op::Ult } else { Op::Ule };
                            return self.cmp(uop, a, b);
                        }
                        _ => {}
                    }
                }
                Op::SExt if op == Op::Eq => {
                    let iw = self.w(n.a);
                    if mask(sext(mask(y, iw), iw) as u128, w) != y {
                        return self.fls();
                    }
                    let k = self.konst(y, iw);
                    return self.cmp(op, n.a, k);
                }
                Op::Ite if self.get(n.b).is_some() || self.get(n.c).is_some() => {
                    let l = self.cmp(op, n.b, b);
                    let r = self.cmp(op, n.c, b);
                    return self.ite(n.a, l, r);
                }
                Op::Concat if op == Op::Eq => {
                    let lw = self.w(n.b);
                    let hk = self.konst(y >> lw, w - lw);
                    let lk = self.konst(y, lw);
                    let h = self.cmp(Op::Eq, n.a, hk);
                    let l = self.cmp(Op::Eq, n.b, lk);
                    return self.and(h, l);
                }
                Op::Add if op == Op::Eq => {
                    if let Some(x) = self.get(n.b) {
                        let k = self.konst(y.wrapping_sub(x), w);
                        return self.cmp(op, n.a, k);
                    }
                }
                Op::Sub if op == Op::Eq => {
                    if let Some(x) = self.get(n.a) {
                        let k = self.konst(x.wrapping_sub(y), w);
                        return self.cmp(op, n.b, k);
                    }
                }
                Op::Xor if op == Op::Eq => {
                    if let Some(x) = self.get(n.b) {
                        let k = self.konst(y ^ x, w);
                        return self.cmp(op, n.a, k);
                    }
                }
                _ => {}
            }
            match op {
                Op::Eq if w == 1 => {
                    return if y == 1 { a } else { self.not(a) };
                }
                Op::Ult if y == 0 => return self.fls(),
                Op::Ult if y == 1 => {
                    let z = self.konst(0, w);
                    return self.cmp(Op::Eq, a, z);
                }
                Op::Ule if y == mask(u128::MAX, w) => return self.tru(),
                Op::Ule if y == 0 => return self.cmp(Op::Eq, a, b),
                _ => {}
            }
        }
        if let Some(x) = ca {
            let n = self.n(b);
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    let lim = mask(u128::MAX, iw);
                    match op {
                        Op::Ult => {
                            if x >= lim {
                                return self.fls();
                            }
                            let k = self.konst(x, iw);
                            return self.cmp(op, k, n.a);
                        }
                        Op::Ule => {
                            if x > lim {
                                return self.fls();
                            }
                            let k = self.konst(x, iw);
                            return self.cmp(op, k, n.a);
                        }
                        Op::Slt | Op::Sle => {
                            let sx = sext(x, w);
                            if sx < 0 {
                                return self.tru();
                            }
                            let uop = if op == Op::Slt { Op::Ult } else { Op::Ule };
                            return self.cmp(uop, a, b);
                        }
                        _ => {}
                    }
                }
                Op::Ite if self.get(n.b).is_some() || self.get(n.c).is_some() => {
                    let l = self.cmp(op, a, n.b);
                    let r = self.cmp(op, a, n.c);
                    return self.ite(n.a, l, r);
                }
                _ => {}
            }
            match op {
                Op::Ule if x == 0 => return self.tru(),
                Op::Ult if x == mask(u128::MAX, w) => return self.fls(),
                _ => {}
            }
        }
        if op == Op::Eq {
            // zext == zext
            let (n, m) = (self.n(a), self.n(b));
            if n.op == Op::ZExt && m.op == Op::ZExt && self.w(n.a) == self.w(m.a) {
                return self.cmp(op, n.a, m.a);
            }
            if n.op == Op::Concat && m.op == Op::Concat && self.w(n.a) == self.w(m.a) {
                let h = self.cmp(op, n.a, m.a);
                let l = self.cmp(op, n.b, m.b);
                return self.and(h, l);
            }
            if a > b {
                return self.mk(op, 1, b, a, 0);
            }
        }
        self.mk(op, 1, a, b, 0)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.get(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        // normalise negated conditions
        let cn = self.n(c);
        if cn.op == Op::Xor && self.get(cn.b) == Some(1) {
            return self.ite(cn.a, b, a);
        }
        if w == 1 {
            let (ca, cb) = (self.get(a), self.get(b));
            match (ca, cb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (_, Some(0)) => return self.and(c, a),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Op::Ite, w as u8, c, a, b)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let iw = self.w(a);
        if iw == w {
            return a;
        }
        debug_assert!(iw < w);
        if let Some(v) = self.get(a) {
            return self.konst(v, w);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.get(n.b).is_some() && self.get(n.c).is_some() {
            let l = self.zext(n.b, w);
            let r = self.zext(n.c, w);
            return self.ite(n.a, l, r);
        }
        // only zeros were cut off
        if n.op == Op::Extract && n.b == 0 && self.w(n.a) == w && self.urange(n.a).1 <= mask(u128::MAX, iw) {
            return n.a;
        }
        self.mk(Op::ZExt, w as u8, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let iw = self.w(a);
        if iw == w {
            return a;
        }
        if let Some(v) = self.get(a) {
            return self.konst(sext(v, iw) as u128, w);
        }
        let n = self.n(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.get(n.b).is_some() && self.get(n.c).is_some() {
            let l = self.sext(n.b, w);
            let r = self.sext(n.c, w);
            return self.ite(n.a, l, r);
        }
        self.mk(Op::SExt, w as u8, a, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw);
        if let Some(v) = self.get(a) {
            return self.konst(v >> lo, w);
        }
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.get(n.b).is_some() || w <= 8 {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.get(n.b).is_some() || self.get(n.c).is_some() || true {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        let (l, h) = self.urange(a);
        if l >> lo == h >> lo {
            return self.konst(l >> lo, w);
        }
        self.mk(Op::Extract, w as u8, a, lo, 0)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        assert!(w <= 128);
        if let (Some(h), Some(l)) = (self.get(hi), self.get(lo)) {
            return self.konst((h << lw) | l, w);
        }
        let (hn, ln) = (self.n(hi), self.n(lo));
        // adjacent extracts
        if hn.op == Op::Extract {
            if ln.op == Op::Extract && ln.a == hn.a && ln.b + lw == hn.b {
                return self.extract(hn.a, ln.b, w);
            }
            // the low part may have been narrowed on its own: the same
            // narrowing applied again recognises it
            if hn.b >= lw && ln.op != Op::Concat && self.extract(hn.a, hn.b - lw, lw) == lo {
                return self.extract(hn.a, hn.b - lw, w);
            }
            // concat(extract(a,k..), concat(extract(a, .., k), rest))
            if ln.op == Op::Concat {
                let m = self.n(ln.a);
                if m.op == Op::Extract && m.a == hn.a && m.b + self.w(ln.a) == hn.b {
                    let mw = self.w(ln.a);
                    let nh = self.extract(hn.a, m.b, hw + mw);
                    return self.concat(nh, ln.b);
                }
            }
        }
        // a slice whose upper neighbours are known
        if let (Some(h), true) = (self.get(hi), ln.op == Op::Extract && ln.b + w <= self.w(ln.a)) {
            let x = self.extract(ln.a, ln.b + lw, hw);
            if x == hi {
                return self.extract(ln.a, ln.b, w);
            }
            // ... up to the sign bit
            if self.get(x).map_or(false, |x| x ^ h == 1 << (hw - 1)) {
                let x = self.extract(ln.a, ln.b, w);
                let k = self.konst(1 << (w - 1), w);
                return self.bin(Op::Xor, x, k);
            }
        }
        // a mask that only touches the high part: (x[lw..] ^ k) ++ x[..lw]
        if hn.op == Op::Xor && self.n(hn.a).op == Op::Extract {
            if let Some(k) = self.get(hn.b) {
                let m = self.n(hn.a);
                if m.b >= lw && self.extract(m.a, m.b - lw, lw) == lo {
                    let x = self.extract(m.a, m.b - lw, w);
                    let k = self.konst(k << lw, w);
                    return self.bin(Op::Xor, x, k);
                }
            }
        }
        if self.get(hi) == Some(0) {
            return self.zext(lo, w);
        }
        if hn.op == Op::Ite && ln.op == Op::Ite && hn.a == ln.a {
            let x = self.concat(hn.b, ln.b);
            let y = self.concat(hn.c, ln.c);
            return self.ite(hn.a, x, y);
        }
        // ite(c,k1,k2) ++ const
        if hn.op == Op::Ite && self.get(lo).is_some() && self.get(hn.b).is_some() && self.get(hn.c).is_some() {
            let x = self.concat(hn.b, lo);
            let y = self.concat(hn.c, lo);
            return self.ite(hn.a, x, y);
        }
        if ln.op == Op::Ite && self.get(hi).is_some() && self.get(ln.b).is_some() && self.get(ln.c).is_some() {
            let x = self.concat(hi, ln.b);
            let y = self.concat(hi, ln.c);
            return self.ite(ln.a, x, y);
        }
        // zext(x) as high part: zext(concat(x, lo))
        if hn.op == Op::ZExt {
            let c = self.concat(hn.a, lo);
            return self.zext(c, w);
        }
        self.mk(Op::Concat, w as u8, hi, lo, 0)
    }

    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{:#x}:{}", self.get(e).unwrap(), n.w),
            Op::Sym => format!("s{}:{}", n.a, n.w),
            _ if d == 0 => "..".into(),
            Op::Bounded => format!("{}in[{},{}]", self.show(n.a, d - 1), n.b, n.c),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.b, n.w),
            Op::Table => format!("T{}[{}]", n.a, self.show(n.b, d - 1)),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            Op::ZExt | Op::SExt | Op::SIToFP | Op::UIToFP | Op::FPToSIsat | Op::FPToUIsat | Op::FPExt | Op::FPTrunc => {
                format!("({:?}{} {})", n.op, n.w, self.show(n.a, d - 1))
            }
            _ => format!("({:?} {} {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }

    /// evaluate under a model (indexed by symbol)
    pub fn eval_begin(&mut self) {
        self.ev_gen += 1;
        if self.ev.len() < self.nodes.len() {
            self.ev.resize(self.nodes.len() + 1024, (0, 0));
        }
    }
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        self.eval_begin();
        self.eval_rec(e, model)
    }
    pub fn eval_rec(&mut self, e: E, model: &[u128]) -> u128 {
        let n = self.nodes[e as usize];
        if n.op == Op::Const {
            return self.consts[n.a as usize];
        }
        if n.op == Op::Sym {
            return mask(model.get(n.a as usize).copied().unwrap_or(0), n.w as u32);
        }
        if self.ev.len() <= e as usize {
            self.ev.resize(self.nodes.len() + 1024, (0, 0));
        }
        let (g, v) = self.ev[e as usize];
        if g == self.ev_gen {
            return v;
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Ite => {
                if self.eval_rec(n.a, model) != 0 {
                    self.eval_rec(n.b, model)
                } else {
                    self.eval_rec(n.c, model)
                }
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let iw = self.w(n.a);
                let x = self.eval_rec(n.a, model);
                let y = self.eval_rec(n.b, model);
                Self::fold_cmp(n.op, iw, x, y) as u128
            }
            Op::Concat => {
                let lw = self.w(n.b);
                let x = self.eval_rec(n.a, model);
                let y = self.eval_rec(n.b, model);
                (x << lw) | y
            }
            Op::Extract => mask(self.eval_rec(n.a, model) >> n.b, w),
            Op::Bounded | Op::ZExt => self.eval_rec(n.a, model),
            Op::SExt => {
                let iw = self.w(n.a);
                mask(sext(self.eval_rec(n.a, model), iw) as u128, w)
            }
            Op::Table => {
                let i = self.eval_rec(n.b, model);
                self.tables[n.a as usize].vals.get(i as usize).copied().unwrap_or(0)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let x = self.eval_rec(n.a, model);
                let y = self.eval_rec(n.b, model);
                Self::fold_fp2(n.op, w, x, y)
            }
            Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
                let iw = self.w(n.a);
                let x = self.eval_rec(n.a, model);
                let y = self.eval_rec(n.b, model);
                Self::fold_fcmp(n.op, iw, x, y) as u128
            }
            Op::SIToFP | Op::UIToFP | Op::FPToSIsat | Op::FPToUIsat | Op::FPExt | Op::FPTrunc => {
                let iw = self.w(n.a);
                let x = self.eval_rec(n.a, model);
                Self::fold_conv(n.op, iw, w, x)
            }
            _ => {
                let x = self.eval_rec(n.a, model);
                let y = self.eval_rec(n.b, model);
                Self::fold2(n.op, w, x, y)
            }
        };
        self.ev[e as usize] = (self.ev_gen, r);
        r
    }
}
