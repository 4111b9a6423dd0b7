//! Second encoding for queries made of linear arithmetic over wide words (sums
//! of digits times powers of ten, length sums, ...): unsigned values as
//! mathematical integers with explicit wrap-around counters, everything
//! non-linear as an opaque variable within its known range.  The encoding only
//! forgets facts about opaque terms, so "unsat" carries over to the bit-vector
//! query; "sat" is turned into a bit-vector model by fixing the opaque terms.
use crate::expr::{Arena, FxMap, Op, E};
use crate::ir::mask;
use crate::z3::*;

type P = *mut std::ffi::c_void;

#[derive(Default)]
pub struct Lia {
    ints: FxMap<E, P>,
    bools: FxMap<E, P>,
    /// side constraints introduced by a node
    side: FxMap<E, Vec<P>>,
    opaque: FxMap<E, P>,
    heavy: FxMap<E, u32>,
    /// floating-point terms: uninterpreted functions of their arguments
    uf: FxMap<E, ()>,
}

fn is_fp(op: Op) -> bool {
    matches!(
        op,
        Op::SIToFP | Op::UIToFP | Op::FPToSIsat | Op::FPToUIsat | Op::FPExt | Op::FPTrunc | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FUno
    )
}

impl Z3 {
    /// number of multiplications by constants in wide words below e
    fn heavy(&mut self, ar: &Arena, e: E) -> u32 {
        if let Some(&h) = self.lia.heavy.get(&e) {
            return h;
        }
        let n = ar.n(e);
        let own = (n.op == Op::Mul && n.w >= 16) as u32;
        let h = match n.op {
            Op::Const | Op::Sym | Op::Table => 0,
            Op::Extract | Op::ZExt | Op::SExt | Op::Bounded => self.heavy(ar, n.a),
            Op::SIToFP | Op::UIToFP | Op::FPToSIsat | Op::FPToUIsat | Op::FPExt | Op::FPTrunc | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FUno => 0,
            Op::Ite => self.heavy(ar, n.a) + self.heavy(ar, n.b) + self.heavy(ar, n.c),
            _ => own + self.heavy(ar, n.a) + self.heavy(ar, n.b),
        };
        let h = h.min(1000);
        self.lia.heavy.insert(e, h);
        h
    }
    unsafe fn inum(&self, v: u128) -> P {
        self.mk_int(&format!("{}", v))
    }
    unsafe fn fresh(&mut self, tag: i32, e: E) -> P {
        self.mk_int_const(tag, e)
    }
    unsafe fn range(&mut self, x: P, lo: u128, hi: u128) -> P {
        let (l, h) = (self.inum(lo), self.inum(hi));
        let a = self.i_le(l, x);
        let b = self.i_le(x, h);
        self.b_and(&[a, b])
    }
    unsafe fn opq(&mut self, ar: &Arena, e: E) -> P {
        let v = self.fresh(1, e);
        let (l, h) = ar.urange(e);
        let c = self.range(v, l, h);
        self.lia.side.entry(e).or_default().push(c);
        self.lia.opaque.insert(e, v);
        v
    }
    /// application of an uninterpreted function to the arguments of e
    unsafe fn app(&mut self, ar: &Arena, e: E) -> P {
        let n = ar.n(e);
        let unary = matches!(n.op, Op::SIToFP | Op::UIToFP | Op::FPToSIsat | Op::FPToUIsat | Op::FPExt | Op::FPTrunc);
        let mut args = vec![self.bit(ar, n.a)];
        if !unary {
            args.push(self.bit(ar, n.b));
        }
        let v = self.mk_uf(&format!("{:?}_{}_{}", n.op, ar.w(n.a), n.w), &args);
        let c = self.range(v, 0, mask(u128::MAX, n.w as u32));
        self.lia.side.entry(e).or_default().push(c);
        self.lia.opaque.insert(e, v);
        self.lia.uf.insert(e, ());
        v
    }
    /// unsigned value of e as an integer term
    unsafe fn int(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.lia.ints.get(&e) {
            return p;
        }
        let n = ar.n(e);
        let w = n.w as u32;
        let full = mask(u128::MAX, w);
        let r = if w > 64 && !matches!(n.op, Op::Const | Op::Add | Op::Mul | Op::ZExt | Op::Sub | Op::Ite) || w > 100 {
            self.opq(ar, e)
        } else {
            match n.op {
                Op::Const => self.inum(ar.get(e).unwrap()),
                Op::ZExt => {
                    if ar.w(n.a) == 1 {
                        let c = self.boolt(ar, n.a);
                        let (o, z) = (self.inum(1), self.inum(0));
                        self.b_ite(c, o, z)
                    } else {
                        self.int(ar, n.a)
                    }
                }
                Op::Bounded => {
                    let x = self.int(ar, n.a);
                    let c = self.range(x, n.b as u128, n.c as u128);
                    self.lia.side.entry(e).or_default().push(c);
                    x
                }
                Op::Add | Op::Sub => {
                    let (x, y) = (self.int(ar, n.a), self.int(ar, n.b));
                    let (a, b) = (ar.urange(n.a), ar.urange(n.b));
                    // x + k with k "negative" and x large enough: x - (2^w - k)
                    if let (Op::Add, Some(k)) = (n.op, ar.get(n.b)) {
                        if k > full / 2 && a.0 >= full - k + 1 {
                            let m = self.inum(full - k + 1);
                            let r = self.i_sub(x, m);
                            self.lia.ints.insert(e, r);
                            return r;
                        }
                    }
                    let add = n.op == Op::Add;
                    if (add && a.1.checked_add(b.1).map_or(false, |s| s <= full)) || (!add && a.0 >= b.1) {
                        if add { self.i_add(x, y) } else { self.i_sub(x, y) }
                    } else {
                        let s = if add { self.i_add(x, y) } else { self.i_sub(x, y) };
                        let t = self.fresh(2, e);
                        let c = self.range(t, 0, 1);
                        let m = self.inum(full + 1);
                        let tm = self.i_mul(m, t);
                        let r = if add { self.i_sub(s, tm) } else { self.i_add(s, tm) };
                        let d = self.range(r, 0, full);
                        self.lia.side.entry(e).or_default().extend([c, d]);
                        r
                    }
                }
                Op::Mul if ar.get(n.b).is_some() || ar.get(n.a).is_some() => {
                    let (x, k) = match ar.get(n.b) {
                        Some(k) => (n.a, k),
                        None => (n.b, ar.get(n.a).unwrap()),
                    };
                    let hi = ar.urange(x).1;
                    let xv = self.int(ar, x);
                    let kn = self.inum(k);
                    let p = self.i_mul(kn, xv);
                    match hi.checked_mul(k) {
                        Some(h) if h <= full => p,
                        Some(h) => {
                            let t = self.fresh(2, e);
                            let c = self.range(t, 0, h / (full + 1));
                            let m = self.inum(full + 1);
                            let tm = self.i_mul(m, t);
                            let r = self.i_sub(p, tm);
                            let d = self.range(r, 0, full);
                            self.lia.side.entry(e).or_default().extend([c, d]);
                            r
                        }
                        None => self.opq(ar, e),
                    }
                }
                Op::Concat => {
                    let lw = ar.w(n.b);
                    {
                        let (h, l) = (self.bit(ar, n.a), self.bit(ar, n.b));
                        let k = self.inum(1u128 << lw);
                        let p = self.i_mul(k, h);
                        self.i_add(p, l)
                    }
                }
                Op::Xor if w > 1 && ar.get(n.b) == Some(1 << (w - 1)) => {
                    let x = self.int(ar, n.a);
                    let h = self.inum(1 << (w - 1));
                    let c = self.i_le(h, x);
                    let (y, z) = (self.i_sub(x, h), self.i_add(x, h));
                    self.b_ite(c, y, z)
                }
                op if is_fp(op) => self.app(ar, e),
                Op::SExt if ar.w(n.a) > 1 => {
                    let aw = ar.w(n.a);
                    let x = self.int(ar, n.a);
                    let half = 1u128 << (aw - 1);
                    if ar.urange(n.a).1 < half {
                        x
                    } else {
                        let h = self.inum(half);
                        let k = self.inum(full - mask(u128::MAX, aw));
                        let c = self.i_le(h, x);
                        let y = self.i_add(x, k);
                        self.b_ite(c, y, x)
                    }
                }
                Op::Extract if n.b != 0 && w > 1 && ar.w(n.a) <= 64 => {
                    let x = self.int(ar, n.a);
                    self.split(ar, e, x, n.a, n.b, w)
                }
                Op::LShr if ar.get(n.b).map_or(false, |k| k > 0 && k < w as u128) && w <= 64 => {
                    let x = self.int(ar, n.a);
                    self.split(ar, e, x, n.a, ar.get(n.b).unwrap() as u32, w)
                }
                Op::UDiv | Op::URem if ar.get(n.b).map_or(false, |k| k > 0) && w <= 64 => {
                    let k = ar.get(n.b).unwrap();
                    let x = self.int(ar, n.a);
                    let hi = ar.urange(n.a).1;
                    let q = self.fresh(2, e);
                    let c = self.range(q, 0, hi / k);
                    let kn = self.inum(k);
                    let qk = self.i_mul(kn, q);
                    let r = self.i_sub(x, qk);
                    let d = self.range(r, 0, k - 1);
                    self.lia.side.entry(e).or_default().extend([c, d]);
                    if n.op == Op::UDiv { q } else { r }
                }
                Op::Extract if n.b == 0 && w > 1 && ar.w(n.a) <= 64 => {
                    let x = self.int(ar, n.a);
                    let hi = ar.urange(n.a).1;
                    if hi <= full {
                        x
                    } else {
                        let t = self.fresh(2, e);
                        let c = self.range(t, 0, hi >> w);
                        let m = self.inum(full + 1);
                        let tm = self.i_mul(m, t);
                        let r = self.i_sub(x, tm);
                        let d = self.range(r, 0, full);
                        self.lia.side.entry(e).or_default().extend([c, d]);
                        r
                    }
                }
                Op::Ite if w > 1 => {
                    let c = self.boolt(ar, n.a);
                    let (a, b) = (self.int(ar, n.b), self.int(ar, n.c));
                    self.b_ite(c, a, b)
                }
                _ => self.opq(ar, e),
            }
        };
        self.lia.ints.insert(e, r);
        r
    }
    /// integer of a term that may be one bit wide
    unsafe fn bit(&mut self, ar: &Arena, e: E) -> P {
        if ar.w(e) > 1 {
            return self.int(ar, e);
        }
        let c = self.boolt(ar, e);
        let (o, z) = (self.inum(1), self.inum(0));
        self.b_ite(c, o, z)
    }
    /// bits [lo, lo+w) of x
    unsafe fn split(&mut self, ar: &Arena, e: E, x: P, src: E, lo: u32, w: u32) -> P {
        let hi = ar.urange(src).1;
        let l = self.fresh(3, e);
        let c = self.range(l, 0, (1u128 << lo) - 1);
        let top = hi >> lo;
        let kl = self.inum(1u128 << lo);
        if top <= mask(u128::MAX, w) {
            // x = l + 2^lo * m
            let m = self.fresh(2, e);
            let d = self.range(m, 0, top);
            let p = self.i_mul(kl, m);
            let s = self.i_add(l, p);
            let q = self.b_eq(s, x);
            self.lia.side.entry(e).or_default().extend([c, d, q]);
            m
        } else {
            let m = self.fresh(2, e);
            let d = self.range(m, 0, mask(u128::MAX, w));
            let h = self.fresh(4, e);
            let f = self.range(h, 0, top >> w);
            let p = self.i_mul(kl, m);
            let kh = self.inum(1u128 << (lo + w));
            let p2 = self.i_mul(kh, h);
            let s = self.i_add(l, p);
            let s = self.i_add(s, p2);
            let q = self.b_eq(s, x);
            self.lia.side.entry(e).or_default().extend([c, d, f, q]);
            m
        }
    }
    unsafe fn sint(&mut self, ar: &Arena, e: E) -> P {
        let w = ar.w(e);
        let x = self.int(ar, e);
        let half = 1u128 << (w - 1);
        if ar.urange(e).1 < half {
            return x;
        }
        let h = self.inum(half);
        let m = self.inum(1u128 << w);
        let c = self.i_le(h, x);
        let y = self.i_sub(x, m);
        self.b_ite(c, y, x)
    }
    unsafe fn boolt(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.lia.bools.get(&e) {
            return p;
        }
        let n = ar.n(e);
        let r = match n.op {
            Op::Const => self.b_const(ar.get(e) == Some(1)),
            Op::And => {
                let (a, b) = (self.boolt(ar, n.a), self.boolt(ar, n.b));
                self.b_and(&[a, b])
            }
            Op::Or => {
                let (a, b) = (self.boolt(ar, n.a), self.boolt(ar, n.b));
                self.b_or(&[a, b])
            }
            Op::Xor if ar.get(n.b) == Some(1) => {
                let a = self.boolt(ar, n.a);
                self.b_not(a)
            }
            Op::Xor => {
                let (a, b) = (self.boolt(ar, n.a), self.boolt(ar, n.b));
                let q = self.b_eq(a, b);
                self.b_not(q)
            }
            Op::Eq if ar.w(n.a) == 1 => {
                let (a, b) = (self.boolt(ar, n.a), self.boolt(ar, n.b));
                self.b_eq(a, b)
            }
            Op::Eq => {
                let (a, b) = (self.int(ar, n.a), self.int(ar, n.b));
                self.b_eq(a, b)
            }
            Op::Ule | Op::Ult if ar.w(n.a) > 1 => {
                let (a, b) = (self.int(ar, n.a), self.int(ar, n.b));
                if n.op == Op::Ule {
                    self.i_le(a, b)
                } else {
                    let x = self.i_le(b, a);
                    self.b_not(x)
                }
            }
            Op::Sle | Op::Slt if ar.w(n.a) > 1 && ar.w(n.a) <= 64 => {
                let (a, b) = (self.sint(ar, n.a), self.sint(ar, n.b));
                if n.op == Op::Sle {
                    self.i_le(a, b)
                } else {
                    let x = self.i_le(b, a);
                    self.b_not(x)
                }
            }
            Op::Ite => {
                let c = self.boolt(ar, n.a);
                let (a, b) = (self.boolt(ar, n.b), self.boolt(ar, n.c));
                self.b_ite(c, a, b)
            }
            op if is_fp(op) => {
                let v = self.app(ar, e);
                let one = self.inum(1);
                self.b_eq(v, one)
            }
            _ => {
                let v = self.fresh(1, e);
                let z = self.range(v, 0, 1);
                self.lia.side.entry(e).or_default().push(z);
                self.lia.opaque.insert(e, v);
                let one = self.inum(1);
                self.b_eq(v, one)
            }
        };
        self.lia.bools.insert(e, r);
        r
    }
    fn collect(&self, ar: &Arena, e: E, seen: &mut FxMap<E, ()>, order: &mut Vec<E>) {
        if seen.insert(e, ()).is_some() {
            return;
        }
        order.push(e);
        if self.lia.opaque.contains_key(&e) && !self.lia.uf.contains_key(&e) {
            return;
        }
        let n = ar.n(e);
        match n.op {
            Op::Const | Op::Sym => {}
            Op::Extract | Op::ZExt | Op::SExt | Op::Bounded | Op::SIToFP | Op::UIToFP | Op::FPToSIsat | Op::FPToUIsat | Op::FPExt | Op::FPTrunc => self.collect(ar, n.a, seen, order),
            Op::Table => {}
            Op::Ite => {
                self.collect(ar, n.a, seen, order);
                self.collect(ar, n.b, seen, order);
                self.collect(ar, n.c, seen, order);
            }
            _ => {
                self.collect(ar, n.a, seen, order);
                self.collect(ar, n.b, seen, order);
            }
        }
    }
    /// Decides the query in linear arithmetic if that looks promising.
    /// `Ok(Some(..))`: unsat, or values for the opaque terms; `None`: no answer.
    pub fn lia_check(&mut self, ar: &Arena, conj: &[E], fp: bool) -> Option<Option<Vec<(E, u128)>>> {
        let mut h = 0;
        for &e in conj {
            h += self.heavy(ar, e);
        }
        if h < self.lia_min && !fp {
            return None;
        }
        unsafe {
            let mut fs = vec![];
            for &e in conj {
                let p = self.boolt(ar, e);
                fs.push(p);
            }
            let (mut seen, mut order) = (FxMap::default(), vec![]);
            for &e in conj {
                self.collect(ar, e, &mut seen, &mut order);
            }
            let mut opq = vec![];
            let mut uf = false;
            for &e in &order {
                if let Some(s) = self.lia.side.get(&e) {
                    fs.extend_from_slice(s);
                }
                if let Some(&p) = self.lia.opaque.get(&e) {
                    opq.push((e, p));
                    uf |= self.lia.uf.contains_key(&e);
                }
            }
            self.lia_solve(&fs, &opq, uf)
        }
    }
}
