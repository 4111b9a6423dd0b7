//! Random differential test of the expression simplifier: every expression built through the
//! simplifying constructors must evaluate to what the plain semantics of the operators give.
use crate::expr::{Arena, Op, E};
use crate::ir::{mask, sext};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}

fn plain(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let (sa, sb) = (sext(a, w), sext(b, w));
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => a / b.max(1),
        Op::URem => a % b.max(1),
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => a.checked_shl(b as u32).unwrap_or(0),
        Op::LShr => a >> b,
        Op::AShr => (sa >> b) as u128,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sa < sb) as u128,
        Op::Sle => (sa <= sb) as u128,
        _ => unreachable!(),
    };
    if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
        r
    } else {
        mask(r, w)
    }
}

pub fn run(seed: u64, rounds: u64) -> Result<u64, String> {
    let mut g = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
    let mut checked = 0;
    for round in 0..rounds {
        let mut ar = Arena::new();
        let model: Vec<u128> = (0..6)
            .map(|_| match g.below(4) {
                0 => 48 + g.below(10) as u128,
                1 => 255 - g.below(3) as u128,
                _ => g.next() as u128 & 255,
            })
            .collect();
        // pool of (expr, value)
        let mut pool: Vec<(E, u128)> = vec![];
        for i in 0..6 {
            let e = ar.sym(i, 8);
            pool.push((e, model[i as usize]));
            // an interval that holds under this model
            let v = model[i as usize] as u32;
            let (lo, hi) = (v.saturating_sub(g.below(8) as u32), (v + g.below(8) as u32).min(255));
            if lo < hi {
                let b = ar.bounded(e, lo, hi);
                pool.push((b, model[i as usize]));
            }
        }
        for _ in 0..60 {
            let (a, va) = pool[g.below(pool.len() as u64) as usize];
            let w = ar.w(a);
            let (e, v) = match g.below(9) {
                0..=3 => {
                    let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr];
                    let op = ops[g.below(ops.len() as u64) as usize];
                    let (b, vb) = if g.below(2) == 0 {
                        let k = match op {
                            Op::Shl | Op::LShr | Op::AShr => g.below(w as u64) as u128,
                            Op::UDiv | Op::URem => 1 + g.below(20) as u128 % mask(u128::MAX, w).max(1),
                            _ => {
                                let k = [0, 1, 10, 48, 208, 255, mask(u128::MAX, w), g.next() as u128][g.below(8) as usize];
                                mask(k, w)
                            }
                        };
                        let k = mask(k, w);
                        if k == 0 && matches!(op, Op::UDiv | Op::URem) {
                            continue;
                        }
                        (ar.konst(k, w), k)
                    } else {
                        let c: Vec<_> = pool.iter().filter(|p| ar.w(p.0) == w).cloned().collect();
                        let (b, vb) = c[g.below(c.len() as u64) as usize];
                        if matches!(op, Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::URem) {
                            continue;
                        }
                        (b, vb)
                    };
                    let swap = g.below(3) == 0 && matches!(op, Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor);
                    let (a, va, b, vb) = if swap { (b, vb, a, va) } else { (a, va, b, vb) };
                    (ar.bin(op, a, b), plain(op, w, va, vb))
                }
                4 | 5 => {
                    let ops = [Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
                    let op = ops[g.below(5) as usize];
                    let (b, vb) = if g.below(2) == 0 {
                        let k = mask([0, 1, 9, 10, 48, 57, 128, va, va.wrapping_add(1), g.next() as u128][g.below(10) as usize], w);
                        (ar.konst(k, w), k)
                    } else {
                        let c: Vec<_> = pool.iter().filter(|p| ar.w(p.0) == w).cloned().collect();
                        c[g.below(c.len() as u64) as usize]
                    };
                    let (a, va, b, vb) = if g.below(2) == 0 { (b, vb, a, va) } else { (a, va, b, vb) };
                    let c = ar.cmp(op, a, b);
                    let v = plain(op, w, va, vb);
                    if g.below(2) == 0 {
                        (ar.not(c), v ^ 1)
                    } else {
                        (c, v)
                    }
                }
                6 => {
                    let to = [16u32, 32, 33, 64][g.below(4) as usize];
                    if to <= w {
                        let lo = g.below(w as u64) as u32;
                        let n = 1 + g.below((w - lo) as u64) as u32;
                        (ar.extract(a, lo, n), mask(va >> lo, n))
                    } else if g.below(2) == 0 {
                        (ar.zext(a, to), va)
                    } else {
                        (ar.sext(a, to), mask(sext(va, w) as u128, to))
                    }
                }
                7 => {
                    let c: Vec<_> = pool.iter().filter(|p| ar.w(p.0) == 1).cloned().collect();
                    let d: Vec<_> = pool.iter().filter(|p| ar.w(p.0) == w).cloned().collect();
                    if c.is_empty() {
                        continue;
                    }
                    let (c, vc) = c[g.below(c.len() as u64) as usize];
                    let (b, vb) = d[g.below(d.len() as u64) as usize];
                    (ar.ite(c, a, b), if vc != 0 { va } else { vb })
                }
                _ => {
                    let (b, vb) = pool[g.below(pool.len() as u64) as usize];
                    let bw = ar.w(b);
                    if bw + w > 64 {
                        continue;
                    }
                    (ar.concat(a, b), (va << bw) | vb)
                }
            };
            let got = ar.eval(e, &model);
            let (lo, hi) = ar.urange(e);
            let s = ar.srange(e, 0);
            let sv = sext(v, ar.w(e));
            if got != v || v < lo || v > hi || (ar.w(e) < 128 && (sv < s.0 || sv > s.1)) {
                return Err(format!("round {round}: {} = {:#x}, expected {:#x}; range {:#x}..={:#x} {:?}", ar.show(e, 6), got, v, lo, hi, s));
            }
            checked += 1;
            pool.push((e, v));
        }
        // facts true under the model are satisfiable in every encoding
        if round % 16 == 0 {
            let mut z = crate::z3::Z3::new(5000);
            for lia_min in [0u32, u32::MAX] {
                z.lia_min = lia_min;
                for _ in 0..8 {
                    let mut conj = vec![];
                    for _ in 0..1 + g.below(4) {
                        let (e, v) = pool[g.below(pool.len() as u64) as usize];
                        let k = ar.konst(v, ar.w(e));
                        let q = ar.cmp(Op::Eq, e, k);
                        let f = match g.below(4) {
                            0 => q,
                            1 => {
                                let k = ar.konst(v.wrapping_sub(g.below(100) as u128) & mask(u128::MAX, ar.w(e)), ar.w(e));
                                let (l, r) = (ar.cmp(Op::Ult, e, k), ar.cmp(Op::Slt, e, k));
                                let x = ar.bin(Op::Xor, l, r);
                                if ar.eval(x, &model) != 0 { x } else { ar.not(x) }
                            }
                            2 => {
                                let (d, _) = pool[g.below(pool.len() as u64) as usize];
                                if ar.w(d) != ar.w(e) { continue }
                                let s = ar.bin(Op::Sub, d, e);
                                let vs = ar.eval(s, &model);
                                let k = ar.konst(vs, ar.w(e));
                                ar.cmp(Op::Eq, s, k)
                            }
                            _ => {
                                let (d, _) = pool[g.below(pool.len() as u64) as usize];
                                if ar.w(d) != ar.w(e) { continue }
                                let l = ar.cmp(Op::Sle, d, e);
                                if ar.eval(l, &model) != 0 { l } else { ar.not(l) }
                            }
                        };
                        conj.push(f);
                    }
                    // true facts about the bounded terms come along
                    for i in 0..6 {
                        let e = ar.sym(i, 8);
                        let k = ar.konst(model[i as usize], 8);
                        if g.below(3) == 0 {
                            let q = ar.cmp(Op::Eq, e, k);
                            conj.push(q);
                        }
                    }
                    conj.retain(|e| ar.get(*e).is_none());
                    if conj.is_empty() {
                        continue;
                    }
                    let mut out = vec![];
                    match z.check(&ar, &conj, 63, &mut out) {
                        crate::z3::Res::Unsat => {
                            let t: Vec<_> = conj.iter().map(|e| ar.show(*e, 9)).collect();
                            return Err(format!("round {round}: satisfiable query reported unsatisfiable (lia_min {lia_min}) {t:?}"));
                        }
                        crate::z3::Res::Sat => {
                            checked += 1;
                        }
                        _ => {}
                    }
                }
            }
        }
        // float chains
        for _ in 0..6 {
            let ints: Vec<_> = pool.iter().filter(|p| ar.w(p.0) >= 8 && ar.w(p.0) <= 64).cloned().collect();
            let (x, vx) = ints[g.below(ints.len() as u64) as usize];
            let mut f = ar.conv(Op::UIToFP, x, 64);
            let mut vf = vx as u64 as f64;
            if g.below(3) == 0 {
                let w = ar.w(x);
                let z = ar.konst(0, w);
                let (y, vy) = if g.below(2) == 0 { (ar.bin(Op::Sub, z, x), mask(0u128.wrapping_sub(vx), w)) } else { (x, vx) };
                f = ar.conv(Op::SIToFP, y, 64);
                vf = sext(vy, w) as f64;
            }
            let consts = [10.0f64, 1e22, 1e308, 1e-5, 0.1, 3.0, 1e300, 7e-300];
            for _ in 0..g.below(3) {
                let k = consts[g.below(consts.len() as u64) as usize];
                let c = ar.konst(k.to_bits() as u128, 64);
                if g.below(2) == 0 {
                    f = ar.fp2(Op::FMul, f, c);
                    vf *= k;
                } else {
                    f = ar.fp2(Op::FDiv, f, c);
                    vf /= k;
                }
            }
            if g.below(4) == 0 {
                let k = ar.konst(1 << 63, 64);
                f = ar.bin(Op::Xor, f, k);
                vf = -vf;
            }
            let bits = ar.urange(f);
            let sign = ar.extract(f, 63, 1);
            let tail = ar.extract(f, 0, 56);
            let head = ar.extract(f, 56, 8);
            let again = ar.concat(head, tail);
            if !vf.is_nan() && ((vf.to_bits() as u128) < bits.0 || (vf.to_bits() as u128) > bits.1 || ar.eval(sign, &model) as u64 != vf.to_bits() >> 63 || ar.eval(again, &model) as u64 != vf.to_bits()) {
                return Err(format!("round {round}: bits of {}: value {vf:e}, range {:#x} {:#x}", ar.show(f, 6), bits.0, bits.1));
            }
            checked += 1;
            let k = [0.0f64, f64::INFINITY, -1.0, vf, vf + 1.0, 100.0, 1e10, f64::MAX, f64::NAN][g.below(9) as usize];
            let c = ar.konst(k.to_bits() as u128, 64);
            let (f, vf) = if g.below(2) == 0 { (ar.fabs(f), vf.abs()) } else { (f, vf) };
            for (op, want, rev) in [
                (Op::FEq, vf == k, vf == k),
                (Op::FLt, vf < k, k < vf),
                (Op::FLe, vf <= k, k <= vf),
                (Op::FUno, k.is_nan(), k.is_nan()),
            ] {
                let r = ar.fcmp(op, f, c);
                let q = ar.fcmp(op, c, f);
                if (ar.eval(r, &model) != 0) != want || (ar.eval(q, &model) != 0) != rev {
                    return Err(format!("round {round}: {op:?} {} {k:e}: value {vf:e}", ar.show(f, 6)));
                }
                checked += 1;
            }
        }
    }
    Ok(checked)
}
