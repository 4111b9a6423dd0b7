//! Hand-written FFI to the system libz3 and the translation of the expression DAG.
use crate::expr::{Arena, FxMap, Op, E};
use crate::ir::mask;
use std::ffi::{c_char, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[allow(non_camel_case_types)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: i32) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_get_const_interp(c: P, m: P, d: P) -> P;
    fn Z3_get_app_decl(c: P, a: P) -> P;
    fn Z3_to_app(c: P, a: P) -> P;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, range: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, args: *const P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_uint) {
    unsafe {
        let s = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", s);
    }
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    ufs: P,
    pub lia: crate::lia::Lia,
    /// number of wide multiplications from which the linear encoding is tried
    pub lia_min: u32,
    lias: P,
    ctx: P,
    bv: P,
    fp: P,
    cache: FxMap<E, P>,
    fpcache: FxMap<E, bool>,
    syms: FxMap<E, ()>,
    pub asserted: u64,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (cs("model"), cs("true"));
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let l = cs("QF_BV");
            let bv = if std::env::var("SMT").is_ok() {Z3_mk_simple_solver(ctx)} else { Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()))};
            Z3_solver_inc_ref(ctx, bv);
            let fp = Z3_mk_solver(ctx);
            Z3_solver_inc_ref(ctx, fp);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = cs("timeout");
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, bv, p);
            Z3_solver_set_params(ctx, fp, p);
            let l = cs("QF_LIA");
            let lias = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, lias);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms.min(5000));
            Z3_solver_set_params(ctx, lias, p);
            let l = cs("QF_UFLIA");
            let ufs = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, ufs);
            Z3_solver_set_params(ctx, ufs, p);
            Z3 { lia: Default::default(), lia_min: 3, lias, ufs, ctx, bv, fp, cache: FxMap::default(), fpcache: FxMap::default(), syms: FxMap::default(), asserted: 0 }
        }
    }

    fn has_fp(&mut self, ar: &Arena, e: E) -> bool {
        if let Some(&b) = self.fpcache.get(&e) {
            return b;
        }
        let n = ar.n(e);
        let r = match n.op {
            Op::Const | Op::Sym => false,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FUno | Op::SIToFP | Op::UIToFP
            | Op::FPToSIsat | Op::FPToUIsat | Op::FPExt | Op::FPTrunc => true,
            Op::Extract | Op::ZExt | Op::SExt | Op::Bounded => self.has_fp(ar, n.a),
            Op::Table => self.has_fp(ar, n.b),
            Op::Ite => self.has_fp(ar, n.a) || self.has_fp(ar, n.b) || self.has_fp(ar, n.c),
            _ => self.has_fp(ar, n.a) || self.has_fp(ar, n.b),
        };
        self.fpcache.insert(e, r);
        r
    }

    unsafe fn num(&self, v: u128, w: u32) -> P {
        let s = Z3_mk_bv_sort(self.ctx, w);
        if w <= 64 {
            Z3_mk_unsigned_int64(self.ctx, v as u64, s)
        } else {
            let t = cs(&format!("{}", v));
            Z3_mk_numeral(self.ctx, t.as_ptr(), s)
        }
    }
    unsafe fn fsort(&self, w: u32) -> P {
        if w == 64 {
            Z3_mk_fpa_sort(self.ctx, 11, 53)
        } else {
            Z3_mk_fpa_sort(self.ctx, 8, 24)
        }
    }

    /// width-1 expressions are represented as Z3 Bool
    unsafe fn bool_(&mut self, ar: &Arena, e: E) -> P {
        debug_assert!(ar.w(e) == 1);
        self.tr(ar, e)
    }
    /// as a bit-vector even if width 1
    unsafe fn bvx(&mut self, ar: &Arena, e: E) -> P {
        let x = self.tr(ar, e);
        if ar.w(e) == 1 {
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            Z3_mk_ite(self.ctx, x, o, z)
        } else {
            x
        }
    }
    unsafe fn fpx(&mut self, ar: &Arena, e: E) -> P {
        let w = ar.w(e);
        let x = self.tr(ar, e);
        let s = self.fsort(w);
        Z3_mk_fpa_to_fp_bv(self.ctx, x, s)
    }

    unsafe fn table_ite(&mut self, vals: &[u128], ew: u32, idx: P, bits: u32) -> P {
        // nested ite over index bits, most significant first, sharing equal subtrees
        if vals.iter().all(|v| *v == vals[0]) || bits == 0 {
            return self.num(vals[0], ew);
        }
        let half = 1usize << (bits - 1);
        if vals.len() <= half {
            return self.table_ite(vals, ew, idx, bits - 1);
        }
        let lo = self.table_ite(&vals[..half], ew, idx, bits - 1);
        let hi = self.table_ite(&vals[half..], ew, idx, bits - 1);
        let b = Z3_mk_extract(self.ctx, bits - 1, bits - 1, idx);
        let one = self.num(1, 1);
        let c = Z3_mk_eq(self.ctx, b, one);
        Z3_mk_ite(self.ctx, c, hi, lo)
    }

    unsafe fn tr(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.cache.get(&e) {
            return p;
        }
        let c = self.ctx;
        let n = ar.n(e);
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => {
                let v = ar.get(e).unwrap();
                if w == 1 {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                } else {
                    self.num(v, w)
                }
            }
            Op::Sym => {
                let s = Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as i32), Z3_mk_bv_sort(c, w));
                self.syms.insert(e, ());
                if w == 1 {
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, s, one)
                } else {
                    s
                }
            }
            Op::And | Op::Or | Op::Xor if w == 1 => {
                let (x, y) = (self.bool_(ar, n.a), self.bool_(ar, n.b));
                match n.op {
                    Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                    Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                    _ => {
                        if ar.get(n.b) == Some(1) {
                            Z3_mk_not(c, x)
                        } else {
                            Z3_mk_xor(c, x, y)
                        }
                    }
                }
            }
            Op::Eq => {
                let (x, y) = (self.tr(ar, n.a), self.tr(ar, n.b));
                Z3_mk_eq(c, x, y)
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let (x, y) = (self.bvx(ar, n.a), self.bvx(ar, n.b));
                match n.op {
                    Op::Ult => Z3_mk_bvult(c, x, y),
                    Op::Ule => Z3_mk_bvule(c, x, y),
                    Op::Slt => Z3_mk_bvslt(c, x, y),
                    _ => Z3_mk_bvsle(c, x, y),
                }
            }
            Op::Ite => {
                let k = self.bool_(ar, n.a);
                let (x, y) = (self.tr(ar, n.b), self.tr(ar, n.c));
                Z3_mk_ite(c, k, x, y)
            }
            Op::Concat => {
                let (x, y) = (self.bvx(ar, n.a), self.bvx(ar, n.b));
                Z3_mk_concat(c, x, y)
            }
            Op::Extract => {
                let x = self.bvx(ar, n.a);
                let x = Z3_mk_extract(c, n.b + w - 1, n.b, x);
                self.boolify(x, w)
            }
            Op::ZExt => {
                let iw = ar.w(n.a);
                let x = self.bvx(ar, n.a);
                Z3_mk_zero_ext(c, w - iw, x)
            }
            Op::Bounded => self.bvx(ar, n.a),
            Op::SExt => {
                let iw = ar.w(n.a);
                let x = self.bvx(ar, n.a);
                Z3_mk_sign_ext(c, w - iw, x)
            }
            Op::Table => {
                let idx = self.bvx(ar, n.b);
                let iw = ar.w(n.b);
                let t = &ar.tables[n.a as usize];
                let need = (usize::BITS - (t.vals.len().max(1) - 1).leading_zeros()).min(iw);
                let vals = t.vals.clone();
                let ew = t.w as u32;
                let x = self.table_ite(&vals, ew, idx, need);
                self.boolify(x, ew)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let (x, y) = (self.fpx(ar, n.a), self.fpx(ar, n.b));
                let rm = Z3_mk_fpa_rne(c);
                let r = match n.op {
                    Op::FAdd => Z3_mk_fpa_add(c, rm, x, y),
                    Op::FSub => Z3_mk_fpa_sub(c, rm, x, y),
                    Op::FMul => Z3_mk_fpa_mul(c, rm, x, y),
                    _ => Z3_mk_fpa_div(c, rm, x, y),
                };
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
                let (x, y) = (self.fpx(ar, n.a), self.fpx(ar, n.b));
                match n.op {
                    Op::FEq => Z3_mk_fpa_eq(c, x, y),
                    Op::FLt => Z3_mk_fpa_lt(c, x, y),
                    Op::FLe => Z3_mk_fpa_leq(c, x, y),
                    _ => {
                        let v = [Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)];
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
            }
            Op::SIToFP | Op::UIToFP => {
                let x = self.bvx(ar, n.a);
                let s = self.fsort(w);
                let rm = Z3_mk_fpa_rne(c);
                let r = if n.op == Op::SIToFP {
                    Z3_mk_fpa_to_fp_signed(c, rm, x, s)
                } else {
                    Z3_mk_fpa_to_fp_unsigned(c, rm, x, s)
                };
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::FPExt | Op::FPTrunc => {
                let x = self.fpx(ar, n.a);
                let s = self.fsort(w);
                let r = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, s);
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::FPToSIsat | Op::FPToUIsat => {
                let iw = ar.w(n.a);
                let x = self.fpx(ar, n.a);
                let s = self.fsort(iw);
                let rtz = Z3_mk_fpa_rtz(c);
                let signed = n.op == Op::FPToSIsat;
                // limits as floats: hi = 2^(w-1) or 2^w (x >= hi saturates); lo: x <= -2^(w-1) / x <= -1 -> min
                let (hi, lo) = if signed {
                    ((1u128 << (w - 1)) as f64, -((1u128 << (w - 1)) as f64))
                } else {
                    (2f64.powi(w as i32), 0f64)
                };
                let fb = |d: f64| if iw == 64 { d.to_bits() as u128 } else { (d as f32).to_bits() as u128 };
                let hib = self.num(fb(hi), iw);
                let hi_f = Z3_mk_fpa_to_fp_bv(c, hib, s);
                let lob = self.num(fb(lo), iw);
                let lo_f = Z3_mk_fpa_to_fp_bv(c, lob, s);
                let conv = if signed {
                    Z3_mk_fpa_to_sbv(c, rtz, x, w)
                } else {
                    Z3_mk_fpa_to_ubv(c, rtz, x, w)
                };
                let maxv = self.num(if signed { (1u128 << (w - 1)) - 1 } else { mask(u128::MAX, w) }, w);
                let minv = self.num(if signed { 1u128 << (w - 1) } else { 0 }, w);
                let zero = self.num(0, w);
                let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, hi_f, x), maxv, conv);
                let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, x, lo_f), minv, r);
                Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), zero, r)
            }
            _ => {
                let (x, y) = (self.bvx(ar, n.a), self.bvx(ar, n.b));
                let r = match n.op {
                    Op::Add => Z3_mk_bvadd(c, x, y),
                    Op::Sub => Z3_mk_bvsub(c, x, y),
                    Op::Mul => Z3_mk_bvmul(c, x, y),
                    Op::UDiv => Z3_mk_bvudiv(c, x, y),
                    Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                    Op::URem => Z3_mk_bvurem(c, x, y),
                    Op::SRem => Z3_mk_bvsrem(c, x, y),
                    Op::And => Z3_mk_bvand(c, x, y),
                    Op::Or => Z3_mk_bvor(c, x, y),
                    Op::Xor => Z3_mk_bvxor(c, x, y),
                    Op::Shl => Z3_mk_bvshl(c, x, y),
                    Op::LShr => Z3_mk_bvlshr(c, x, y),
                    Op::AShr => Z3_mk_bvashr(c, x, y),
                    o => panic!("tr {:?}", o),
                };
                self.boolify(r, w)
            }
        };
        self.cache.insert(e, r);
        r
    }
    unsafe fn boolify(&self, x: P, w: u32) -> P {
        if w == 1 {
            let one = self.num(1, 1);
            Z3_mk_eq(self.ctx, x, one)
        } else {
            x
        }
    }

    unsafe fn model(&mut self, ar: &Arena, s: P, want: u128, out: &mut Vec<(u32, u128)>) {
                let m = Z3_solver_get_model(self.ctx, s);
                Z3_model_inc_ref(self.ctx, m);
                for i in 0..128u32 {
                    if want >> i & 1 == 0 {
                        continue;
                    }
                    for w in ar.sym_w[i as usize].iter().map(|w| *w as u32) {
                        let k = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, i as i32), Z3_mk_bv_sort(self.ctx, w));
                        let d = Z3_get_app_decl(self.ctx, Z3_to_app(self.ctx, k));
                        let v = Z3_model_get_const_interp(self.ctx, m, d);
                        if v.is_null() {
                            continue;
                        }
                        let mut u = 0u64;
                        let val = if w <= 64 && Z3_get_numeral_uint64(self.ctx, v, &mut u) {
                            u as u128
                        } else {
                            CStr::from_ptr(Z3_get_numeral_string(self.ctx, v)).to_str().unwrap().parse::<u128>().unwrap_or(0)
                        };
                        out.push((i, val));
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
    }
    pub unsafe fn mk_int(&self, v: &str) -> P {
        let t = cs(v);
        Z3_mk_numeral(self.ctx, t.as_ptr(), Z3_mk_int_sort(self.ctx))
    }
    pub unsafe fn mk_int_const(&self, tag: i32, e: E) -> P {
        let t = cs(&format!("i{}_{}", tag, e));
        Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, t.as_ptr()), Z3_mk_int_sort(self.ctx))
    }
    pub unsafe fn mk_uf(&self, name: &str, args: &[P]) -> P {
        let t = cs(name);
        let i = Z3_mk_int_sort(self.ctx);
        let dom = [i, i];
        let d = Z3_mk_func_decl(self.ctx, Z3_mk_string_symbol(self.ctx, t.as_ptr()), args.len() as u32, dom.as_ptr(), i);
        Z3_mk_app(self.ctx, d, args.len() as u32, args.as_ptr())
    }
    pub unsafe fn i_add(&self, a: P, b: P) -> P {
        Z3_mk_add(self.ctx, 2, [a, b].as_ptr())
    }
    pub unsafe fn i_sub(&self, a: P, b: P) -> P {
        Z3_mk_sub(self.ctx, 2, [a, b].as_ptr())
    }
    pub unsafe fn i_mul(&self, a: P, b: P) -> P {
        Z3_mk_mul(self.ctx, 2, [a, b].as_ptr())
    }
    pub unsafe fn i_le(&self, a: P, b: P) -> P {
        Z3_mk_le(self.ctx, a, b)
    }
    pub unsafe fn b_and(&self, a: &[P]) -> P {
        Z3_mk_and(self.ctx, a.len() as u32, a.as_ptr())
    }
    pub unsafe fn b_or(&self, a: &[P]) -> P {
        Z3_mk_or(self.ctx, a.len() as u32, a.as_ptr())
    }
    pub unsafe fn b_not(&self, a: P) -> P {
        Z3_mk_not(self.ctx, a)
    }
    pub unsafe fn b_eq(&self, a: P, b: P) -> P {
        Z3_mk_eq(self.ctx, a, b)
    }
    pub unsafe fn b_ite(&self, c: P, a: P, b: P) -> P {
        Z3_mk_ite(self.ctx, c, a, b)
    }
    pub unsafe fn b_const(&self, v: bool) -> P {
        if v {
            Z3_mk_true(self.ctx)
        } else {
            Z3_mk_false(self.ctx)
        }
    }
    pub unsafe fn lia_solve(&mut self, fs: &[P], opq: &[(E, P)], uf: bool) -> Option<Option<Vec<(E, u128)>>> {
        let (c, s) = (self.ctx, if uf { self.ufs } else { self.lias });
        Z3_solver_push(c, s);
        for &f in fs {
            Z3_solver_assert(c, s, f);
        }
        let r = Z3_solver_check(c, s);
        let res = match r {
            1 => {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut v = vec![];
                for &(e, p) in if uf { &[] } else { opq } {
                    let x = Z3_model_get_const_interp(c, m, Z3_get_app_decl(c, Z3_to_app(c, p)));
                    if !x.is_null() {
                        if let Ok(u) = CStr::from_ptr(Z3_get_numeral_string(c, x)).to_str().unwrap().parse::<u128>() {
                            v.push((e, u));
                        }
                    }
                }
                Z3_model_dec_ref(c, m);
                Some(Some(v))
            }
            -1 => Some(None),
            _ => None,
        };
        Z3_solver_pop(c, s, 1);
        res
    }

    /// Conjunction of width-1 expressions. On Sat fills values of the symbols in `want`.
    pub fn check(&mut self, ar: &Arena, conj: &[E], want: u128, out: &mut Vec<(u32, u128)>) -> Res {
        unsafe {
            let mut fp = false;
            for &e in conj {
                fp |= self.has_fp(ar, e);
            }
            let s = if fp { self.fp } else { self.bv };
            {
                match self.lia_check(ar, conj, fp) {
                    Some(None) => return Res::Unsat,
                    Some(Some(vals)) if !fp => {
                        // a bit-vector model with the opaque terms fixed
                        Z3_solver_push(self.ctx, s);
                        for (e, v) in vals {
                            let w = ar.w(e);
                            let x = self.bvx(ar, e);
                            let k = self.num(v, w);
                            let q = Z3_mk_eq(self.ctx, x, k);
                            Z3_solver_assert(self.ctx, s, q);
                        }
                        for &e in conj {
                            let p = self.bool_(ar, e);
                            Z3_solver_assert(self.ctx, s, p);
                        }
                        let r = Z3_solver_check(self.ctx, s);
                        if r == 1 {
                            self.model(ar, s, want, out);
                        }
                        Z3_solver_pop(self.ctx, s, 1);
                        if r == 1 {
                            return Res::Sat;
                        }
                    }
                    _ => {}
                }
            }
            Z3_solver_push(self.ctx, s);
            for &e in conj {
                let p = self.bool_(ar, e);
                Z3_solver_assert(self.ctx, s, p);
            }
            let r = Z3_solver_check(self.ctx, s);
            let res = if r == 1 {
                self.model(ar, s, want, out);
                Res::Sat
            } else if r == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            Z3_solver_pop(self.ctx, s, 1);
            self.asserted += conj.len() as u64;
            res
        }
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.lias);
            Z3_solver_dec_ref(self.ctx, self.bv);
            Z3_solver_dec_ref(self.ctx, self.fp);
            Z3_del_context(self.ctx);
        }
    }
}
