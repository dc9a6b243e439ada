//! Z3 back end.  Every query is a set of 1-bit expressions that must all be true.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}.{d}")
}

extern "C" fn on_err(_c: P, _e: c_int) {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    sol: P,
    asts: HashMap<(Eid, bool), P>, // (expr, as boolean?)
    params: P,
    pub rlimit: u32,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(ctx, l.as_ptr());
            let sol = Z3_mk_solver_for_logic(ctx, sym);
            Z3_solver_inc_ref(ctx, sol);
            let params = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, params);
            let rl = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, params, Z3_mk_string_symbol(ctx, rl.as_ptr()), rlimit);
            let s = Solver { ctx, sol, asts: HashMap::new(), params, rlimit };
            Z3_solver_set_params(ctx, sol, s.params);
            s
        }
    }

    fn bv(&mut self, ex: &Exprs, e: Eid) -> P {
        if let Some(&p) = self.asts.get(&(e, false)) {
            return p;
        }
        let k = ex.key(e);
        let w = k.w as u32;
        let c = self.ctx;
        let p = unsafe {
            match k.op {
                Op::Const => {
                    let s = Z3_mk_bv_sort(c, w);
                    if k.k <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, k.k as u64, s)
                    } else {
                        let t = CString::new(k.k.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                Op::Var => {
                    let s = Z3_mk_bv_sort(c, w);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, k.a as c_int), s)
                }
                Op::Ite => {
                    let i = self.bool(ex, k.a);
                    let a = self.bv(ex, k.b);
                    let b = self.bv(ex, k.c);
                    Z3_mk_ite(c, i, a, b)
                }
                Op::Extract => {
                    let a = self.bv(ex, k.a);
                    Z3_mk_extract(c, k.b + w - 1, k.b, a)
                }
                Op::ZExt => {
                    let a = self.bv(ex, k.a);
                    Z3_mk_zero_ext(c, w - ex.w(k.a), a)
                }
                Op::SExt => {
                    let a = self.bv(ex, k.a);
                    Z3_mk_sign_ext(c, w - ex.w(k.a), a)
                }
                Op::Concat => {
                    let a = self.bv(ex, k.a);
                    let b = self.bv(ex, k.b);
                    Z3_mk_concat(c, a, b)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.bool(ex, e);
                    let s = Z3_mk_bv_sort(c, 1);
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    let zero = Z3_mk_unsigned_int64(c, 0, s);
                    Z3_mk_ite(c, b, one, zero)
                }
                _ => {
                    let a = self.bv(ex, k.a);
                    let b = self.bv(ex, k.b);
                    match k.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.asts.insert((e, false), p);
        p
    }

    /// A 1-bit expression as a Z3 boolean.
    fn bool(&mut self, ex: &Exprs, e: Eid) -> P {
        if let Some(&p) = self.asts.get(&(e, true)) {
            return p;
        }
        let k = ex.key(e);
        let c = self.ctx;
        let p = unsafe {
            match k.op {
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.bv(ex, k.a);
                    let b = self.bv(ex, k.b);
                    match k.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::And | Op::Or => {
                    let a = self.bool(ex, k.a);
                    let b = self.bool(ex, k.b);
                    let v = [a, b];
                    if k.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    let a = self.bool(ex, k.a);
                    if ex.cval(k.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.bool(ex, k.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let i = self.bool(ex, k.a);
                    let a = self.bool(ex, k.b);
                    let b = self.bool(ex, k.c);
                    Z3_mk_ite(c, i, a, b)
                }
                _ => {
                    let a = self.bv(ex, e);
                    let s = Z3_mk_bv_sort(c, 1);
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        self.asts.insert((e, true), p);
        p
    }

    /// Check the conjunction; on sat, `model` receives values for the variables in `vars`.
    pub fn check(&mut self, ex: &Exprs, cs: &[Eid], vars: &[u32], model: &mut Vec<u128>) -> Sat {
        unsafe {
            Z3_solver_reset(self.ctx, self.sol);
            for &e in cs {
                let p = self.bool(ex, e);
                Z3_solver_assert(self.ctx, self.sol, p);
            }
            let r = Z3_solver_check(self.ctx, self.sol);
            if Z3_get_error_code(self.ctx) != 0 {
                return Sat::Unknown;
            }
            match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.sol);
                    Z3_model_inc_ref(self.ctx, m);
                    for &v in vars {
                        let e = ex.vars[v as usize].eid;
                        let p = self.bv(ex, e);
                        let mut out = std::ptr::null_mut();
                        if !Z3_model_eval(self.ctx, m, p, true, &mut out) {
                            return Sat::Unknown;
                        }
                        let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, out));
                        let val: u128 = s.to_str().unwrap().parse().unwrap();
                        if model.len() <= v as usize {
                            model.resize(v as usize + 1, 0);
                        }
                        model[v as usize] = val;
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Sat::Sat
                }
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            }
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe { Z3_solver_dec_ref(self.ctx, self.sol) };
    }
}
