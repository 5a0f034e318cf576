//! Minimal FFI binding to the Z3 C API and the translation of expressions.
#![allow(non_camel_case_types, non_snake_case)]
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type Ptr = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> Ptr;
    fn Z3_del_config(c: Ptr);
    fn Z3_mk_context(c: Ptr) -> Ptr;
    fn Z3_del_context(c: Ptr);
    fn Z3_set_error_handler(c: Ptr, h: Option<extern "C" fn(Ptr, c_int)>);
    fn Z3_get_error_code(c: Ptr) -> c_int;
    fn Z3_mk_string_symbol(c: Ptr, s: *const c_char) -> Ptr;
    fn Z3_mk_bv_sort(c: Ptr, n: c_uint) -> Ptr;
    fn Z3_mk_const(c: Ptr, s: Ptr, t: Ptr) -> Ptr;
    fn Z3_mk_numeral(c: Ptr, s: *const c_char, t: Ptr) -> Ptr;
    fn Z3_mk_unsigned_int64(c: Ptr, v: u64, t: Ptr) -> Ptr;
    fn Z3_mk_bvadd(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsub(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvmul(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvudiv(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsdiv(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvurem(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsrem(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvand(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvxor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvshl(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvlshr(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvashr(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvult(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvule(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvslt(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsle(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_eq(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_not(c: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_and(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_or(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_xor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_ite(c: Ptr, a: Ptr, b: Ptr, d: Ptr) -> Ptr;
    fn Z3_mk_true(c: Ptr) -> Ptr;
    fn Z3_mk_false(c: Ptr) -> Ptr;
    fn Z3_mk_concat(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_extract(c: Ptr, hi: c_uint, lo: c_uint, a: Ptr) -> Ptr;
    fn Z3_mk_zero_ext(c: Ptr, i: c_uint, a: Ptr) -> Ptr;
    fn Z3_mk_sign_ext(c: Ptr, i: c_uint, a: Ptr) -> Ptr;
    fn Z3_mk_solver_for_logic(c: Ptr, l: Ptr) -> Ptr;
    fn Z3_mk_simple_solver(c: Ptr) -> Ptr;
    fn Z3_mk_solver(c: Ptr) -> Ptr;
    fn Z3_solver_inc_ref(c: Ptr, s: Ptr);
    fn Z3_solver_dec_ref(c: Ptr, s: Ptr);
    fn Z3_solver_assert(c: Ptr, s: Ptr, a: Ptr);
    fn Z3_solver_push(c: Ptr, s: Ptr);
    fn Z3_solver_pop(c: Ptr, s: Ptr, n: c_uint);
    fn Z3_solver_reset(c: Ptr, s: Ptr);
    fn Z3_solver_check(c: Ptr, s: Ptr) -> c_int;
    fn Z3_solver_get_model(c: Ptr, s: Ptr) -> Ptr;
    fn Z3_solver_to_string(c: Ptr, s: Ptr) -> *const c_char;
    fn Z3_solver_set_params(c: Ptr, s: Ptr, p: Ptr);
    fn Z3_mk_params(c: Ptr) -> Ptr;
    fn Z3_params_inc_ref(c: Ptr, p: Ptr);
    fn Z3_params_set_uint(c: Ptr, p: Ptr, k: Ptr, v: c_uint);
    fn Z3_model_inc_ref(c: Ptr, m: Ptr);
    fn Z3_model_dec_ref(c: Ptr, m: Ptr);
    fn Z3_model_eval(c: Ptr, m: Ptr, t: Ptr, comp: bool, v: *mut Ptr) -> bool;
    fn Z3_get_numeral_uint64(c: Ptr, v: Ptr, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    // floating point
    fn Z3_mk_fpa_sort_32(c: Ptr) -> Ptr;
    fn Z3_mk_fpa_sort_64(c: Ptr) -> Ptr;
    fn Z3_mk_fpa_rne(c: Ptr) -> Ptr;
    fn Z3_mk_fpa_rtz(c: Ptr) -> Ptr;
    fn Z3_mk_fpa_add(c: Ptr, r: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_sub(c: Ptr, r: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_mul(c: Ptr, r: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_div(c: Ptr, r: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_leq(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_lt(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_eq(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_fpa_is_nan(c: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_fpa_to_fp_bv(c: Ptr, bv: Ptr, s: Ptr) -> Ptr;
    fn Z3_mk_fpa_to_fp_float(c: Ptr, r: Ptr, t: Ptr, s: Ptr) -> Ptr;
    fn Z3_mk_fpa_to_fp_signed(c: Ptr, r: Ptr, t: Ptr, s: Ptr) -> Ptr;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ptr, r: Ptr, t: Ptr, s: Ptr) -> Ptr;
    fn Z3_mk_fpa_to_ubv(c: Ptr, r: Ptr, t: Ptr, sz: c_uint) -> Ptr;
    fn Z3_mk_fpa_to_sbv(c: Ptr, r: Ptr, t: Ptr, sz: c_uint) -> Ptr;
    fn Z3_mk_fpa_to_ieee_bv(c: Ptr, t: Ptr) -> Ptr;
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

extern "C" fn on_error(_c: Ptr, code: c_int) {
    eprintln!("z3 error code {code}");
    std::process::exit(70);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    ctx: Ptr,
    solver: Ptr,
    cache: Vec<Ptr>,  // BV form
    bcache: Vec<Ptr>, // Bool form (width 1)
    vars: Vec<Ptr>,
    pub timeout_ms: u32,
}

impl Z3 {
    pub fn new(timeout_ms: u32, mode: &str) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let solver = match mode {
                "simple" => Z3_mk_simple_solver(ctx),
                "default" => Z3_mk_solver(ctx),
                l => {
                    let s = CString::new(l).unwrap();
                    Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, s.as_ptr()))
                }
            };
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            Z3 { ctx, solver, cache: vec![], bcache: vec![], vars: vec![], timeout_ms }
        }
    }
    fn var(&mut self, i: usize) -> Ptr {
        unsafe {
            while self.vars.len() <= i {
                let s = CString::new(format!("in{}", self.vars.len())).unwrap();
                let v = Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, s.as_ptr()), Z3_mk_bv_sort(self.ctx, 8));
                self.vars.push(v);
            }
            self.vars[i]
        }
    }
    /// Boolean form of a width-1 expression
    pub fn tb(&mut self, ex: &Exprs, e: E) -> Ptr {
        let i = e as usize;
        if self.bcache.len() <= i {
            self.bcache.resize(ex.n.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.bcache[i].is_null() {
            return self.bcache[i];
        }
        let n = ex.n[i];
        assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Opc::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Opc::Eq => {
                    if ex.w(n.a) == 1 {
                        let (a, b) = (self.tb(ex, n.a), self.tb(ex, n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.t(ex, n.a), self.t(ex, n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                Opc::Ult | Opc::Ule | Opc::Slt | Opc::Sle => {
                    let (a, b) = (self.t(ex, n.a), self.t(ex, n.b));
                    match n.op {
                        Opc::Ult => Z3_mk_bvult(c, a, b),
                        Opc::Ule => Z3_mk_bvule(c, a, b),
                        Opc::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Opc::And | Opc::Or => {
                    let v = [self.tb(ex, n.a), self.tb(ex, n.b)];
                    if n.op == Opc::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Opc::Xor => {
                    if ex.kc(n.b) == Some(1) {
                        let a = self.tb(ex, n.a);
                        Z3_mk_not(c, a)
                    } else {
                        let (a, b) = (self.tb(ex, n.a), self.tb(ex, n.b));
                        Z3_mk_xor(c, a, b)
                    }
                }
                Opc::Ite => {
                    let (p, a, b) = (self.tb(ex, n.a), self.tb(ex, n.b), self.tb(ex, n.c));
                    Z3_mk_ite(c, p, a, b)
                }
                Opc::FLt | Opc::FLe | Opc::FEq => {
                    let (a, b) = (self.fp(ex, n.a), self.fp(ex, n.b));
                    match n.op {
                        Opc::FLt => Z3_mk_fpa_lt(c, a, b),
                        Opc::FLe => Z3_mk_fpa_leq(c, a, b),
                        _ => Z3_mk_fpa_eq(c, a, b),
                    }
                }
                Opc::FUno => {
                    let (a, b) = (self.fp(ex, n.a), self.fp(ex, n.b));
                    let v = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                _ => {
                    let v = self.t(ex, e);
                    let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                    Z3_mk_eq(c, v, one)
                }
            }
        };
        self.bcache[i] = r;
        r
    }
    fn fsort(&self, w: u32) -> Ptr {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort_32(self.ctx)
            } else {
                Z3_mk_fpa_sort_64(self.ctx)
            }
        }
    }
    fn fp(&mut self, ex: &Exprs, e: E) -> Ptr {
        let w = ex.w(e);
        let a = self.t(ex, e);
        let s = self.fsort(w);
        unsafe { Z3_mk_fpa_to_fp_bv(self.ctx, a, s) }
    }
    /// Bit-vector form
    pub fn t(&mut self, ex: &Exprs, e: E) -> Ptr {
        let i = e as usize;
        if self.cache.len() <= i {
            self.cache.resize(ex.n.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.cache[i].is_null() {
            return self.cache[i];
        }
        let n = ex.n[i];
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Opc::Const => {
                    let s = Z3_mk_bv_sort(c, n.w);
                    if n.k >> 64 == 0 {
                        Z3_mk_unsigned_int64(c, n.k as u64, s)
                    } else {
                        let t = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                Opc::Var => self.var(n.k as usize),
                Opc::Eq | Opc::Ult | Opc::Ule | Opc::Slt | Opc::Sle | Opc::FLt | Opc::FLe | Opc::FEq | Opc::FUno => {
                    let b = self.tb(ex, e);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                Opc::And | Opc::Or | Opc::Xor if n.w == 1 => {
                    let b = self.tb(ex, e);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                Opc::Extract => {
                    let a = self.t(ex, n.a);
                    Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, a)
                }
                Opc::ZExt => {
                    let a = self.t(ex, n.a);
                    Z3_mk_zero_ext(c, n.w - ex.w(n.a), a)
                }
                Opc::SExt => {
                    let a = self.t(ex, n.a);
                    Z3_mk_sign_ext(c, n.w - ex.w(n.a), a)
                }
                Opc::Ite => {
                    let p = self.tb(ex, n.a);
                    let (a, b) = (self.t(ex, n.b), self.t(ex, n.c));
                    Z3_mk_ite(c, p, a, b)
                }
                Opc::FAdd | Opc::FSub | Opc::FMul | Opc::FDiv => {
                    let (a, b) = (self.fp(ex, n.a), self.fp(ex, n.b));
                    let r = Z3_mk_fpa_rne(c);
                    let v = match n.op {
                        Opc::FAdd => Z3_mk_fpa_add(c, r, a, b),
                        Opc::FSub => Z3_mk_fpa_sub(c, r, a, b),
                        Opc::FMul => Z3_mk_fpa_mul(c, r, a, b),
                        _ => Z3_mk_fpa_div(c, r, a, b),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, v)
                }
                Opc::FToS | Opc::FToU => {
                    let a = self.fp(ex, n.a);
                    let r = Z3_mk_fpa_rtz(c);
                    if n.op == Opc::FToS {
                        Z3_mk_fpa_to_sbv(c, r, a, n.w)
                    } else {
                        Z3_mk_fpa_to_ubv(c, r, a, n.w)
                    }
                }
                Opc::SToF | Opc::UToF => {
                    let a = self.t(ex, n.a);
                    let r = Z3_mk_fpa_rne(c);
                    let s = self.fsort(n.w);
                    let v = if n.op == Opc::SToF {
                        Z3_mk_fpa_to_fp_signed(c, r, a, s)
                    } else {
                        Z3_mk_fpa_to_fp_unsigned(c, r, a, s)
                    };
                    Z3_mk_fpa_to_ieee_bv(c, v)
                }
                Opc::FToF => {
                    let a = self.fp(ex, n.a);
                    let r = Z3_mk_fpa_rne(c);
                    let s = self.fsort(n.w);
                    let v = Z3_mk_fpa_to_fp_float(c, r, a, s);
                    Z3_mk_fpa_to_ieee_bv(c, v)
                }
                _ => {
                    let (a, b) = (self.t(ex, n.a), self.t(ex, n.b));
                    match n.op {
                        Opc::Add => Z3_mk_bvadd(c, a, b),
                        Opc::Sub => Z3_mk_bvsub(c, a, b),
                        Opc::Mul => Z3_mk_bvmul(c, a, b),
                        Opc::UDiv => Z3_mk_bvudiv(c, a, b),
                        Opc::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Opc::URem => Z3_mk_bvurem(c, a, b),
                        Opc::SRem => Z3_mk_bvsrem(c, a, b),
                        Opc::And => Z3_mk_bvand(c, a, b),
                        Opc::Or => Z3_mk_bvor(c, a, b),
                        Opc::Xor => Z3_mk_bvxor(c, a, b),
                        Opc::Shl => Z3_mk_bvshl(c, a, b),
                        Opc::LShr => Z3_mk_bvlshr(c, a, b),
                        Opc::AShr => Z3_mk_bvashr(c, a, b),
                        Opc::Concat => Z3_mk_concat(c, a, b),
                        o => panic!("translate {o:?}"),
                    }
                }
            }
        };
        debug_assert_eq!(unsafe { Z3_get_error_code(c) }, 0);
        if r.is_null() {
            panic!("z3 returned null for {n:?}");
        }
        self.cache[i] = r;
        r
    }
    /// Check a conjunction; on SAT return values of `vars`. A query that runs out of time is tried once more, by
    /// bit-blasting and with twenty times as long.
    pub fn check(&mut self, ex: &Exprs, conj: &[E], vars: &[u32], dump: Option<&str>) -> (Sat, Vec<(u32, u8)>) {
        let r = self.check1(ex, conj, vars, dump);
        if r.0 != Sat::Unknown {
            return r;
        }
        unsafe {
            let (c, old) = (self.ctx, self.solver);
            let l = CString::new("QF_FPBV").unwrap();
            self.solver = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, self.solver);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.timeout_ms.saturating_mul(20));
            Z3_solver_set_params(c, self.solver, p);
            let r = self.check1(ex, conj, vars, None);
            self.solver = old;
            r
        }
    }
    fn check1(&mut self, ex: &Exprs, conj: &[E], vars: &[u32], dump: Option<&str>) -> (Sat, Vec<(u32, u8)>) {
        unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for e in conj {
                let b = self.tb(ex, *e);
                Z3_solver_assert(self.ctx, self.solver, b);
            }
            if let Some(f) = dump {
                let s = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
                let _ = std::fs::write(f, format!("(set-logic ALL)\n{s}\n(check-sat)\n"));
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            let mut out = vec![];
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    for v in vars {
                        let t = self.var(*v as usize);
                        let mut o: Ptr = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, t, true, &mut o);
                        let mut x = 0u64;
                        Z3_get_numeral_uint64(self.ctx, o, &mut x);
                        out.push((*v, x as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Sat::Sat
                }
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            (res, out)
        }
    }
    #[allow(dead_code)]
    fn reset(&mut self) {
        unsafe { Z3_solver_reset(self.ctx, self.solver) }
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
    }
}
