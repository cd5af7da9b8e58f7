//! Minimal hand-written binding to the Z3 C API (libz3 from the sandbox).
#![allow(non_camel_case_types)]
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

macro_rules! opaque { ($($n:ident),*) => { $(pub type $n = *mut c_void;)* } }
opaque!(Config, Context, Sort, Symbol, Ast, Solver, Model, Params, Tactic);

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> Config;
    fn Z3_del_config(c: Config);
    fn Z3_mk_context(c: Config) -> Context;
    fn Z3_del_context(c: Context);
    fn Z3_set_error_handler(c: Context, h: Option<extern "C" fn(Context, c_int)>);
    fn Z3_mk_string_symbol(c: Context, s: *const c_char) -> Symbol;
    fn Z3_mk_real_sort(c: Context) -> Sort;
    fn Z3_mk_const(c: Context, s: Symbol, ty: Sort) -> Ast;
    fn Z3_mk_numeral(c: Context, s: *const c_char, ty: Sort) -> Ast;
    fn Z3_mk_add(c: Context, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_mul(c: Context, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_lt(c: Context, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_le(c: Context, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Context, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Context, a: Ast) -> Ast;
    fn Z3_mk_and(c: Context, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Context, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_true(c: Context) -> Ast;
    fn Z3_mk_false(c: Context) -> Ast;
    fn Z3_mk_is_int(c: Context, a: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Context) -> Solver;
    fn Z3_mk_tactic(c: Context, n: *const c_char) -> Tactic;
    fn Z3_tactic_inc_ref(c: Context, t: Tactic);
    fn Z3_tactic_dec_ref(c: Context, t: Tactic);
    fn Z3_mk_solver_from_tactic(c: Context, t: Tactic) -> Solver;
    fn Z3_solver_inc_ref(c: Context, s: Solver);
    fn Z3_solver_dec_ref(c: Context, s: Solver);
    fn Z3_solver_push(c: Context, s: Solver);
    fn Z3_solver_pop(c: Context, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Context, s: Solver, a: Ast);
    fn Z3_solver_check(c: Context, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Context, s: Solver) -> Model;
    fn Z3_solver_set_params(c: Context, s: Solver, p: Params);
    fn Z3_solver_to_string(c: Context, s: Solver) -> *const c_char;
    fn Z3_mk_params(c: Context) -> Params;
    fn Z3_params_inc_ref(c: Context, p: Params);
    fn Z3_params_dec_ref(c: Context, p: Params);
    fn Z3_params_set_uint(c: Context, p: Params, k: Symbol, v: c_uint);
    fn Z3_model_inc_ref(c: Context, m: Model);
    fn Z3_model_dec_ref(c: Context, m: Model);
    fn Z3_model_eval(c: Context, m: Model, t: Ast, complete: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_decimal_string(c: Context, a: Ast, prec: c_uint) -> *const c_char;
    fn Z3_get_numeral_string(c: Context, a: Ast) -> *const c_char;
    fn Z3_is_algebraic_number(c: Context, a: Ast) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_: Context, _: c_int) {
    ERR.with(|e| e.set(e.get() + 1));
}
thread_local!(static ERR: std::cell::Cell<u64> = std::cell::Cell::new(0));

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

/// A Z3 context with one incremental solver.
pub struct Z3 {
    c: Context,
    s: Solver,
    real: Sort,
    pub made: usize,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let real = Z3_mk_real_sort(c);
            let z = Z3 { c, s, real, made: 0 };
            z.set_timeout(s, timeout_ms);
            Z3_solver_push(c, s);
            z
        }
    }
    fn set_timeout(&self, s: Solver, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
            Z3_params_dec_ref(self.c, p);
        }
    }
    pub fn reset(&mut self) {
        unsafe {
            Z3_solver_pop(self.c, self.s, 1);
            Z3_solver_push(self.c, self.s);
        }
    }
    pub fn errors() -> u64 {
        ERR.with(|e| e.get())
    }
    pub fn push(&self) {
        unsafe { Z3_solver_push(self.c, self.s) }
    }
    pub fn pop(&self) {
        unsafe { Z3_solver_pop(self.c, self.s, 1) }
    }
    pub fn assert(&self, a: Ast) {
        unsafe { Z3_solver_assert(self.c, self.s, a) }
    }
    pub fn check(&self) -> Res {
        let e0 = Self::errors();
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        if Self::errors() != e0 {
            return Res::Unknown;
        }
        match r {
            1 => Res::Sat,
            -1 => Res::Unsat,
            _ => Res::Unknown,
        }
    }
    pub fn dump(&self) -> String {
        unsafe { CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned() }
    }
    /// Fresh non-incremental run with the nlsat tactic over the given assertions; evaluates `vals` on sat.
    pub fn check_nlsat(&self, asserts: &[Ast], vals: &[Ast], timeout_ms: u32) -> (Res, Vec<f64>) {
        unsafe {
            let n = CString::new("qfnra-nlsat").unwrap();
            let t = Z3_mk_tactic(self.c, n.as_ptr());
            Z3_tactic_inc_ref(self.c, t);
            let s = Z3_mk_solver_from_tactic(self.c, t);
            Z3_solver_inc_ref(self.c, s);
            self.set_timeout(s, timeout_ms);
            for a in asserts {
                Z3_solver_assert(self.c, s, *a);
            }
            let r = match Z3_solver_check(self.c, s) {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            let mut out = Vec::new();
            if r == Res::Sat {
                out = self.model_vals(s, vals);
            }
            Z3_solver_dec_ref(self.c, s);
            Z3_tactic_dec_ref(self.c, t);
            (r, out)
        }
    }
    fn model_vals(&self, s: Solver, vals: &[Ast]) -> Vec<f64> {
        unsafe {
            let m = Z3_solver_get_model(self.c, s);
            if m.is_null() {
                return vec![f64::NAN; vals.len()];
            }
            Z3_model_inc_ref(self.c, m);
            let out = vals
                .iter()
                .map(|v| {
                    let mut r: Ast = std::ptr::null_mut();
                    if Z3_model_eval(self.c, m, *v, true, &mut r) {
                        self.num(r)
                    } else {
                        f64::NAN
                    }
                })
                .collect();
            Z3_model_dec_ref(self.c, m);
            out
        }
    }
    fn num(&self, a: Ast) -> f64 {
        unsafe {
            if Z3_is_algebraic_number(self.c, a) {
                let s = CStr::from_ptr(Z3_get_numeral_decimal_string(self.c, a, 20)).to_string_lossy().replace('?', "");
                return s.parse().unwrap_or(f64::NAN);
            }
            let s = CStr::from_ptr(Z3_get_numeral_string(self.c, a)).to_string_lossy().into_owned();
            if s.is_empty() {
                return f64::NAN;
            }
            match s.split_once('/') {
                None => s.parse().unwrap_or(f64::NAN),
                Some((n, d)) => {
                    if n.len() < 300 && d.len() < 300 {
                        n.parse::<f64>().unwrap_or(f64::NAN) / d.parse::<f64>().unwrap_or(f64::NAN)
                    } else {
                        let s = CStr::from_ptr(Z3_get_numeral_decimal_string(self.c, a, 30)).to_string_lossy().replace('?', "");
                        s.parse().unwrap_or(f64::NAN)
                    }
                }
            }
        }
    }
    pub fn model(&self, vals: &[Ast]) -> Vec<f64> {
        self.model_vals(self.s, vals)
    }

    pub fn var(&mut self, name: &str) -> Ast {
        self.made += 1;
        let n = CString::new(name).unwrap();
        unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), self.real) }
    }
    pub fn num_ast(&mut self, s: &str) -> Ast {
        self.made += 1;
        let n = CString::new(s).unwrap();
        unsafe { Z3_mk_numeral(self.c, n.as_ptr(), self.real) }
    }
    pub fn add(&mut self, a: &[Ast]) -> Ast {
        self.made += 1;
        match a.len() {
            0 => self.num_ast("0"),
            1 => a[0],
            _ => unsafe { Z3_mk_add(self.c, a.len() as c_uint, a.as_ptr()) },
        }
    }
    pub fn mul(&mut self, a: &[Ast]) -> Ast {
        self.made += 1;
        match a.len() {
            0 => self.num_ast("1"),
            1 => a[0],
            _ => unsafe { Z3_mk_mul(self.c, a.len() as c_uint, a.as_ptr()) },
        }
    }
    pub fn lt(&mut self, a: Ast, b: Ast) -> Ast {
        self.made += 1;
        unsafe { Z3_mk_lt(self.c, a, b) }
    }
    pub fn le(&mut self, a: Ast, b: Ast) -> Ast {
        self.made += 1;
        unsafe { Z3_mk_le(self.c, a, b) }
    }
    pub fn eq(&mut self, a: Ast, b: Ast) -> Ast {
        self.made += 1;
        unsafe { Z3_mk_eq(self.c, a, b) }
    }
    pub fn not(&mut self, a: Ast) -> Ast {
        unsafe { Z3_mk_not(self.c, a) }
    }
    pub fn is_int(&mut self, a: Ast) -> Ast {
        unsafe { Z3_mk_is_int(self.c, a) }
    }
    pub fn and(&mut self, a: &[Ast]) -> Ast {
        match a.len() {
            0 => unsafe { Z3_mk_true(self.c) },
            1 => a[0],
            _ => unsafe { Z3_mk_and(self.c, a.len() as c_uint, a.as_ptr()) },
        }
    }
    pub fn or(&mut self, a: &[Ast]) -> Ast {
        match a.len() {
            0 => unsafe { Z3_mk_false(self.c) },
            1 => a[0],
            _ => unsafe { Z3_mk_or(self.c, a.len() as c_uint, a.as_ptr()) },
        }
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
        }
    }
}
