//! Minimal Z3 C-API binding: QF_BV satisfiability of a set of expressions.

use crate::expr::{Arena, E, Op};
use crate::ir::Bin;
use std::ffi::{CStr, CString, c_char, c_int, c_uint, c_void};

type P = *mut c_void;

#[allow(non_snake_case)]
unsafe extern "C" {
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error code {code}");
    std::process::abort();
}

pub enum Sat {
    Unsat,
    Sat(Vec<(u32, u128)>),
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    bv: Vec<P>,
    bo: Vec<P>,
    pub queries: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_query: f64,
    pub dump: Option<String>,
    dumped: u64,
    incremental: bool,
    nlits: usize,
    lits: std::collections::HashMap<u32, P>,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, bv: vec![], bo: vec![], queries: 0, unsat: 0, time: 0.0, max_query: 0.0, dump: None, dumped: 0, incremental: std::env::var("SX_INC").is_ok(), nlits: 0, lits: Default::default() }
        }
    }
    fn num(&self, v: u128, w: u16) -> P {
        unsafe {
            let s = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w as c_uint))
        }
    }
    fn slot(v: &mut Vec<P>, i: usize) -> P {
        if v.len() <= i {
            v.resize(i + 1, std::ptr::null_mut());
        }
        v[i]
    }
    fn to_bool(&mut self, a: &Arena, e: E) -> P {
        let i = e.0 as usize;
        let p = Self::slot(&mut self.bo, i);
        if !p.is_null() {
            return p;
        }
        let n = a.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq => {
                    if a.w(n.a) == 1 {
                        let x = self.to_bool(a, n.a);
                        let y = self.to_bool(a, n.b);
                        Z3_mk_eq(c, x, y)
                    } else {
                        let x = self.to_bv(a, n.a);
                        let y = self.to_bv(a, n.b);
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.to_bv(a, n.a);
                    let y = self.to_bv(a, n.b);
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::Not => {
                    let x = self.to_bool(a, n.a);
                    Z3_mk_not(c, x)
                }
                Op::B(op @ (Bin::And | Bin::Or | Bin::Xor)) => {
                    let x = self.to_bool(a, n.a);
                    let y = self.to_bool(a, n.b);
                    let arr = [x, y];
                    match op {
                        Bin::And => Z3_mk_and(c, 2, arr.as_ptr()),
                        Bin::Or => Z3_mk_or(c, 2, arr.as_ptr()),
                        _ => Z3_mk_xor(c, x, y),
                    }
                }
                Op::Ite => {
                    let x = self.to_bool(a, n.a);
                    let y = self.to_bool(a, n.b);
                    let z = self.to_bool(a, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.to_bv(a, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        Self::slot(&mut self.bo, i);
        self.bo[i] = r;
        r
    }
    fn to_bv(&mut self, a: &Arena, e: E) -> P {
        let i = e.0 as usize;
        let p = Self::slot(&mut self.bv, i);
        if !p.is_null() {
            return p;
        }
        let n = a.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const(v) => self.num(v, n.w),
                Op::Var(k) => {
                    let s = CString::new(format!("v{k}_{}", n.w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w as c_uint))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.to_bool(a, e);
                    let one = self.num(1, 1);
                    let zero = self.num(0, 1);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::B(op) => {
                    let x = self.to_bv(a, n.a);
                    let y = self.to_bv(a, n.b);
                    match op {
                        Bin::Add => Z3_mk_bvadd(c, x, y),
                        Bin::Sub => Z3_mk_bvsub(c, x, y),
                        Bin::Mul => Z3_mk_bvmul(c, x, y),
                        Bin::UDiv => Z3_mk_bvudiv(c, x, y),
                        Bin::URem => Z3_mk_bvurem(c, x, y),
                        Bin::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Bin::SRem => Z3_mk_bvsrem(c, x, y),
                        Bin::And => Z3_mk_bvand(c, x, y),
                        Bin::Or => Z3_mk_bvor(c, x, y),
                        Bin::Xor => Z3_mk_bvxor(c, x, y),
                        Bin::Shl => Z3_mk_bvshl(c, x, y),
                        Bin::LShr => Z3_mk_bvlshr(c, x, y),
                        Bin::AShr => Z3_mk_bvashr(c, x, y),
                    }
                }
                Op::Not => {
                    let x = self.to_bv(a, n.a);
                    Z3_mk_bvnot(c, x)
                }
                Op::Ite => {
                    let x = self.to_bool(a, n.a);
                    let y = self.to_bv(a, n.b);
                    let z = self.to_bv(a, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Concat => {
                    let x = self.to_bv(a, n.a);
                    let y = self.to_bv(a, n.b);
                    Z3_mk_concat(c, x, y)
                }
                Op::Extract(lo) => {
                    let x = self.to_bv(a, n.a);
                    Z3_mk_extract(c, (lo + n.w - 1) as c_uint, lo as c_uint, x)
                }
                Op::ZExt => {
                    let x = self.to_bv(a, n.a);
                    Z3_mk_zero_ext(c, (n.w - a.w(n.a)) as c_uint, x)
                }
                Op::SExt => {
                    let x = self.to_bv(a, n.a);
                    Z3_mk_sign_ext(c, (n.w - a.w(n.a)) as c_uint, x)
                }
            }
        };
        Self::slot(&mut self.bv, i);
        self.bv[i] = r;
        r
    }

    /// Is the conjunction satisfiable? On Sat, values for `vars` (expression ids of variables).
    pub fn check(&mut self, a: &Arena, cs: &[E], vars: &[(u32, E)]) -> Sat {
        let t0 = std::time::Instant::now();
        let c = self.c;
        let bs: Vec<P> = cs.iter().map(|e| self.to_bool(a, *e)).collect();
        let vs: Vec<(u32, P)> = vars.iter().map(|(i, e)| (*i, self.to_bv(a, *e))).collect();
        let r = unsafe {
            let inc = self.incremental;
            let r = if inc {
                if self.nlits > 1500 {
                    Z3_solver_reset(c, self.s);
                    self.lits.clear();
                    self.nlits = 0;
                }
                let mut asm: Vec<P> = vec![];
                for (e, b) in cs.iter().zip(&bs) {
                    let l = match self.lits.get(&e.0) {
                        Some(l) => *l,
                        None => {
                            let s = CString::new(format!("p{}", e.0)).unwrap();
                            let l = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bool_sort(c));
                            Z3_solver_assert(c, self.s, Z3_mk_implies(c, l, *b));
                            self.lits.insert(e.0, l);
                            self.nlits += 1;
                            l
                        }
                    };
                    asm.push(l);
                }
                Z3_solver_check_assumptions(c, self.s, asm.len() as c_uint, asm.as_ptr())
            } else {
                Z3_solver_push(c, self.s);
                for b in bs {
                    Z3_solver_assert(c, self.s, b);
                }
                Z3_solver_check(c, self.s)
            };
            if let Some(d) = &self.dump {
                if self.dumped < 400 {
                    let s = CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().into_owned();
                    let tag = match r { 1 => "sat", -1 => "unsat", _ => "unknown" };
                    let _ = std::fs::write(format!("{d}/q{:05}.{tag}.smt2", self.dumped), format!("(set-logic QF_BV)\n{s}(check-sat)\n"));
                    self.dumped += 1;
                }
            }
            let out = match r {
                -1 => Sat::Unsat,
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut o = vec![];
                    for (i, p) in vs {
                        let mut v: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, p, true, &mut v);
                        let s = CStr::from_ptr(Z3_get_numeral_string(c, v)).to_str().unwrap();
                        o.push((i, s.parse::<u128>().unwrap_or(0)));
                    }
                    Z3_model_dec_ref(c, m);
                    Sat::Sat(o)
                }
                _ => Sat::Unknown,
            };
            if !inc {
                Z3_solver_pop(c, self.s, 1);
            }
            out
        };
        self.queries += 1;
        if matches!(r, Sat::Unsat) {
            self.unsat += 1;
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_query {
            self.max_query = dt;
        }
        r
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}
