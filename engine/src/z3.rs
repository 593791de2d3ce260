//! Minimal bindings to libz3 and the translation of terms.
use crate::ir::{Bin, mask};
use crate::term::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_ast_kind(c: P, a: P) -> c_uint;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_real_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_is_int(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_neg(c: P, a: P) -> P;
    fn Z3_mk_fpa_abs(c: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_uint) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    panic!("z3 error: {:?}", m);
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MV {
    Q(Q),
    B(u128),
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    cache: Vec<P>,
    pub stack: Vec<TId>,
    real: P,
    dbl: P,
    uf: [P; 6],
    uf_fp: [P; 6],
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub uf_float: bool,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(logic: &str, timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = if logic == "simple" {
                Z3_mk_simple_solver(c)
            } else if logic.is_empty() {
                Z3_mk_solver(c)
            } else {
                let l = CString::new(logic).unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            let real = Z3_mk_real_sort(c);
            let dbl = Z3_mk_fpa_sort_double(c);
            let mut uf = [std::ptr::null_mut(); 6];
            let mut uf_fp = [std::ptr::null_mut(); 6];
            for (i, n) in ["uadd", "usub", "umul", "udiv", "usqrt", "uabs"].iter().enumerate() {
                let nm = CString::new(*n).unwrap();
                uf[i] = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, nm.as_ptr()), 2, [real, real].as_ptr(), real);
                let nm = CString::new(format!("f{}", n)).unwrap();
                uf_fp[i] = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, nm.as_ptr()), 2, [dbl, dbl].as_ptr(), dbl);
            }
            Z3 { c, s, cache: vec![], stack: vec![], real, dbl, uf, uf_fp, queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, uf_float: false }
        }
    }
    fn num(&self, q: Q) -> P {
        let s = if q.d == 1 { format!("{}", q.n) } else { format!("{}/{}", q.n, q.d) };
        let s = CString::new(s).unwrap();
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), self.real) }
    }
    pub fn tr(&mut self, tm: &Terms, t: TId) -> P {
        if let Some(p) = self.cache.get(t as usize) {
            if !p.is_null() {
                return *p;
            }
        }
        let c = self.c;
        let p = unsafe {
            match tm.get(t).clone() {
                T::True => Z3_mk_true(c),
                T::False => Z3_mk_false(c),
                T::BVarB(i) => self.var(i, Z3_mk_bool_sort(c)),
                T::BvVar(i, w) => self.var(i, Z3_mk_bv_sort(c, w)),
                T::RVar(i) => self.var(i, self.real),
                T::FVar(i) => self.var(i, self.dbl),
                T::Not(a) => {
                    let a = self.tr(tm, a);
                    Z3_mk_not(c, a)
                }
                T::And(a, b) => {
                    let v = [self.tr(tm, a), self.tr(tm, b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                T::Or(a, b) => {
                    let v = [self.tr(tm, a), self.tr(tm, b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                T::Iff(a, b) => {
                    let v = [self.tr(tm, a), self.tr(tm, b)];
                    Z3_mk_iff(c, v[0], v[1])
                }
                T::LinLt(l) => {
                    let a = self.tr(tm, l);
                    Z3_mk_lt(c, a, self.num(Q::ZERO))
                }
                T::LinLe(l) => {
                    let a = self.tr(tm, l);
                    Z3_mk_le(c, a, self.num(Q::ZERO))
                }
                T::LinEq(l) => {
                    let a = self.tr(tm, l);
                    Z3_mk_eq(c, a, self.num(Q::ZERO))
                }
                T::Lin(l) => {
                    let mut parts = vec![];
                    for (a, q) in l.v.iter() {
                        let x = self.tr(tm, *a);
                        if *q == Q::ONE {
                            parts.push(x);
                        } else {
                            let v = [self.num(*q), x];
                            parts.push(Z3_mk_mul(c, 2, v.as_ptr()));
                        }
                    }
                    if l.k.n != 0 || parts.is_empty() {
                        parts.push(self.num(l.k));
                    }
                    if parts.len() == 1 {
                        parts[0]
                    } else {
                        Z3_mk_add(c, parts.len() as c_uint, parts.as_ptr())
                    }
                }
                T::RIte(k, a, b) | T::BvIte(_, k, a, b) | T::FIte(k, a, b) => {
                    let v = [self.tr(tm, k), self.tr(tm, a), self.tr(tm, b)];
                    Z3_mk_ite(c, v[0], v[1], v[2])
                }
                T::RUf(op, a, b) => {
                    let v = [self.tr(tm, a), self.tr(tm, b)];
                    Z3_mk_app(c, self.uf[uf_ix(op)], 2, v.as_ptr())
                }
                T::BvC(w, x) => self.bvnum(w, x),
                T::BvBin(op, _, a, b) => {
                    let (a, b) = (self.tr(tm, a), self.tr(tm, b));
                    match op {
                        Bin::Add => Z3_mk_bvadd(c, a, b),
                        Bin::Sub => Z3_mk_bvsub(c, a, b),
                        Bin::Mul => Z3_mk_bvmul(c, a, b),
                        Bin::UDiv => Z3_mk_bvudiv(c, a, b),
                        Bin::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Bin::URem => Z3_mk_bvurem(c, a, b),
                        Bin::SRem => Z3_mk_bvsrem(c, a, b),
                        Bin::Shl => Z3_mk_bvshl(c, a, b),
                        Bin::LShr => Z3_mk_bvlshr(c, a, b),
                        Bin::AShr => Z3_mk_bvashr(c, a, b),
                        Bin::And => Z3_mk_bvand(c, a, b),
                        Bin::Or => Z3_mk_bvor(c, a, b),
                        Bin::Xor => Z3_mk_bvxor(c, a, b),
                        _ => panic!("bvbin {:?}", op),
                    }
                }
                T::Zext(w, a) => {
                    let aw = tm.bvw(a);
                    let a = self.tr(tm, a);
                    Z3_mk_zero_ext(c, w - aw, a)
                }
                T::Sext(w, a) => {
                    let aw = tm.bvw(a);
                    let a = self.tr(tm, a);
                    Z3_mk_sign_ext(c, w - aw, a)
                }
                T::Extract(h, l, a) => {
                    let a = self.tr(tm, a);
                    Z3_mk_extract(c, h, l, a)
                }
                T::Concat(a, b) => {
                    let (a, b) = (self.tr(tm, a), self.tr(tm, b));
                    Z3_mk_concat(c, a, b)
                }
                T::BvEq(a, b) => {
                    let (a, b) = (self.tr(tm, a), self.tr(tm, b));
                    Z3_mk_eq(c, a, b)
                }
                T::BvUlt(a, b) => {
                    let (a, b) = (self.tr(tm, a), self.tr(tm, b));
                    Z3_mk_bvult(c, a, b)
                }
                T::BvSlt(a, b) => {
                    let (a, b) = (self.tr(tm, a), self.tr(tm, b));
                    Z3_mk_bvslt(c, a, b)
                }
                T::FC(x) => {
                    let b = self.bvnum(64, x as u128);
                    Z3_mk_fpa_to_fp_bv(c, b, self.dbl)
                }
                T::FOp2(op, a, b) => {
                    let (a, b) = (self.tr(tm, a), self.tr(tm, b));
                    if self.uf_float && !matches!(op, FOp::Neg | FOp::Abs) {
                        let v = [a, b];
                        Z3_mk_app(c, self.uf_fp[uf_ix(op)], 2, v.as_ptr())
                    } else {
                        let r = Z3_mk_fpa_rne(c);
                        match op {
                            FOp::Add => Z3_mk_fpa_add(c, r, a, b),
                            FOp::Sub => Z3_mk_fpa_sub(c, r, a, b),
                            FOp::Mul => Z3_mk_fpa_mul(c, r, a, b),
                            FOp::Div => Z3_mk_fpa_div(c, r, a, b),
                            FOp::Sqrt => Z3_mk_fpa_sqrt(c, r, a),
                            FOp::Neg => Z3_mk_fpa_neg(c, a),
                            FOp::Abs => Z3_mk_fpa_abs(c, a),
                        }
                    }
                }
                T::FEq(a, b) => {
                    let (a, b) = (self.tr(tm, a), self.tr(tm, b));
                    Z3_mk_fpa_eq(c, a, b)
                }
                T::FLt(a, b) => {
                    let (a, b) = (self.tr(tm, a), self.tr(tm, b));
                    Z3_mk_fpa_lt(c, a, b)
                }
                T::FLe(a, b) => {
                    let (a, b) = (self.tr(tm, a), self.tr(tm, b));
                    Z3_mk_fpa_leq(c, a, b)
                }
                T::FIsNan(a) => {
                    let a = self.tr(tm, a);
                    Z3_mk_fpa_is_nan(c, a)
                }
                T::FBits(a) => {
                    let a = self.tr(tm, a);
                    Z3_mk_fpa_to_ieee_bv(c, a)
                }
                T::FFromBits(a) => {
                    let a = self.tr(tm, a);
                    Z3_mk_fpa_to_fp_bv(c, a, self.dbl)
                }
            }
        };
        if self.cache.len() <= t as usize {
            self.cache.resize(t as usize + 1024, std::ptr::null_mut());
        }
        self.cache[t as usize] = p;
        p
    }
    fn bvnum(&self, w: u32, x: u128) -> P {
        let s = CString::new(format!("{}", x & mask(w))).unwrap();
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w)) }
    }
    fn var(&self, i: u32, s: P) -> P {
        let n = CString::new(format!("v{}", i)).unwrap();
        unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), s) }
    }
    /// make the assertion stack equal to `pc`
    pub fn sync(&mut self, tm: &Terms, pc: &[TId]) {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && self.stack[k] == pc[k] {
            k += 1;
        }
        let n = self.stack.len() - k;
        if n > 0 {
            unsafe { Z3_solver_pop(self.c, self.s, n as c_uint) };
            self.stack.truncate(k);
        }
        for t in &pc[k..] {
            let a = self.tr(tm, *t);
            unsafe {
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
            }
            self.stack.push(*t);
        }
    }
    /// satisfiability of pc and extra; on sat, values of the wanted variables
    pub fn check(&mut self, tm: &Terms, pc: &[TId], extra: &[TId], int_vars: &[TId], want: &[u32]) -> (Res, Option<Vec<MV>>) {
        let t0 = std::time::Instant::now();
        self.sync(tm, pc);
        let mut ex: Vec<P> = extra.iter().map(|t| self.tr(tm, *t)).collect();
        for v in int_vars {
            let a = self.tr(tm, *v);
            ex.push(unsafe { Z3_mk_is_int(self.c, a) });
        }
        let r = unsafe {
            if ex.is_empty() {
                Z3_solver_check(self.c, self.s)
            } else {
                Z3_solver_push(self.c, self.s);
                for e in &ex {
                    Z3_solver_assert(self.c, self.s, *e);
                }
                Z3_solver_check(self.c, self.s)
            }
        };
        self.queries += 1;
        let res = match r {
            1 => Res::Sat,
            -1 => Res::Unsat,
            _ => Res::Unknown,
        };
        let mut model = None;
        if res == Res::Sat {
            self.sat += 1;
            unsafe {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut vals = Some(Vec::with_capacity(want.len()));
                for i in want {
                    let vt = tm.var_terms[*i as usize];
                    let mut a = self.tr(tm, vt);
                    let so = tm.vars[*i as usize].sort;
                    if so == Sort::Fp {
                        a = Z3_mk_fpa_to_ieee_bv(self.c, a);
                    }
                    let mut out: P = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, a, true, &mut out);
                    let v = if so == Sort::Bool {
                        Some(MV::B((out == Z3_mk_true(self.c)) as u128))
                    } else if Z3_get_ast_kind(self.c, out) != 0 {
                        None
                    } else {
                        let s = CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_string_lossy().into_owned();
                        match so {
                            Sort::Real => parse_q(&s).map(MV::Q),
                            _ => s.parse::<u128>().ok().map(MV::B),
                        }
                    };
                    match (v, &mut vals) {
                        (Some(v), Some(l)) => l.push(v),
                        _ => vals = None,
                    }
                }
                Z3_model_dec_ref(self.c, m);
                model = vals;
            }
        } else if res == Res::Unsat {
            self.unsat += 1;
        } else {
            self.unknown += 1;
        }
        if !ex.is_empty() {
            unsafe { Z3_solver_pop(self.c, self.s, 1) };
        }
        self.time += t0.elapsed().as_secs_f64();
        (res, model)
    }
    pub fn dump(&mut self, tm: &Terms, pc: &[TId]) -> String {
        self.sync(tm, pc);
        unsafe { CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned() }
    }
}
fn uf_ix(op: FOp) -> usize {
    match op {
        FOp::Add => 0,
        FOp::Sub => 1,
        FOp::Mul => 2,
        FOp::Div => 3,
        FOp::Sqrt => 4,
        FOp::Abs | FOp::Neg => 5,
    }
}
fn parse_q(s: &str) -> Option<Q> {
    let mut it = s.split('/');
    let n: i128 = it.next()?.trim().parse().ok()?;
    let d: i128 = match it.next() {
        Some(x) => x.trim().parse().ok()?,
        None => 1,
    };
    // keep rationals small enough for products
    if n.unsigned_abs() > (1 << 100) || d > (1 << 62) {
        return None;
    }
    Some(Q::new(n, d))
}
