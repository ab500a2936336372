//! Minimal FFI to the system Z3 (C API), one context per worker thread.
use crate::expr::{Arena, Op, E};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: u8, v: *mut P) -> u8;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> u8;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    /// values for (var index)
    Sat(Vec<(u16, u64)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    bv: HashMap<E, P>,
    bl: HashMap<E, P>,
    consts: HashMap<(u16, u128), P>,
    cache: HashMap<Box<[E]>, Res>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let set = |k: &str, v: &str| {
                let k = CString::new(k).unwrap();
                let v = CString::new(v).unwrap();
                Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            };
            set("model", "true");
            let c = Z3_mk_context_rc(cfg);
            let s = if std::env::var("IRSYM_QFBV").is_ok() {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            } else {
                Z3_mk_simple_solver(c)
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver {
                c,
                s,
                bv: HashMap::new(),
                bl: HashMap::new(),
                consts: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
            }
        }
    }
    /// boolean term for a width-1 expression
    fn boolean(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bl.get(&e) {
            return *p;
        }
        let n = ar.n(e);
        assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq if ar.w(n.a) == 1 => {
                    let (a, b) = (self.boolean(ar, n.a), self.boolean(ar, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.term(ar, n.a), self.term(ar, n.b));
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::And => {
                    let v = [self.boolean(ar, n.a), self.boolean(ar, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.boolean(ar, n.a), self.boolean(ar, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    if ar.konst(n.b) == Some(1) {
                        let a = self.boolean(ar, n.a);
                        Z3_mk_not(c, a)
                    } else {
                        let (a, b) = (self.boolean(ar, n.a), self.boolean(ar, n.b));
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let (a, b, d) = (self.boolean(ar, n.a), self.boolean(ar, n.b), self.boolean(ar, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let t = self.term(ar, e);
                    let one = self.konst(1, 1);
                    Z3_mk_eq(c, t, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bl.insert(e, r);
        r
    }
    fn konst(&mut self, w: u16, k: u128) -> P {
        if let Some(p) = self.consts.get(&(w, k)) {
            return *p;
        }
        let r = unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, k as u64, Z3_mk_bv_sort(self.c, w as c_uint))
            } else {
                let lo = self.konst(64, k as u64 as u128);
                let hi = self.konst(w - 64, k >> 64);
                Z3_mk_concat(self.c, hi, lo)
            }
        };
        // every term handed to Z3 is kept alive (reference-counted context)
        unsafe { Z3_inc_ref(self.c, r) };
        self.consts.insert((w, k), r);
        r
    }
    fn term(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let n = ar.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.konst(n.w, n.k),
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, n.w as c_uint)),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(ar, e);
                    let (one, zero) = (self.konst(1, 1), self.konst(1, 0));
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Ite => {
                    let a = self.boolean(ar, n.a);
                    let (x, y) = (self.term(ar, n.b), self.term(ar, n.c));
                    Z3_mk_ite(c, a, x, y)
                }
                Op::ZExt => {
                    let a = self.term(ar, n.a);
                    Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.term(ar, n.a);
                    Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::Extract => {
                    let a = self.term(ar, n.a);
                    let lo = n.k as c_uint;
                    Z3_mk_extract(c, lo + n.w as c_uint - 1, lo, a)
                }
                _ => {
                    let (a, b) = (self.term(ar, n.a), self.term(ar, n.b));
                    match n.op {
                        Op::Concat => Z3_mk_concat(c, a, b),
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bv.insert(e, r);
        r
    }

    /// Is the conjunction satisfiable?  `key` gets sorted.
    pub fn check(&mut self, ar: &Arena, mut key: Vec<E>, widths: &[u16]) -> Res {
        key.sort_unstable();
        key.dedup();
        let key = key.into_boxed_slice();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        self.queries += 1;
        let mut vs = crate::expr::VarSet::default();
        for e in key.iter() {
            vs = vs.or(ar.vars[*e as usize]);
        }
        let terms: Vec<P> = key.iter().map(|e| self.boolean(ar, *e)).collect();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for t in &terms {
                Z3_solver_assert(self.c, self.s, *t);
            }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for i in 0..widths.len() {
                        if vs.has(i) {
                            let v = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), Z3_mk_bv_sort(self.c, widths[i] as c_uint));
                            Z3_inc_ref(self.c, v);
                            let mut o: P = std::ptr::null_mut();
                            let mut u = 0u64;
                            if Z3_model_eval(self.c, m, v, 1, &mut o) & 1 == 1 && Z3_get_numeral_uint64(self.c, o, &mut u) & 1 == 1 {
                                out.push((i as u16, u));
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.cache.insert(key, r.clone());
        r
    }
}
