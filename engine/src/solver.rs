//! z3 through its C API (libz3), QF_BV.
use crate::expr::{cx, Eid, Op};
use crate::ir::{Bin, Pred};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, i: P, t: P, e: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("ENGINE-ERROR z3 error code {e}");
    std::process::exit(2);
}

pub type Model = HashMap<u32, u64>;

pub struct Solver {
    c: P,
    s: P,
    bv: HashMap<Eid, P>,
    bo: HashMap<Eid, P>,
    cache: HashMap<Vec<Eid>, Option<Rc<Model>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
}

pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver { c, s, bv: HashMap::new(), bo: HashMap::new(), cache: HashMap::new(), queries: 0, cache_hits: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0 }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) }
        a
    }
    fn bvt(&mut self, e: Eid) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let n = cx().n(e);
        let w = n.w as u32;
        let c = self.c;
        unsafe {
            let r = match n.op {
                Op::Const => Z3_mk_unsigned_int64(c, cx().as_const(e).unwrap() as u64, Z3_mk_bv_sort(c, w)),
                Op::ConstW => {
                    let s = CString::new(format!("{}", cx().as_const(e).unwrap())).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w))
                }
                Op::Var => {
                    // the bits in which all values of its range agree are constant
                    let v = &cx().vars[n.a as usize];
                    let s = CString::new(v.name.as_str()).unwrap();
                    let k = (64 - (v.lo ^ v.hi).leading_zeros()).max(1).min(w);
                    let x = self.keep(Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, k)));
                    if k < w {
                        let top = self.keep(Z3_mk_unsigned_int64(c, v.lo >> k, Z3_mk_bv_sort(c, w - k)));
                        Z3_mk_concat(c, top, x)
                    } else {
                        x
                    }
                }
                Op::Ite => {
                    let (i, t, f) = (self.boolt(n.a), self.bvt(n.b), self.bvt(n.c));
                    Z3_mk_ite(c, i, t, f)
                }
                Op::Zext => {
                    let f = cx().w(n.a);
                    let a = self.bvt(n.a);
                    Z3_mk_zero_ext(c, w - f, a)
                }
                Op::Sext => {
                    let f = cx().w(n.a);
                    let a = self.bvt(n.a);
                    Z3_mk_sign_ext(c, w - f, a)
                }
                Op::Extract => {
                    let a = self.bvt(n.a);
                    Z3_mk_extract(c, n.b + w - 1, n.b, a)
                }
                Op::Concat => {
                    let (a, b) = (self.bvt(n.a), self.bvt(n.b));
                    Z3_mk_concat(c, a, b)
                }
                Op::Cmp(_) => {
                    let b = self.boolt(e);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                Op::Bin(o) => {
                    if w == 1 && matches!(o, Bin::And | Bin::Or | Bin::Xor) {
                        let b = self.boolt(e);
                        let s = Z3_mk_bv_sort(c, 1);
                        Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                    } else {
                        let (a, b) = (self.bvt(n.a), self.bvt(n.b));
                        match o {
                            Bin::Add => Z3_mk_bvadd(c, a, b),
                            Bin::Sub => Z3_mk_bvsub(c, a, b),
                            Bin::Mul => Z3_mk_bvmul(c, a, b),
                            Bin::Udiv => Z3_mk_bvudiv(c, a, b),
                            Bin::Sdiv => Z3_mk_bvsdiv(c, a, b),
                            Bin::Urem => Z3_mk_bvurem(c, a, b),
                            Bin::Srem => Z3_mk_bvsrem(c, a, b),
                            Bin::Shl => Z3_mk_bvshl(c, a, b),
                            Bin::Lshr => Z3_mk_bvlshr(c, a, b),
                            Bin::Ashr => Z3_mk_bvashr(c, a, b),
                            Bin::And => Z3_mk_bvand(c, a, b),
                            Bin::Or => Z3_mk_bvor(c, a, b),
                            Bin::Xor => Z3_mk_bvxor(c, a, b),
                            _ => panic!("float in solver"),
                        }
                    }
                }
            };
            let r = self.keep(r);
            self.bv.insert(e, r);
            r
        }
    }
    fn boolt(&mut self, e: Eid) -> P {
        if let Some(p) = self.bo.get(&e) {
            return *p;
        }
        let n = cx().n(e);
        debug_assert!(n.w == 1);
        let c = self.c;
        unsafe {
            let r = match n.op {
                Op::Const => {
                    if n.a == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Cmp(p) => {
                    let (a, b) = (self.bvt(n.a), self.bvt(n.b));
                    match p {
                        Pred::Eq => Z3_mk_eq(c, a, b),
                        Pred::Ult => Z3_mk_bvult(c, a, b),
                        Pred::Ule => Z3_mk_bvule(c, a, b),
                        Pred::Slt => Z3_mk_bvslt(c, a, b),
                        Pred::Sle => Z3_mk_bvsle(c, a, b),
                        _ => unreachable!(),
                    }
                }
                Op::Bin(Bin::And) => {
                    let v = [self.boolt(n.a), self.boolt(n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Bin(Bin::Or) => {
                    let v = [self.boolt(n.a), self.boolt(n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Bin(Bin::Xor) => {
                    if cx().as_const(n.b) == Some(1) {
                        let a = self.boolt(n.a);
                        Z3_mk_not(c, a)
                    } else {
                        let (a, b) = (self.boolt(n.a), self.boolt(n.b));
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let (i, t, f) = (self.boolt(n.a), self.boolt(n.b), self.boolt(n.c));
                    Z3_mk_ite(c, i, t, f)
                }
                _ => {
                    let b = self.bvt(e);
                    Z3_mk_eq(c, b, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                }
            };
            let r = self.keep(r);
            self.bo.insert(e, r);
            r
        }
    }

    /// constraints must be all the relevant ones (already sliced)
    pub fn check(&mut self, cs: &[Eid]) -> Res {
        let mut key = cs.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        self.queries += 1;
        let t0 = std::time::Instant::now();
        let mut vars: Vec<u32> = vec![];
        for e in &key {
            vars.extend(cx().vars_of(*e).iter());
        }
        vars.sort();
        vars.dedup();
        let c = self.c;
        let r = unsafe {
            Z3_solver_push(c, self.s);
            for e in &key {
                let b = self.boolt(*e);
                Z3_solver_assert(c, self.s, b);
            }
            for v in &vars {
                let (w, lo, hi, e) = {
                    let i = &cx().vars[*v as usize];
                    (i.w, i.lo, i.hi, i.e)
                };
                let x = self.bvt(e);
                let s = Z3_mk_bv_sort(c, w);
                if lo > 0 {
                    Z3_solver_assert(c, self.s, Z3_mk_bvule(c, Z3_mk_unsigned_int64(c, lo, s), x));
                }
                if w < 64 && hi != (1u64 << w) - 1 || w == 64 && hi != u64::MAX {
                    Z3_solver_assert(c, self.s, Z3_mk_bvule(c, x, Z3_mk_unsigned_int64(c, hi, s)));
                }
            }
            let r = Z3_solver_check(c, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut mm = Model::new();
                    for v in &vars {
                        let e = cx().vars[*v as usize].e;
                        let x = self.bvt(e);
                        let mut out: P = std::ptr::null_mut();
                        assert!(Z3_model_eval(c, m, x, true, &mut out));
                        let mut u = 0u64;
                        assert!(Z3_get_numeral_uint64(c, out, &mut u));
                        mm.insert(*v, u);
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    Res::Sat(Rc::new(mm))
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(c, self.s, 1);
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        if let Ok(t) = std::env::var("VP_SLOW") {
            if dt > t.parse().unwrap_or(1e9) {
                eprintln!("SLOW {dt:.2} s {}", match r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" });
                for e in &key {
                    eprintln!("   {}", cx().show(*e, 40));
                }
            }
        }
        match &r {
            Res::Sat(m) => {
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.cache.insert(key, None);
            }
            _ => {}
        }
        r
    }
}
