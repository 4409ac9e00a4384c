//! Minimal FFI to libz3 plus an incremental solver that mirrors the path condition.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
    Sat(Vec<u64>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    bv: Vec<P>,
    bo: Vec<P>,
    sorts: [P; 65],
    stack: Vec<E>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
    pub cache: std::collections::HashMap<(u64, E), Option<std::rc::Rc<Vec<u64>>>>,
}

impl Solver {
    pub fn new(timeout_ms: u64) -> Solver {
        unsafe {
            let k = CString::new("timeout").unwrap();
            let v = CString::new(timeout_ms.to_string()).unwrap();
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let s = if std::env::var("RSYM_QFBV").is_ok() { Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())) } else { Z3_mk_simple_solver(c) };
            Z3_solver_inc_ref(c, s);
            Solver {
                c,
                s,
                bv: vec![],
                bo: vec![],
                sorts: [std::ptr::null_mut(); 65],
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: Default::default(),
                cache: Default::default(),
            }
        }
    }
    fn sort(&mut self, w: u8) -> P {
        if self.sorts[w as usize].is_null() {
            self.sorts[w as usize] = unsafe { Z3_mk_bv_sort(self.c, w as c_uint) };
        }
        self.sorts[w as usize]
    }
    fn grow(&mut self, x: &Ex) {
        if self.bv.len() < x.nodes.len() {
            self.bv.resize(x.nodes.len(), std::ptr::null_mut());
            self.bo.resize(x.nodes.len(), std::ptr::null_mut());
        }
    }
    fn bvast(&mut self, x: &Ex, e: E) -> P {
        if !self.bv[e as usize].is_null() {
            return self.bv[e as usize];
        }
        let k = x.nodes[e as usize].k;
        let c = self.c;
        let r = unsafe {
            match k.op {
                Op::Const => {
                    let s = self.sort(k.w);
                    Z3_mk_unsigned_int64(c, k.a, s)
                }
                Op::Var => {
                    let s = self.sort(k.w);
                    let sym = Z3_mk_int_symbol(c, k.a as c_int);
                    Z3_mk_const(c, sym, s)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boast(x, e);
                    let s = self.sort(1);
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    let zero = Z3_mk_unsigned_int64(c, 0, s);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Ite => {
                    let b = self.boast(x, k.a as E);
                    let p = self.bvast(x, k.b);
                    let q = self.bvast(x, k.c);
                    Z3_mk_ite(c, b, p, q)
                }
                Op::ZExt => {
                    let iw = x.w(k.a as E);
                    let p = self.bvast(x, k.a as E);
                    Z3_mk_zero_ext(c, (k.w - iw) as c_uint, p)
                }
                Op::SExt => {
                    let iw = x.w(k.a as E);
                    let p = self.bvast(x, k.a as E);
                    Z3_mk_sign_ext(c, (k.w - iw) as c_uint, p)
                }
                Op::Extract => {
                    let p = self.bvast(x, k.a as E);
                    Z3_mk_extract(c, k.c + k.w as c_uint - 1, k.c, p)
                }
                op => {
                    let p = self.bvast(x, k.a as E);
                    let q = self.bvast(x, k.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, p, q),
                        Op::Sub => Z3_mk_bvsub(c, p, q),
                        Op::Mul => Z3_mk_bvmul(c, p, q),
                        Op::UDiv => Z3_mk_bvudiv(c, p, q),
                        Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                        Op::URem => Z3_mk_bvurem(c, p, q),
                        Op::SRem => Z3_mk_bvsrem(c, p, q),
                        Op::And => Z3_mk_bvand(c, p, q),
                        Op::Or => Z3_mk_bvor(c, p, q),
                        Op::Xor => Z3_mk_bvxor(c, p, q),
                        Op::Shl => Z3_mk_bvshl(c, p, q),
                        Op::LShr => Z3_mk_bvlshr(c, p, q),
                        Op::AShr => Z3_mk_bvashr(c, p, q),
                        Op::Concat => Z3_mk_concat(c, p, q),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv[e as usize] = r;
        r
    }
    fn boast(&mut self, x: &Ex, e: E) -> P {
        if !self.bo[e as usize].is_null() {
            return self.bo[e as usize];
        }
        let k = x.nodes[e as usize].k;
        let c = self.c;
        let r = unsafe {
            match k.op {
                Op::Const => {
                    if k.a != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq => {
                    let (p, q) = (self.bvast(x, k.a as E), self.bvast(x, k.b));
                    Z3_mk_eq(c, p, q)
                }
                Op::Ult => {
                    let (p, q) = (self.bvast(x, k.a as E), self.bvast(x, k.b));
                    Z3_mk_bvult(c, p, q)
                }
                Op::Ule => {
                    let (p, q) = (self.bvast(x, k.a as E), self.bvast(x, k.b));
                    Z3_mk_bvule(c, p, q)
                }
                Op::Slt => {
                    let (p, q) = (self.bvast(x, k.a as E), self.bvast(x, k.b));
                    Z3_mk_bvslt(c, p, q)
                }
                Op::Sle => {
                    let (p, q) = (self.bvast(x, k.a as E), self.bvast(x, k.b));
                    Z3_mk_bvsle(c, p, q)
                }
                Op::And => {
                    let a = [self.boast(x, k.a as E), self.boast(x, k.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.boast(x, k.a as E), self.boast(x, k.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor => {
                    let p = self.boast(x, k.a as E);
                    if x.konst(k.b) == Some(1) {
                        Z3_mk_not(c, p)
                    } else {
                        let q = self.boast(x, k.b);
                        Z3_mk_xor(c, p, q)
                    }
                }
                Op::Ite => {
                    let p = self.boast(x, k.a as E);
                    let q = self.boast(x, k.b);
                    let r = self.boast(x, k.c);
                    Z3_mk_ite(c, p, q, r)
                }
                // a multi-bit variable on the path stands for its declared range
                Op::Var if k.w > 1 => {
                    let v = &x.vars[k.a as usize];
                    let (lo, hi) = (v.2, v.3);
                    let p = self.bvast(x, e);
                    let s = self.sort(k.w);
                    let l = Z3_mk_unsigned_int64(c, lo, s);
                    let h = Z3_mk_unsigned_int64(c, hi, s);
                    let a = [Z3_mk_bvule(c, l, p), Z3_mk_bvule(c, p, h)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                _ => {
                    let p = self.bvast(x, e);
                    let s = self.sort(1);
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    Z3_mk_eq(c, p, one)
                }
            }
        };
        self.bo[e as usize] = r;
        r
    }
    /// Is `path /\ cond` satisfiable?  `cond` has width 1.
    pub fn check(&mut self, x: &Ex, path: &[E], cond: E) -> Res {
        let h = {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            path.hash(&mut h);
            h.finish()
        };
        if let Some(r) = self.cache.get(&(h, cond)) {
            return match r {
                Some(m) => Res::Sat((**m).clone()),
                None => Res::Unsat,
            };
        }
        let t0 = std::time::Instant::now();
        self.grow(x);
        unsafe {
            let mut n = 0;
            while n < path.len() && n < self.stack.len() && path[n] == self.stack[n] {
                n += 1;
            }
            let extra = self.stack.len() - n;
            if extra > 0 {
                Z3_solver_pop(self.c, self.s, extra as c_uint);
                self.stack.truncate(n);
            }
            for &e in &path[n..] {
                let a = self.boast(x, e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(e);
            }
            let a = self.boast(x, cond);
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, a);
            let r = Z3_solver_check(self.c, self.s);
            self.queries += 1;
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut vals = vec![];
                    for (i, v) in x.vars.iter().enumerate() {
                        let s = self.sort(v.1);
                        let sym = Z3_mk_int_symbol(self.c, i as c_int);
                        let t = Z3_mk_const(self.c, sym, s);
                        let mut o: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if !Z3_model_eval(self.c, m, t, true, &mut o) || !Z3_get_numeral_uint64(self.c, o, &mut u) {
                            u = v.2;
                        }
                        // variables outside this query get their range's low end
                        if u < v.2 || u > v.3 {
                            u = v.2;
                        }
                        vals.push(u);
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Res::Sat(vals)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            self.time += t0.elapsed();
            match &res {
                Res::Sat(m) => {
                    if self.cache.len() > 200_000 {
                        self.cache.clear();
                    }
                    self.cache.insert((h, cond), Some(std::rc::Rc::new(m.clone())));
                }
                Res::Unsat => {
                    self.cache.insert((h, cond), None);
                }
                _ => {}
            }
            res
        }
    }
}
