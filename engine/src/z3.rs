//! Thin binding to libz3 (C API) and the incremental path solver.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("symx: z3 error {code}");
    std::process::exit(3);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    cx: P,
    s: P,
    bv: FxMap<E, P>,
    bo: FxMap<E, P>,
    vars: Vec<P>,
    asserted: Vec<E>,
    pub queries: u64,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub n_unknown: u64,
    pub time: f64,
    pub max_time: f64,
    /// queries kept for the cross-check with other solvers
    pub dump: Option<String>,
    pub dump_every: u64,
    pub dumped: u64,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let cx = Z3_mk_context(cfg);
            Z3_set_error_handler(cx, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(cx, Z3_mk_string_symbol(cx, l.as_ptr()));
            Z3_solver_inc_ref(cx, s);
            let p = Z3_mk_params(cx);
            Z3_params_inc_ref(cx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(cx, p, Z3_mk_string_symbol(cx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(cx, s, p);
            Solver {
                cx,
                s,
                bv: FxMap::default(),
                bo: FxMap::default(),
                vars: vec![],
                asserted: vec![],
                queries: 0,
                n_sat: 0,
                n_unsat: 0,
                n_unknown: 0,
                time: 0.0,
                max_time: 0.0,
                dump: None,
                dump_every: 1,
                dumped: 0,
            }
        }
    }
    fn sort(&self, w: u8) -> P {
        unsafe { Z3_mk_bv_sort(self.cx, w as c_uint) }
    }
    fn var(&mut self, i: u32) -> P {
        while self.vars.len() <= i as usize {
            let n = CString::new(format!("in{}", self.vars.len())).unwrap();
            let v = unsafe { Z3_mk_const(self.cx, Z3_mk_string_symbol(self.cx, n.as_ptr()), self.sort(8)) };
            self.vars.push(v);
        }
        self.vars[i as usize]
    }
    /// Translate bottom-up without recursion.
    fn tr(&mut self, p: &Pool, root: E) {
        let mut st = vec![root];
        while let Some(&x) = st.last() {
            let done = |s: &Self, e: E| if p.w(e) == 1 { s.bo.contains_key(&e) } else { s.bv.contains_key(&e) };
            if done(self, x) {
                st.pop();
                continue;
            }
            let mut ready = true;
            for c in p.children(x) {
                if c != 0 && !done(self, c) {
                    st.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            st.pop();
            let t = self.tr1(p, x);
            if p.w(x) == 1 {
                self.bo.insert(x, t);
            } else {
                self.bv.insert(x, t);
            }
        }
    }
    fn b(&self, e: E) -> P {
        self.bo[&e]
    }
    /// bit-vector view of a translated term
    fn v(&mut self, p: &Pool, e: E) -> P {
        if p.w(e) != 1 {
            return self.bv[&e];
        }
        if let Some(&t) = self.bv.get(&e) {
            return t;
        }
        let b = self.bo[&e];
        let t = unsafe {
            let s = self.sort(1);
            Z3_mk_ite(self.cx, b, Z3_mk_unsigned_int64(self.cx, 1, s), Z3_mk_unsigned_int64(self.cx, 0, s))
        };
        self.bv.insert(e, t);
        t
    }
    fn tr1(&mut self, p: &Pool, x: E) -> P {
        use K::*;
        let n = p.n[x as usize];
        let cx = self.cx;
        unsafe {
            if n.w == 1 {
                let one = |s: &mut Self, t: P| {
                    let so = s.sort(1);
                    Z3_mk_eq(cx, t, Z3_mk_unsigned_int64(cx, 1, so))
                };
                return match n.k {
                    Const(c) => {
                        if c == 1 {
                            Z3_mk_true(cx)
                        } else {
                            Z3_mk_false(cx)
                        }
                    }
                    And(a, b) | Mul(a, b) => {
                        let v = [self.b(a), self.b(b)];
                        Z3_mk_and(cx, 2, v.as_ptr())
                    }
                    Or(a, b) => {
                        let v = [self.b(a), self.b(b)];
                        Z3_mk_or(cx, 2, v.as_ptr())
                    }
                    Xor(a, b) if p.as_const(b) == Some(1) => Z3_mk_not(cx, self.b(a)),
                    Xor(a, b) | Add(a, b) | Sub(a, b) => Z3_mk_xor(cx, self.b(a), self.b(b)),
                    Ite(c, a, b) => Z3_mk_ite(cx, self.b(c), self.b(a), self.b(b)),
                    Eq(a, b) => {
                        if p.w(a) == 1 {
                            Z3_mk_eq(cx, self.b(a), self.b(b))
                        } else {
                            Z3_mk_eq(cx, self.bv[&a], self.bv[&b])
                        }
                    }
                    Ult(a, b) => {
                        let (a, b) = (self.v(p, a), self.v(p, b));
                        Z3_mk_bvult(cx, a, b)
                    }
                    Ule(a, b) => {
                        let (a, b) = (self.v(p, a), self.v(p, b));
                        Z3_mk_bvule(cx, a, b)
                    }
                    Slt(a, b) => {
                        let (a, b) = (self.v(p, a), self.v(p, b));
                        Z3_mk_bvslt(cx, a, b)
                    }
                    Sle(a, b) => {
                        let (a, b) = (self.v(p, a), self.v(p, b));
                        Z3_mk_bvsle(cx, a, b)
                    }
                    Extract(lo, a) => {
                        let v = self.v(p, a);
                        let t = Z3_mk_extract(cx, lo as c_uint, lo as c_uint, v);
                        one(self, t)
                    }
                    k => {
                        // remaining one-bit operations through their bit-vector form
                        let (a, b) = match k {
                            UDiv(a, b) | SDiv(a, b) | URem(a, b) | SRem(a, b) | Shl(a, b) | LShr(a, b)
                            | AShr(a, b) => (self.v(p, a), self.v(p, b)),
                            _ => unreachable!("one-bit {k:?}"),
                        };
                        let t = self.binop(k, a, b);
                        one(self, t)
                    }
                };
            }
            match n.k {
                Var(i) => self.var(i),
                Const(c) => {
                    let s = self.sort(n.w);
                    if n.w <= 64 {
                        Z3_mk_unsigned_int64(cx, c as u64, s)
                    } else {
                        let t = CString::new(c.to_string()).unwrap();
                        Z3_mk_numeral(cx, t.as_ptr(), s)
                    }
                }
                Concat(a, b) => {
                    let (a, b) = (self.v(p, a), self.v(p, b));
                    Z3_mk_concat(cx, a, b)
                }
                Extract(lo, a) => {
                    let a = self.v(p, a);
                    Z3_mk_extract(cx, (lo + n.w - 1) as c_uint, lo as c_uint, a)
                }
                SExt(a) => {
                    let k = n.w - p.w(a);
                    let a = self.v(p, a);
                    Z3_mk_sign_ext(cx, k as c_uint, a)
                }
                Ite(c, a, b) => Z3_mk_ite(cx, self.b(c), self.bv[&a], self.bv[&b]),
                Add(a, b) | Sub(a, b) | Mul(a, b) | UDiv(a, b) | SDiv(a, b) | URem(a, b) | SRem(a, b)
                | Shl(a, b) | LShr(a, b) | AShr(a, b) | And(a, b) | Or(a, b) | Xor(a, b) => {
                    let (a, b) = (self.bv[&a], self.bv[&b]);
                    self.binop(n.k, a, b)
                }
                k => unreachable!("wide {k:?}"),
            }
        }
    }
    unsafe fn binop(&self, k: K, a: P, b: P) -> P {
        use K::*;
        let cx = self.cx;
        match k {
            Add(..) => Z3_mk_bvadd(cx, a, b),
            Sub(..) => Z3_mk_bvsub(cx, a, b),
            Mul(..) => Z3_mk_bvmul(cx, a, b),
            UDiv(..) => Z3_mk_bvudiv(cx, a, b),
            SDiv(..) => Z3_mk_bvsdiv(cx, a, b),
            URem(..) => Z3_mk_bvurem(cx, a, b),
            SRem(..) => Z3_mk_bvsrem(cx, a, b),
            Shl(..) => Z3_mk_bvshl(cx, a, b),
            LShr(..) => Z3_mk_bvlshr(cx, a, b),
            AShr(..) => Z3_mk_bvashr(cx, a, b),
            And(..) => Z3_mk_bvand(cx, a, b),
            Or(..) => Z3_mk_bvor(cx, a, b),
            Xor(..) => Z3_mk_bvxor(cx, a, b),
            _ => unreachable!(),
        }
    }
    /// Is `pc` together with `extra` satisfiable?  On sat the model bytes are returned.
    pub fn check(&mut self, p: &Pool, pc: &[E], extra: E) -> (Sat, Vec<u8>) {
        let t0 = Instant::now();
        let mut common = 0;
        while common < self.asserted.len() && common < pc.len() && self.asserted[common] == pc[common] {
            common += 1;
        }
        unsafe {
            let extra_pops = self.asserted.len() - common;
            if extra_pops > 0 {
                Z3_solver_pop(self.cx, self.s, extra_pops as c_uint);
                self.asserted.truncate(common);
            }
            for &e in &pc[common..] {
                self.tr(p, e);
                let t = self.b(e);
                Z3_solver_push(self.cx, self.s);
                Z3_solver_assert(self.cx, self.s, t);
                self.asserted.push(e);
            }
            self.tr(p, extra);
            let t = self.b(extra);
            Z3_solver_push(self.cx, self.s);
            Z3_solver_assert(self.cx, self.s, t);
            let r = Z3_solver_check(self.cx, self.s);
            self.queries += 1;
            let mut m = vec![];
            let res = match r {
                1 => {
                    let md = Z3_solver_get_model(self.cx, self.s);
                    Z3_model_inc_ref(self.cx, md);
                    if p.nvars > 0 {
                        self.var(p.nvars - 1);
                    }
                    for i in 0..p.nvars {
                        let mut out: P = std::ptr::null_mut();
                        let mut v = 0u64;
                        if Z3_model_eval(self.cx, md, self.vars[i as usize], true, &mut out) {
                            Z3_get_numeral_uint64(self.cx, out, &mut v);
                        }
                        m.push(v as u8);
                    }
                    Z3_model_dec_ref(self.cx, md);
                    self.n_sat += 1;
                    Sat::Sat
                }
                -1 => {
                    self.n_unsat += 1;
                    Sat::Unsat
                }
                _ => {
                    self.n_unknown += 1;
                    Sat::Unknown
                }
            };
            if let Some(d) = &self.dump {
                if self.queries % self.dump_every == 0 && res != Sat::Unknown {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.cx, self.s)).to_string_lossy();
                    let st = if res == Sat::Sat { "sat" } else { "unsat" };
                    let _ = std::fs::write(
                        format!("{d}/q{}_{st}.smt2", self.queries),
                        format!("(set-logic QF_BV)\n(set-info :status {st})\n{s}(check-sat)\n"),
                    );
                    self.dumped += 1;
                }
            }
            Z3_solver_pop(self.cx, self.s, 1);
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            (res, m)
        }
    }
}
