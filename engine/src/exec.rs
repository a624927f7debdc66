//! Path-forking symbolic executor.  Addresses are concrete, memory is byte
//! addressed, and every byte is either concrete or a bit-vector term over the
//! harness inputs.  Branches on terms are decided by the solver; both feasible
//! sides are explored.
use crate::expr::*;
use crate::ir::{self, Callee, Module, Op, Ty, C, I};
use crate::z3::{Sat, Solver};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u8, u128),
    S(E),
    A(Rc<Vec<V>>),
}

pub struct Obj {
    size: u64,
    bytes: Vec<u8>,
    sym: Vec<E>,
    ro: bool,
}
impl Clone for Obj {
    fn clone(&self) -> Self {
        Obj { size: self.size, bytes: self.bytes.clone(), sym: self.sym.clone(), ro: self.ro }
    }
}
impl Obj {
    fn new(size: u64, fill: u8) -> Obj {
        Obj { size, bytes: vec![fill; size as usize], sym: vec![], ro: false }
    }
}

const FN_BASE: u64 = 0x0000_0800_0000;
const GL_BASE: u64 = 0x0000_1000_0000;
const HEAP_BASE: u64 = 0x0000_6000_0000_0000;
const STACK_BASE: u64 = 0x0000_7000_0000_0000;
/// filler for memory that was never written
const FILL: u8 = 0xA5;

#[derive(Clone)]
struct Frame {
    f: Rc<Cf>,
    regs: Vec<V>,
    bb: u32,
    ip: u32,
    prev: u32,
    mark: usize,
    dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum In {
    Bytes(u32, u32, u32),
    Pick(u64),
}

#[derive(Clone)]
struct State {
    frames: Vec<Rc<Frame>>,
    stack: Vec<(u64, Rc<Obj>)>,
    heap: Vec<(u64, Rc<Obj>)>,
    gmods: Rc<BTreeMap<u64, Rc<Obj>>>,
    next_stack: u64,
    next_heap: u64,
    pc: Vec<E>,
    model: Rc<Vec<u8>>,
    model_id: u64,
    known: Rc<FxMap<E, u128>>,
    inputs: Vec<In>,
    nvars: u32,
    obs: Vec<(u32, V)>,
    steps: u64,
    allow: u64,
}

/// compiled function: parsed body and resolved constants
struct Cf {
    f: ir::Func,
    consts: Vec<V>,
    cov: RefCell<Vec<bool>>,
}

pub enum Stop {
    Done,
    Infeasible,
    Viol(&'static str, String),
    Engine(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub what: String,
    pub inputs: Vec<u8>,
    pub layout: String,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub inputs: Vec<u8>,
    pub obs: Vec<(u32, u128)>,
}

pub struct Limits {
    pub seconds: f64,
    pub steps: u64,
    pub alloc: u64,
    pub samples: usize,
    pub seed: u64,
    pub max_viol: usize,
    /// seconds to go on for after a violation
    pub after: f64,
}

pub struct Exec<'m> {
    m: &'m Module,
    pub p: Pool,
    pub s: Solver,
    funcs: HashMap<Rc<str>, Rc<Cf>>,
    fn_addr: HashMap<String, u64>,
    fn_names: Vec<Rc<str>>,
    gl_addr: HashMap<String, u64>,
    globals: Vec<(u64, Rc<Obj>)>,
    next_gl: u64,
    work: Vec<State>,
    next_model: u64,
    lim: Limits,
    t0: Instant,
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub reach: BTreeSet<u32>,
    pub check_ids: BTreeSet<u32>,
    pub viols: Vec<Violation>,
    viol_keys: BTreeSet<String>,
    pub samples: Vec<Sample>,
    rng: u64,
    pub incomplete: Option<String>,
    pub engine_err: Option<String>,
    pub max_pc: usize,
    stub_hits: BTreeMap<String, u64>,
}

fn c64(v: u64) -> V {
    V::C(64, v as u128)
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, lim: Limits, solver_ms: u32) -> Self {
        let seed = lim.seed;
        Exec {
            m,
            p: Pool::new(),
            s: Solver::new(solver_ms),
            funcs: HashMap::new(),
            fn_addr: HashMap::new(),
            fn_names: vec![],
            gl_addr: HashMap::new(),
            globals: vec![],
            next_gl: GL_BASE,
            work: vec![],
            next_model: 1,
            lim,
            t0: Instant::now(),
            paths: 0,
            infeasible: 0,
            forks: 0,
            steps: 0,
            checks: 0,
            checks_trivial: 0,
            reach: BTreeSet::new(),
            check_ids: BTreeSet::new(),
            viols: vec![],
            viol_keys: BTreeSet::new(),
            samples: vec![],
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            incomplete: None,
            engine_err: None,
            max_pc: 0,
            stub_hits: BTreeMap::new(),
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ---- constants and globals --------------------------------------------
    fn fn_address(&mut self, n: &str) -> u64 {
        if let Some(&a) = self.fn_addr.get(n) {
            return a;
        }
        let a = FN_BASE + 16 * self.fn_names.len() as u64;
        self.fn_names.push(n.into());
        self.fn_addr.insert(n.into(), a);
        a
    }
    fn glob_address(&mut self, n: &str) -> R<u64> {
        let n = self.m.resolve(n).to_string();
        if let Some(&a) = self.gl_addr.get(&n) {
            return Ok(a);
        }
        if self.m.has_func(&n) || !self.m.has_glob(&n) {
            return Ok(self.fn_address(&n));
        }
        let g = self.m.global(&n).map_err(Stop::Engine)?;
        let Some((ty, init, ro, align)) = g else {
            return Ok(self.fn_address(&n));
        };
        let size = ty.size();
        let al = align.max(16);
        let a = (self.next_gl + al - 1) / al * al;
        self.next_gl = a + size + 64;
        self.gl_addr.insert(n.clone(), a);
        let idx = self.globals.len();
        self.globals.push((a, Rc::new(Obj::new(size, 0))));
        let mut o = Obj::new(size, 0);
        self.init(&mut o.bytes, 0, &ty, &init)?;
        o.ro = ro;
        self.globals[idx].1 = Rc::new(o);
        Ok(a)
    }
    fn init(&mut self, out: &mut [u8], off: usize, ty: &Ty, c: &C) -> R<()> {
        match c {
            C::Zero(_) | C::Undef(_) => {}
            C::Bytes(b) => out[off..off + b.len()].copy_from_slice(b),
            C::Agg(v, _) => {
                let es = ty.elems().ok_or_else(|| Stop::Engine("aggregate initializer".into()))?;
                for (i, (c, t)) in v.iter().zip(es).enumerate() {
                    self.init(out, off + ty.field_off(i) as usize, &t, c)?;
                }
            }
            _ => {
                let v = self.cval(c)?;
                if let V::C(w, x) = v {
                    let n = (w as usize + 7) / 8;
                    out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                }
            }
        }
        Ok(())
    }
    fn cval(&mut self, c: &C) -> R<V> {
        let err = |s: &str| Stop::Engine(format!("constant: {s}"));
        Ok(match c {
            C::Int(v, t) => {
                let w = t.bits().ok_or_else(|| err("int width"))?;
                V::C(w, *v & mask(w))
            }
            C::Zero(t) | C::Undef(t) => self.zero(t)?,
            C::Bytes(b) => V::A(Rc::new(b.iter().map(|&x| V::C(8, x as u128)).collect())),
            C::Agg(v, _) => {
                let mut r = vec![];
                for x in v {
                    r.push(self.cval(x)?);
                }
                V::A(Rc::new(r))
            }
            C::Glob(n) => c64(self.glob_address(n)?),
            C::Off(b, o) => match self.cval(b)? {
                V::C(64, x) => c64((x as u64).wrapping_add(*o as u64)),
                _ => return Err(err("offset")),
            },
            C::Cast(_, b, t) => match self.cval(b)? {
                V::C(_, x) => {
                    let w = t.bits().ok_or_else(|| err("cast"))?;
                    V::C(w, x & mask(w))
                }
                _ => return Err(err("cast")),
            },
            C::Bin(op, a, b, t) => match (self.cval(a)?, self.cval(b)?) {
                (V::C(_, x), V::C(_, y)) => {
                    let w = t.bits().ok_or_else(|| err("bin"))?;
                    V::C(w, cbin(*op, x, y, w).ok_or_else(|| err("bin"))?)
                }
                _ => return Err(err("bin")),
            },
        })
    }
    fn zero(&mut self, t: &Ty) -> R<V> {
        if let Some(w) = t.bits() {
            return Ok(V::C(w, 0));
        }
        match t.elems() {
            Some(es) => {
                let mut v = vec![];
                for e in es {
                    v.push(self.zero(&e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            None => Err(Stop::Engine(format!("zero of {t:?}"))),
        }
    }
    fn get_func(&mut self, n: &str) -> R<Rc<Cf>> {
        if let Some(f) = self.funcs.get(n) {
            return Ok(f.clone());
        }
        let f = self.m.func(n).map_err(Stop::Engine)?;
        let mut consts = vec![];
        for c in &f.consts {
            // constants of unsupported shape only matter when used
            consts.push(match self.cval(c) {
                Ok(v) => v,
                Err(Stop::Engine(_)) => V::A(Rc::new(vec![])),
                Err(e) => return Err(e),
            });
        }
        let nb = f.blocks.len();
        let cf = Rc::new(Cf { f, consts, cov: RefCell::new(vec![false; nb]) });
        self.funcs.insert(n.into(), cf.clone());
        Ok(cf)
    }

    // ---- value helpers ------------------------------------------------------
    fn e(&mut self, v: &V) -> E {
        match v {
            V::C(w, c) => self.p.c(*c, *w),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate where a scalar is expected"),
        }
    }
    fn v(&self, e: E) -> V {
        match self.p.as_const(e) {
            Some(c) => V::C(self.p.w(e), c),
            None => V::S(e),
        }
    }
    fn wid(&self, v: &V) -> u8 {
        match v {
            V::C(w, _) => *w,
            V::S(e) => self.p.w(*e),
            V::A(_) => 0,
        }
    }
    fn vbin(&mut self, op: Bin, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::C(w, x), V::C(_, y)) => match cbin(op, *x, *y, *w) {
                Some(r) => Ok(V::C(*w, r)),
                None => Err(Stop::Viol("ub", format!("division by zero ({op:?})"))),
            },
            (V::A(x), V::A(y)) => {
                let mut r = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    r.push(self.vbin(op, p, q)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            (V::A(_), _) | (_, V::A(_)) => Err(Stop::Engine("binary op on mixed shapes".into())),
            _ => {
                let (x, y) = (self.e(a), self.e(b));
                let r = self.p.bin(op, x, y);
                Ok(self.v(r))
            }
        }
    }
    fn vcmp(&mut self, pr: Pred, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::C(w, x), V::C(_, y)) => Ok(V::C(1, cpred(pr, *x, *y, *w) as u128)),
            (V::A(x), V::A(y)) => {
                let mut r = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    r.push(self.vcmp(pr, p, q)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            (V::A(_), _) | (_, V::A(_)) => Err(Stop::Engine("icmp on mixed shapes".into())),
            _ => {
                let (x, y) = (self.e(a), self.e(b));
                let r = self.p.cmp(pr, x, y);
                Ok(self.v(r))
            }
        }
    }
    fn vsel(&mut self, c: &V, a: &V, b: &V) -> R<V> {
        match c {
            V::C(_, 1) => Ok(a.clone()),
            V::C(_, _) => Ok(b.clone()),
            V::A(cs) => match (a, b) {
                (V::A(x), V::A(y)) => {
                    let cs = cs.clone();
                    let mut r = vec![];
                    for i in 0..cs.len() {
                        r.push(self.vsel(&cs[i], &x[i], &y[i])?);
                    }
                    Ok(V::A(Rc::new(r)))
                }
                _ => Err(Stop::Engine("vector select".into())),
            },
            V::S(ce) => match (a, b) {
                (V::A(x), V::A(y)) => {
                    let mut r = vec![];
                    for i in 0..x.len() {
                        r.push(self.vsel(c, &x[i], &y[i])?);
                    }
                    Ok(V::A(Rc::new(r)))
                }
                _ => {
                    let (x, y) = (self.e(a), self.e(b));
                    let r = self.p.ite(*ce, x, y);
                    Ok(self.v(r))
                }
            },
        }
    }
    fn lanes(&mut self, a: &V, f: &mut dyn FnMut(&mut Self, &V) -> R<V>) -> R<V> {
        match a {
            V::A(x) => {
                let mut r = vec![];
                for v in x.iter() {
                    r.push(f(self, v)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => f(self, a),
        }
    }
    fn vzext(&mut self, a: &V, w: u8) -> V {
        match a {
            V::C(_, x) => V::C(w, *x),
            _ => {
                let x = self.e(a);
                let r = self.p.zext(x, w);
                self.v(r)
            }
        }
    }
    fn vext(&mut self, a: &V, lo: u8, w: u8) -> V {
        match a {
            V::C(_, x) => V::C(w, *x >> lo & mask(w)),
            _ => {
                let x = self.e(a);
                let r = self.p.extract(x, lo, w);
                self.v(r)
            }
        }
    }
    fn vcat(&mut self, h: &V, l: &V) -> V {
        let (x, y) = (self.e(h), self.e(l));
        let r = self.p.concat(x, y);
        self.v(r)
    }
    fn elem_ty(t: &Ty) -> &Ty {
        match t {
            Ty::Vec(_, t) => t,
            t => t,
        }
    }

    // ---- path condition -----------------------------------------------------
    fn eval(&mut self, st: &State, e: E) -> u128 {
        self.p.eval(e, &st.model, st.model_id)
    }
    fn timed_out(&self) -> bool {
        self.t0.elapsed().as_secs_f64() > self.lim.seconds
    }
    fn query(&mut self, st: &State, e: E) -> R<Option<Vec<u8>>> {
        match self.s.check(&self.p, &st.pc, e) {
            (Sat::Sat, m) => Ok(Some(m)),
            (Sat::Unsat, _) => Ok(None),
            (Sat::Unknown, _) => Err(Stop::Engine("solver gave no answer within its limit".into())),
        }
    }
    fn assume(&mut self, st: &mut State, e: E) {
        if self.p.as_const(e) == Some(1) {
            return;
        }
        st.pc.push(e);
        self.max_pc = self.max_pc.max(st.pc.len());
        if let K::Eq(a, b) = self.p.n[e as usize].k {
            if let Some(c) = self.p.as_const(b) {
                Rc::make_mut(&mut st.known).insert(a, c);
            }
        }
        Rc::make_mut(&mut st.known).insert(e, 1);
        if let K::Xor(x, y) = self.p.n[e as usize].k {
            if self.p.as_const(y) == Some(1) {
                Rc::make_mut(&mut st.known).insert(x, 0);
            }
        }
    }
    fn set_model(&mut self, st: &mut State, m: Vec<u8>) {
        st.model = Rc::new(m);
        st.model_id = self.next_model;
        self.next_model += 1;
    }
    /// Decide a one-bit term on this path; forks the other side when feasible.
    /// The caller must be able to re-execute the current instruction.
    fn decide(&mut self, st: &mut State, c: &V) -> R<bool> {
        let e = match c {
            V::C(_, x) => return Ok(*x == 1),
            V::S(e) => *e,
            V::A(_) => return Err(Stop::Engine("branch on aggregate".into())),
        };
        if let Some(&k) = st.known.get(&e) {
            return Ok(k == 1);
        }
        let val = self.eval(st, e) == 1;
        let ne = self.p.not(e);
        let (mine, other) = if val { (e, ne) } else { (ne, e) };
        if let Some(m) = self.query(st, other)? {
            let mut o = st.clone();
            self.assume(&mut o, other);
            self.set_model(&mut o, m);
            self.work.push(o);
            self.forks += 1;
            self.assume(st, mine);
        } else {
            Rc::make_mut(&mut st.known).insert(e, val as u128);
        }
        Ok(val)
    }
    /// A concrete value for `v` on this path; other values are forked.
    fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        let e = match v {
            V::C(_, x) => return Ok(*x as u64),
            V::S(e) => *e,
            V::A(_) => return Err(Stop::Engine("aggregate address".into())),
        };
        if let Some(&k) = st.known.get(&e) {
            return Ok(k as u64);
        }
        let val = self.eval(st, e);
        let c = self.p.c(val, self.p.w(e));
        let eq = self.p.eq(e, c);
        let ne = self.p.not(eq);
        if let Some(&k) = st.known.get(&eq) {
            if k == 1 {
                return Ok(val as u64);
            }
        }
        if let Some(m) = self.query(st, ne)? {
            let mut o = st.clone();
            self.assume(&mut o, ne);
            self.set_model(&mut o, m);
            self.work.push(o);
            self.forks += 1;
            self.assume(st, eq);
        }
        Rc::make_mut(&mut st.known).insert(e, val);
        Ok(val as u64)
    }

    // ---- memory -------------------------------------------------------------
    fn find<'a>(&'a self, st: &'a State, a: u64) -> Option<(u64, &'a Rc<Obj>)> {
        let v: &Vec<(u64, Rc<Obj>)> = if a >= STACK_BASE {
            &st.stack
        } else if a >= HEAP_BASE {
            &st.heap
        } else if a >= GL_BASE {
            let i = self.globals.partition_point(|x| x.0 <= a);
            if i == 0 {
                return None;
            }
            let (b, o) = &self.globals[i - 1];
            if a - b > o.size {
                return None;
            }
            return Some((*b, st.gmods.get(b).unwrap_or(o)));
        } else {
            return None;
        };
        let i = v.partition_point(|x| x.0 <= a);
        if i == 0 {
            return None;
        }
        let (b, o) = &v[i - 1];
        if a - b > o.size {
            return None;
        }
        Some((*b, o))
    }
    fn bad_access(a: u64, n: u64, what: &str) -> Stop {
        let region = if a >= STACK_BASE {
            "stack"
        } else if a >= HEAP_BASE {
            "heap"
        } else if a >= GL_BASE {
            "global"
        } else {
            "unmapped"
        };
        Stop::Viol("memory", format!("out-of-bounds or dangling {what} of {n} bytes ({region})"))
    }
    fn obj(&self, st: &State, a: u64, n: u64, what: &str) -> R<(u64, Rc<Obj>)> {
        match self.find(st, a) {
            Some((b, o)) if a - b + n <= o.size => Ok((b, o.clone())),
            _ => Err(Self::bad_access(a, n, what)),
        }
    }
    fn read_byte(&mut self, o: &Obj, i: usize) -> V {
        if !o.sym.is_empty() && o.sym[i] != 0 {
            self.v(o.sym[i])
        } else {
            V::C(8, o.bytes[i] as u128)
        }
    }
    fn read_int(&mut self, o: &Obj, off: usize, w: u8) -> V {
        let n = (w as usize + 7) / 8;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&x| x == 0) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.bytes[off..off + n]);
            return V::C(w, u128::from_le_bytes(b) & mask(w));
        }
        let mut r: Option<V> = None;
        for i in 0..n {
            let b = self.read_byte(o, off + i);
            r = Some(match r {
                None => b,
                Some(l) => self.vcat(&b, &l),
            });
        }
        let r = r.unwrap();
        if (w as usize) < n * 8 {
            self.vext(&r, 0, w)
        } else {
            r
        }
    }
    fn load_at(&mut self, o: &Obj, off: u64, t: &Ty) -> R<V> {
        if let Some(w) = t.bits() {
            return Ok(self.read_int(o, off as usize, w));
        }
        match t {
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let es = t.elems().unwrap();
                let mut v = vec![];
                for (i, e) in es.iter().enumerate() {
                    if let (Ty::Vec(..), Ty::Int(1)) = (t, e) {
                        return Err(Stop::Engine("load of a bit vector".into()));
                    }
                    v.push(self.load_at(o, off + t.field_off(i), e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Int(n) => {
                // wider than 128 bits: not modelled
                Err(Stop::Engine(format!("load of i{n}")))
            }
            _ => Err(Stop::Engine(format!("load of {t:?}"))),
        }
    }
    fn load(&mut self, st: &mut State, p: &V, t: &Ty) -> R<V> {
        // a number occupies its store size, which may be less than its stride
        let n = t.bits().map_or(t.size(), |w| (w as u64 + 7) / 8);
        if let V::S(e) = p {
            if !st.known.contains_key(e) {
                if let Some(r) = self.load_sym(st, *e, t, n)? {
                    return Ok(r);
                }
            }
        }
        let a = self.conc(st, p)?;
        let (b, o) = self.obj(st, a, n, "read")?;
        self.load_at(&o, a - b, t)
    }
    /// Load through a symbolic address that stays inside one object: an ite over
    /// the possible offsets.
    fn load_sym(&mut self, st: &mut State, e: E, t: &Ty, n: u64) -> R<Option<V>> {
        if t.bits().is_none() {
            return Ok(None);
        }
        let a = self.eval(st, e) as u64;
        let Some((b, o)) = self.find(st, a) else { return Ok(None) };
        let o = o.clone();
        if o.size < n || a - b + n > o.size || o.size > 300 {
            return Ok(None);
        }
        let lo = self.p.c(b as u128, 64);
        let off = self.p.bin(Bin::Sub, e, lo);
        let lim = self.p.c((o.size - n + 1) as u128, 64);
        let inb = self.p.cmp(Pred::Ult, off, lim);
        let iv = self.v(inb);
        if !self.decide(st, &iv)? {
            return Ok(None);
        }
        let node = self.p.n[off as usize];
        let mut r: Option<V> = None;
        for k in (0..=(o.size - n)).rev() {
            let kk = k as u128;
            if kk & node.kz != 0 || !kk & node.ko != 0 {
                continue;
            }
            let x = self.load_at(&o, k, t)?;
            r = Some(match r {
                None => x,
                Some(y) => {
                    let c = self.p.c(kk, 64);
                    let q = self.p.eq(off, c);
                    let qv = self.v(q);
                    self.vsel(&qv, &x, &y)?
                }
            });
        }
        Ok(r)
    }
    fn obj_mut<'a>(&self, st: &'a mut State, a: u64, n: u64) -> R<(u64, &'a mut Obj)> {
        if a >= GL_BASE && a < HEAP_BASE {
            let (b, o) = self.obj(st, a, n, "write")?;
            if o.ro {
                return Err(Stop::Viol("memory", "write to constant memory".into()));
            }
            let g = Rc::make_mut(&mut st.gmods);
            let e = g.entry(b).or_insert(o);
            return Ok((b, Rc::make_mut(e)));
        }
        let v = if a >= STACK_BASE {
            &mut st.stack
        } else if a >= HEAP_BASE {
            &mut st.heap
        } else {
            return Err(Self::bad_access(a, n, "write"));
        };
        let i = v.partition_point(|x| x.0 <= a);
        if i == 0 {
            return Err(Self::bad_access(a, n, "write"));
        }
        let (b, o) = &mut v[i - 1];
        if a - *b + n > o.size {
            return Err(Self::bad_access(a, n, "write"));
        }
        Ok((*b, Rc::make_mut(o)))
    }
    fn put_byte(o: &mut Obj, i: usize, v: &V) {
        match v {
            V::C(_, c) => {
                o.bytes[i] = *c as u8;
                if !o.sym.is_empty() {
                    o.sym[i] = 0;
                }
            }
            V::S(e) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.size as usize];
                }
                o.sym[i] = *e;
            }
            V::A(_) => unreachable!(),
        }
    }
    fn store_at(&mut self, st: &mut State, a: u64, t: &Ty, v: &V) -> R<()> {
        if let Some(w) = t.bits() {
            let n = (w as usize + 7) / 8;
            match v {
                V::C(_, x) => {
                    let (b, o) = self.obj_mut(st, a, n as u64)?;
                    let off = (a - b) as usize;
                    o.bytes[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                    if !o.sym.is_empty() {
                        o.sym[off..off + n].fill(0);
                    }
                }
                V::S(_) => {
                    let full = if w as usize == n * 8 { v.clone() } else { self.vzext(v, (n * 8) as u8) };
                    let parts: Vec<V> = (0..n).map(|i| self.vext(&full, (i * 8) as u8, 8)).collect();
                    let (b, o) = self.obj_mut(st, a, n as u64)?;
                    let off = (a - b) as usize;
                    for (i, x) in parts.iter().enumerate() {
                        Self::put_byte(o, off + i, x);
                    }
                }
                V::A(_) => return Err(Stop::Engine("store shape".into())),
            }
            return Ok(());
        }
        match (t.elems(), v) {
            (Some(es), V::A(vs)) => {
                for (i, (e, x)) in es.iter().zip(vs.iter()).enumerate() {
                    if let (Ty::Vec(..), Ty::Int(1)) = (t, e) {
                        return Err(Stop::Engine("store of a bit vector".into()));
                    }
                    self.store_at(st, a + t.field_off(i), e, x)?;
                }
                Ok(())
            }
            _ => Err(Stop::Engine(format!("store of {t:?}"))),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sb, so) = self.obj(st, s, n, "read")?;
        let so2 = so.clone();
        drop(so);
        let (db, dob) = self.obj_mut(st, d, n)?;
        let (so_, d_, n_) = ((s - sb) as usize, (d - db) as usize, n as usize);
        dob.bytes[d_..d_ + n_].copy_from_slice(&so2.bytes[so_..so_ + n_]);
        if so2.sym.is_empty() {
            if !dob.sym.is_empty() {
                dob.sym[d_..d_ + n_].fill(0);
            }
        } else {
            if dob.sym.is_empty() {
                dob.sym = vec![0; dob.size as usize];
            }
            dob.sym[d_..d_ + n_].copy_from_slice(&so2.sym[so_..so_ + n_]);
        }
        Ok(())
    }
    fn alloc_stack(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (st.next_stack + al - 1) / al * al;
        st.next_stack = a + size + 32;
        st.stack.push((a, Rc::new(Obj::new(size, FILL))));
        a
    }
    fn malloc(&mut self, st: &mut State, size: &V, align: u64, fill: u8) -> R<u64> {
        let lim = self.lim.alloc;
        let lv = V::C(self.wid(size), lim as u128);
        let big = self.vcmp(Pred::Ugt, size, &lv)?;
        if self.decide(st, &big)? {
            return Err(Stop::Viol("alloc", format!("allocation request above {lim} bytes")));
        }
        let n = self.conc(st, size)?;
        let al = align.max(16);
        let a = (st.next_heap + al - 1) / al * al;
        st.next_heap = a + n + 64;
        st.heap.push((a, Rc::new(Obj::new(n, fill))));
        Ok(a)
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<Rc<Obj>> {
        match st.heap.binary_search_by_key(&a, |x| x.0) {
            Ok(i) => Ok(st.heap.remove(i).1),
            Err(_) => Err(Stop::Viol("memory", "free of a pointer that is not a live allocation".into())),
        }
    }

    // ---- running ------------------------------------------------------------
    fn op(&self, f: &Frame, o: &Op) -> V {
        match o {
            Op::R(r) => f.regs[*r as usize].clone(),
            Op::V(i) => f.f.consts[*i as usize].clone(),
            Op::K(_) => unreachable!(),
        }
    }
    fn set(&self, st: &mut State, r: u32, v: V) {
        Rc::make_mut(st.frames.last_mut().unwrap()).regs[r as usize] = v;
    }
    fn goto(&mut self, st: &mut State, bb: u32) -> R<()> {
        let fr = st.frames.last().unwrap().clone();
        fr.f.cov.borrow_mut()[bb as usize] = true;
        let from = fr.bb;
        // phis read their operands simultaneously
        let mut up = vec![];
        let mut ip = 0;
        for i in &fr.f.f.blocks[bb as usize] {
            if let I::Phi(d, v) = i {
                let o = v
                    .iter()
                    .find(|x| x.1 == from)
                    .ok_or_else(|| Stop::Engine("phi without the incoming edge".into()))?;
                up.push((*d, self.op(&fr, &o.0)));
                ip += 1;
            } else {
                break;
            }
        }
        drop(fr);
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        for (d, v) in up {
            f.regs[d as usize] = v;
        }
        f.prev = from;
        f.bb = bb;
        f.ip = ip;
        Ok(())
    }
    fn push_frame(&mut self, st: &mut State, n: &str, args: Vec<V>, dst: Option<u32>, normal: Option<u32>) -> R<()> {
        if st.frames.len() > 400 {
            return Err(Stop::Viol("recursion", "call depth above 400".into()));
        }
        let f = self.get_func(n)?;
        if f.f.variadic {
            return Err(Stop::Engine(format!("variadic {n}")));
        }
        let mut regs = vec![V::C(1, 0); f.f.nregs as usize];
        for (p, a) in f.f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        f.cov.borrow_mut()[0] = true;
        st.frames.push(Rc::new(Frame {
            f,
            regs,
            bb: 0,
            ip: 0,
            prev: 0,
            mark: st.stack.len(),
            dst,
            normal,
        }));
        Ok(())
    }
    pub fn run(&mut self, entry: &str) {
        let mut st = State {
            frames: vec![],
            stack: vec![],
            heap: vec![],
            gmods: Rc::new(BTreeMap::new()),
            next_stack: STACK_BASE,
            next_heap: HEAP_BASE,
            pc: vec![],
            model: Rc::new(vec![]),
            model_id: 0,
            known: Rc::new(FxMap::default()),
            inputs: vec![],
            nvars: 0,
            obs: vec![],
            steps: 0,
            allow: 0,
        };
        if let Err(Stop::Engine(e)) = self.push_frame(&mut st, entry, vec![], None, None) {
            self.engine_err = Some(e);
            return;
        }
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.timed_out() {
                self.incomplete = Some(format!("time limit; {} paths pending", self.work.len() + 1));
                return;
            }
            let r = self.run_path(&mut st);
            match r {
                Stop::Done => {
                    self.paths += 1;
                    self.sample(&st);
                }
                Stop::Infeasible => self.infeasible += 1,
                Stop::Viol(k, w) => {
                    self.paths += 1;
                    let st2 = st;
                    self.violation(&st2, k, w, None);
                    if self.viols.len() >= self.lim.max_viol {
                        self.incomplete = Some("stopped after the violation limit".into());
                        return;
                    }
                }
                Stop::Engine(e) => {
                    if e == "time limit" {
                        self.incomplete = Some(format!("time limit; {} paths pending", self.work.len() + 1));
                        return;
                    }
                    let stack = self.backtrace(&st);
                    self.engine_err = Some(format!("{e} in {}", stack.join(" < ")));
                    return;
                }
            }
            if self.viols.len() >= self.lim.max_viol {
                self.incomplete = Some("stopped after the violation limit".into());
                return;
            }
        }
    }
    fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .take(12)
            .map(|f| {
                let k = f.f.f.dbg[f.bb as usize].get(f.ip as usize).copied().unwrap_or(0);
                let l = self.m.locs(k);
                let l: Vec<String> = l.iter().take(4).map(|(f, n)| format!("{f}:{n}")).collect();
                format!("{} [{}]", f.f.f.name, l.join(", "))
            })
            .collect()
    }
    fn input_bytes(&self, st: &State, model: &[u8]) -> (Vec<u8>, String) {
        let mut v = vec![];
        let mut l = String::new();
        for i in &st.inputs {
            match i {
                In::Bytes(first, n, tag) => {
                    let s = v.len();
                    for k in 0..*n {
                        v.push(*model.get((first + k) as usize).unwrap_or(&0));
                    }
                    let h: String = v[s..].iter().map(|b| format!("{b:02x}")).collect();
                    l.push_str(&format!("bytes#{tag}={h} "));
                }
                In::Pick(x) => {
                    v.extend_from_slice(&x.to_le_bytes());
                    l.push_str(&format!("pick={x} "));
                }
            }
        }
        (v, l)
    }
    fn violation(&mut self, st: &State, kind: &str, what: String, model: Option<&[u8]>) {
        let stack = self.backtrace(st);
        let site = stack.first().cloned().unwrap_or_default();
        let key = format!("{kind}|{what}|{}", if kind == "check" { "" } else { &site });
        if !self.viol_keys.insert(key) {
            return;
        }
        let m: Vec<u8> = model.map(|m| m.to_vec()).unwrap_or_else(|| st.model.to_vec());
        let (inputs, layout) = self.input_bytes(st, &m);
        self.viols.push(Violation { kind: kind.into(), what, inputs, layout, stack });
        // the verdict is known: only look a little further
        self.lim.seconds = self.lim.seconds.min(self.t0.elapsed().as_secs_f64() + self.lim.after);
    }
    fn sample(&mut self, st: &State) {
        let k = self.lim.samples;
        if k == 0 {
            return;
        }
        let slot = if self.samples.len() < k {
            self.samples.len()
        } else {
            let r = self.rand() % self.paths;
            if r >= k as u64 {
                return;
            }
            r as usize
        };
        let (inputs, _) = self.input_bytes(st, &st.model.clone());
        let mut obs = vec![];
        for (t, v) in &st.obs {
            let x = match v {
                V::C(_, c) => *c,
                V::S(e) => self.eval(st, *e),
                V::A(_) => 0,
            };
            obs.push((*t, x));
        }
        let s = Sample { inputs, obs };
        if slot == self.samples.len() {
            self.samples.push(s);
        } else {
            self.samples[slot] = s;
        }
    }
    fn run_path(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xfff == 0 && self.timed_out() {
                return Stop::Engine("time limit".into());
            }
            st.steps += 1;
            self.steps += 1;
            if st.steps > self.lim.steps {
                return Stop::Viol("nonterm", format!("more than {} instructions on one path", self.lim.steps));
            }
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }
    #[inline]
    fn step(&mut self, st: &mut State) -> R<()> {
        let fr: *const Frame = &**st.frames.last().unwrap();
        // SAFETY: `fr` is only read before the state is changed in each arm; the
        // function body it refers to is kept alive by the Rc clone below.
        let fr = unsafe { &*fr };
        let cf = fr.f.clone();
        let ins = &cf.f.blocks[fr.bb as usize][fr.ip as usize];
        macro_rules! op {
            ($o:expr) => {
                self.op(st.frames.last().unwrap(), $o)
            };
        }
        macro_rules! done {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                f.regs[$d as usize] = v;
                f.ip += 1;
            }};
        }
        match ins {
            I::Bin(d, b, x, y) => {
                let (x, y) = (op!(x), op!(y));
                if matches!(b, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
                    if let V::S(e) = &y {
                        let z = self.p.c(0, self.p.w(*e));
                        let c = self.p.eq(*e, z);
                        let cv = self.v(c);
                        if self.decide(st, &cv)? {
                            return Err(Stop::Viol("ub", "division by zero".into()));
                        }
                    }
                }
                let r = self.vbin(*b, &x, &y)?;
                done!(*d, r)
            }
            I::Cmp(d, p, x, y) => {
                let (x, y) = (op!(x), op!(y));
                let r = self.vcmp(*p, &x, &y)?;
                done!(*d, r)
            }
            I::Load(d, t, p) => {
                let p = op!(p);
                let r = self.load(st, &p, t)?;
                done!(*d, r)
            }
            I::Store(t, v, p) => {
                let (v, p) = (op!(v), op!(p));
                let a = self.conc(st, &p)?;
                self.store_at(st, a, t, &v)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            }
            I::Gep(d, b, off, idx) => {
                let b = op!(b);
                let r = if idx.is_empty() {
                    if let V::C(_, x) = b {
                        c64((x as u64).wrapping_add(*off as u64))
                    } else {
                        self.vbin(Bin::Add, &b, &c64(*off as u64))?
                    }
                } else {
                    let mut r = self.vbin(Bin::Add, &b, &c64(*off as u64))?;
                    for (sc, i) in idx {
                        let i = op!(i);
                        let w = self.wid(&i);
                        let i = if w < 64 { self.vsext(&i, 64) } else if w > 64 { self.vext(&i, 0, 64) } else { i };
                        let x = self.vbin(Bin::Mul, &i, &c64(*sc as u64))?;
                        r = self.vbin(Bin::Add, &r, &x)?;
                    }
                    r
                };
                done!(*d, r)
            }
            I::Zext(d, a, t) => {
                let a = op!(a);
                let w = Self::elem_ty(t).bits().ok_or_else(|| Stop::Engine("zext".into()))?;
                let r = self.lanes(&a, &mut |s, v| Ok(s.vzext(v, w)))?;
                done!(*d, r)
            }
            I::Sext(d, a, t) => {
                let a = op!(a);
                let w = Self::elem_ty(t).bits().ok_or_else(|| Stop::Engine("sext".into()))?;
                let r = self.lanes(&a, &mut |s, v| Ok(s.vsext(v, w)))?;
                done!(*d, r)
            }
            I::Trunc(d, a, t) => {
                let a = op!(a);
                let w = Self::elem_ty(t).bits().ok_or_else(|| Stop::Engine("trunc".into()))?;
                let r = self.lanes(&a, &mut |s, v| Ok(s.vext(v, 0, w)))?;
                done!(*d, r)
            }
            I::Copy(d, a) => {
                let a = op!(a);
                done!(*d, a)
            }
            I::Bitcast(d, a, t1, t2) => {
                let a = op!(a);
                let r = self.bitcast(&a, t1, t2)?;
                done!(*d, r)
            }
            I::Select(d, c, a, b) => {
                let (c, a, b) = (op!(c), op!(a), op!(b));
                let r = self.vsel(&c, &a, &b)?;
                done!(*d, r)
            }
            I::Br(b) => self.goto(st, *b)?,
            I::CondBr(c, a, b) => {
                let c = op!(c);
                let t = self.decide(st, &c)?;
                self.goto(st, if t { *a } else { *b })?
            }
            I::Switch(v, def, cs) => {
                let v = op!(v);
                match v {
                    V::C(_, x) => {
                        let t = cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def);
                        self.goto(st, t)?
                    }
                    V::S(e) => {
                        let val = match st.known.get(&e) {
                            Some(&k) => k,
                            None => self.eval(st, e),
                        };
                        let t = cs.iter().find(|c| c.0 == val).map(|c| c.1).unwrap_or(*def);
                        // condition for leaving towards block t
                        let w = self.p.w(e);
                        let mut hit = self.p.c(0, 1);
                        let mut nodef = self.p.c(0, 1);
                        for (c, b) in cs {
                            let cc = self.p.c(*c, w);
                            let q = self.p.eq(e, cc);
                            if *b == t {
                                hit = self.p.bin(Bin::Or, hit, q);
                            }
                            nodef = self.p.bin(Bin::Or, nodef, q);
                        }
                        if t == *def {
                            let d = self.p.not(nodef);
                            hit = self.p.bin(Bin::Or, hit, d);
                        }
                        let hv = self.v(hit);
                        if !self.decide(st, &hv)? {
                            return Err(Stop::Engine("switch model".into()));
                        }
                        self.goto(st, t)?
                    }
                    V::A(_) => return Err(Stop::Engine("switch".into())),
                }
            }
            I::Ret(v) => {
                let v = match v {
                    Some(o) => Some(op!(o)),
                    None => None,
                };
                let f = st.frames.pop().unwrap();
                st.stack.truncate(f.mark);
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let c = Rc::make_mut(st.frames.last_mut().unwrap());
                if let (Some(d), Some(v)) = (f.dst, v) {
                    c.regs[d as usize] = v;
                }
                match f.normal {
                    Some(b) => self.goto(st, b)?,
                    None => c.ip += 1,
                }
            }
            I::Unreachable => return Err(Stop::Viol("ub", "reached unreachable code".into())),
            I::Alloca(d, size, al, n) => {
                let k = match n {
                    Some(o) => {
                        let o = op!(o);
                        self.conc(st, &o)?
                    }
                    None => 1,
                };
                let a = self.alloc_stack(st, size * k, *al);
                done!(*d, c64(a))
            }
            I::Extract(d, a, ix) => {
                let mut v = op!(a);
                for i in ix {
                    v = match &v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Engine("extractvalue".into())),
                    };
                }
                done!(*d, v)
            }
            I::Insert(d, a, b, ix) => {
                let (a, b) = (op!(a), op!(b));
                let r = Self::insert(&a, &b, ix)?;
                done!(*d, r)
            }
            I::ExtElem(d, a, i) => {
                let (a, i) = (op!(a), op!(i));
                let i = self.conc(st, &i)?;
                let r = match a {
                    V::A(x) => x[i as usize].clone(),
                    _ => return Err(Stop::Engine("extractelement".into())),
                };
                done!(*d, r)
            }
            I::InsElem(d, a, b, i) => {
                let (a, b, i) = (op!(a), op!(b), op!(i));
                let i = self.conc(st, &i)?;
                let r = Self::insert(&a, &b, &[i as u32])?;
                done!(*d, r)
            }
            I::Shuffle(d, a, b, m) => {
                let (a, b, m) = (op!(a), op!(b), op!(m));
                let r = match (&a, &b, &m) {
                    (V::A(x), V::A(y), V::A(m)) => {
                        let mut r = vec![];
                        for i in m.iter() {
                            let k = match i {
                                V::C(_, k) => *k as usize,
                                _ => return Err(Stop::Engine("shuffle mask".into())),
                            };
                            r.push(if k < x.len() { x[k].clone() } else { y[k - x.len()].clone() });
                        }
                        V::A(Rc::new(r))
                    }
                    _ => return Err(Stop::Engine("shufflevector".into())),
                };
                done!(*d, r)
            }
            I::Rmw(d, o, p, v, t) => {
                let (p, v) = (op!(p), op!(v));
                let a = self.conc(st, &p)?;
                let old = self.load(st, &c64(a), t)?;
                let new = match o.as_str() {
                    "xchg" => v,
                    "add" => self.vbin(Bin::Add, &old, &v)?,
                    "sub" => self.vbin(Bin::Sub, &old, &v)?,
                    "and" => self.vbin(Bin::And, &old, &v)?,
                    "or" => self.vbin(Bin::Or, &old, &v)?,
                    "xor" => self.vbin(Bin::Xor, &old, &v)?,
                    o => return Err(Stop::Engine(format!("atomicrmw {o}"))),
                };
                self.store_at(st, a, t, &new)?;
                done!(*d, old)
            }
            I::CmpXchg(d, p, x, y, t) => {
                let (p, x, y) = (op!(p), op!(x), op!(y));
                let a = self.conc(st, &p)?;
                let old = self.load(st, &c64(a), t)?;
                let c = self.vcmp(Pred::Eq, &old, &x)?;
                let new = self.vsel(&c, &y, &old)?;
                self.store_at(st, a, t, &new)?;
                done!(*d, V::A(Rc::new(vec![old, c])))
            }
            I::Call(dst, callee, args, rt, normal) => {
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    av.push(op!(a));
                }
                let name: Rc<str> = match callee {
                    Callee::Direct(n) => n.clone(),
                    Callee::Indirect(o) => {
                        let p = op!(o);
                        let a = self.conc(st, &p)?;
                        let i = a.wrapping_sub(FN_BASE) / 16;
                        match self.fn_names.get(i as usize) {
                            Some(n) if a >= FN_BASE => n.clone(),
                            _ => return Err(Stop::Viol("memory", "call through an invalid function pointer".into())),
                        }
                    }
                    Callee::Asm => return Err(Stop::Engine("inline asm".into())),
                };
                match self.builtin(st, &name, &av, rt)? {
                    Some(r) => {
                        if let (Some(d), Some(v)) = (dst, r) {
                            self.set(st, *d, v);
                        }
                        match normal {
                            Some(b) => self.goto(st, *b)?,
                            None => Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1,
                        }
                    }
                    None => {
                        if !self.m.has_func(&name) {
                            return Err(Stop::Engine(format!("call to the undefined function {name}")));
                        }
                        self.push_frame(st, &name, av, *dst, *normal)?;
                    }
                }
            }
            I::Phi(..) => return Err(Stop::Engine("phi out of place".into())),
            I::Nop => Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1,
            I::Bad(e) => return Err(Stop::Engine(e.clone())),
        }
        Ok(())
    }
    fn insert(a: &V, b: &V, ix: &[u32]) -> R<V> {
        if ix.is_empty() {
            return Ok(b.clone());
        }
        match a {
            V::A(x) => {
                let mut n = (**x).clone();
                let i = ix[0] as usize;
                n[i] = Self::insert(&n[i], b, &ix[1..])?;
                Ok(V::A(Rc::new(n)))
            }
            _ => Err(Stop::Engine("insertvalue".into())),
        }
    }
    fn vsext(&mut self, a: &V, w: u8) -> V {
        match a {
            V::C(o, x) => V::C(w, sext(*x, *o) as u128 & mask(w)),
            _ => {
                let x = self.e(a);
                let r = self.p.sext(x, w);
                self.v(r)
            }
        }
    }
    fn bitcast(&mut self, a: &V, _t1: &Ty, t2: &Ty) -> R<V> {
        // flatten to one integer, then split
        let flat = match a {
            V::A(x) => {
                let x = x.clone();
                let tot: u32 = x.iter().map(|v| self.wid(v) as u32).sum();
                if tot > 128 {
                    return Err(Stop::Engine("wide bitcast".into()));
                }
                let mut r: Option<V> = None;
                for v in x.iter() {
                    r = Some(match r {
                        None => v.clone(),
                        Some(l) => self.vcat(v, &l),
                    });
                }
                r.unwrap()
            }
            _ => a.clone(),
        };
        match t2 {
            Ty::Vec(n, e) => {
                let w = e.bits().ok_or_else(|| Stop::Engine("bitcast".into()))?;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.vext(&flat, i as u8 * w, w));
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Ok(flat),
        }
    }
    fn panic_loc(&mut self, st: &State, args: &[V]) -> String {
        // the last pointer argument of the panic entry points is a &Location
        for a in args.iter().rev() {
            if let V::C(64, p) = a {
                let p = *p as u64;
                if let Some((b, o)) = self.find(st, p) {
                    if p - b + 24 <= o.size && o.sym.is_empty() {
                        let o = o.clone();
                        let rd = |off: u64, n: usize| {
                            let mut x = [0u8; 8];
                            let s = (p - b + off) as usize;
                            x[..n].copy_from_slice(&o.bytes[s..s + n]);
                            u64::from_le_bytes(x)
                        };
                        let (fp, fl, line) = (rd(0, 8), rd(8, 8), rd(16, 4));
                        if fl < 400 {
                            if let Some((fb, fo)) = self.find(st, fp) {
                                let s = (fp - fb) as usize;
                                if s + fl as usize <= fo.bytes.len() {
                                    let f = String::from_utf8_lossy(&fo.bytes[s..s + fl as usize]);
                                    if f.contains(".rs") {
                                        return format!("{f}:{line}");
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        "?".into()
    }
    fn is_panic(n: &str) -> bool {
        n.contains("4core9panicking")
            || n.contains("18handle_alloc_error")
            || n.contains("17capacity_overflow")
            || n.contains("7raw_vec12handle_error")
            || n.contains("13unwrap_failed")
            || n.contains("13expect_failed")
            || n.contains("16slice_index_fail")
            || n.contains("16slice_error_fail")
            || n.contains("11begin_panic")
            || n.contains("18len_mismatch_fail")
            || n == "rust_begin_unwind"
            || n == "abort"
            || n == "llvm.trap"
            || n == "llvm.ubsantrap"
    }
    fn short(n: &str) -> String {
        // readable tail of a v0-mangled name
        let mut v = vec![];
        let b = n.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_digit() {
                let s = i;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                if let Ok(k) = n[s..i].parse::<usize>() {
                    let mut j = i;
                    if j < b.len() && b[j] == b'_' {
                        j += 1;
                    }
                    if k > 1 && j + k <= b.len() && b[j].is_ascii_alphabetic() {
                        v.push(n[j..j + k].to_string());
                        i = j + k;
                        continue;
                    }
                }
            } else {
                i += 1;
            }
        }
        if v.is_empty() {
            n.to_string()
        } else {
            v.join("::")
        }
    }

    fn stub(&mut self, n: &str) {
        *self.stub_hits.entry(n.to_string()).or_insert(0) += 1;
    }
    pub fn stubs(&self) -> &BTreeMap<String, u64> {
        &self.stub_hits
    }

    /// Harness interface, libc and LLVM intrinsics.  `None`: not a builtin.
    fn builtin(&mut self, st: &mut State, n: &str, a: &[V], rt: &Ty) -> R<Option<Option<V>>> {
        if n.starts_with("symx_") {
            return self.harness_fn(st, n, a).map(Some);
        }
        if let Some(rest) = n.strip_prefix("llvm.") {
            return self.intrinsic(st, rest, a, rt).map(Some);
        }
        if Self::is_panic(n) {
            let loc = self.panic_loc(st, a);
            return Err(Stop::Viol("panic", format!("{} at {loc}", Self::short(n))));
        }
        if n.ends_with("4core3fmt5write") {
            // formatting is not the subject: text is left empty
            self.stub("core::fmt::write -> Ok(())");
            return Ok(Some(Some(V::C(1, 0))));
        }
        let r = match n {
            "malloc" => {
                let x = self.malloc(st, &a[0], 16, FILL)?;
                Some(c64(x))
            }
            "calloc" => {
                let k = self.vbin(Bin::Mul, &a[0], &a[1])?;
                let x = self.malloc(st, &k, 16, 0)?;
                Some(c64(x))
            }
            "posix_memalign" => {
                let p = self.conc(st, &a[0])?;
                let al = self.conc(st, &a[1])?;
                let x = self.malloc(st, &a[2], al, FILL)?;
                self.store_at(st, p, &Ty::Ptr, &c64(x))?;
                Some(V::C(32, 0))
            }
            "aligned_alloc" => {
                let al = self.conc(st, &a[0])?;
                let x = self.malloc(st, &a[1], al, FILL)?;
                Some(c64(x))
            }
            "realloc" => {
                let p = self.conc(st, &a[0])?;
                let x = self.malloc(st, &a[1], 16, FILL)?;
                if p != 0 {
                    let ns = self.obj(st, x, 0, "read")?.1.size;
                    let os = match st.heap.binary_search_by_key(&p, |x| x.0) {
                        Ok(i) => st.heap[i].1.size,
                        Err(_) => return Err(Stop::Viol("memory", "realloc of a dead pointer".into())),
                    };
                    self.copy(st, x, p, ns.min(os))?;
                    self.free(st, p)?;
                }
                Some(c64(x))
            }
            "free" => {
                let p = self.conc(st, &a[0])?;
                if p != 0 {
                    self.free(st, p)?;
                }
                None
            }
            "memcpy" | "memmove" => {
                let (d, s, k) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                self.copy(st, d, s, k)?;
                Some(c64(d))
            }
            "memset" => {
                let (d, k) = (self.conc(st, &a[0])?, self.conc(st, &a[2])?);
                let b = self.vext(&a[1], 0, 8);
                self.memset(st, d, &b, k)?;
                Some(c64(d))
            }
            "bcmp" | "memcmp" => {
                let (x, y, k) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                if k == 0 {
                    return Ok(Some(Some(V::C(32, 0))));
                }
                let (xb, xo) = self.obj(st, x, k, "read")?;
                let (yb, yo) = self.obj(st, y, k, "read")?;
                let mut r = V::C(32, 0);
                for i in (0..k).rev() {
                    let p = self.read_byte(&xo, (x - xb + i) as usize);
                    let q = self.read_byte(&yo, (y - yb + i) as usize);
                    let eq = self.vcmp(Pred::Eq, &p, &q)?;
                    let lt = self.vcmp(Pred::Ult, &p, &q)?;
                    let ne = self.vsel(&lt, &V::C(32, mask(32)), &V::C(32, 1))?;
                    let ne = if n == "bcmp" { V::C(32, 1) } else { ne };
                    r = self.vsel(&eq, &r, &ne)?;
                }
                Some(r)
            }
            "strlen" => {
                let p = self.conc(st, &a[0])?;
                let mut k = 0;
                loop {
                    let (b, o) = self.obj(st, p + k, 1, "read")?;
                    let x = self.read_byte(&o, (p + k - b) as usize);
                    let z = self.vcmp(Pred::Eq, &x, &V::C(8, 0))?;
                    if self.decide(st, &z)? {
                        break;
                    }
                    k += 1;
                }
                Some(c64(k))
            }
            "getenv" => Some(c64(0)),
            _ => return Ok(None),
        };
        Ok(Some(r))
    }
    fn memset(&mut self, st: &mut State, d: u64, b: &V, k: u64) -> R<()> {
        if k == 0 {
            return Ok(());
        }
        let (base, o) = self.obj_mut(st, d, k)?;
        let off = (d - base) as usize;
        for i in 0..k as usize {
            Self::put_byte(o, off + i, b);
        }
        Ok(())
    }
    fn harness_fn(&mut self, st: &mut State, n: &str, a: &[V]) -> R<Option<V>> {
        match n {
            "symx_bytes" => {
                let (p, k, tag) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let first = st.nvars;
                st.nvars += k as u32;
                let vs: Vec<E> = (0..k as u32).map(|i| self.p.var_at(first + i)).collect();
                if k > 0 {
                    let (b, o) = self.obj_mut(st, p, k)?;
                    for (i, e) in vs.iter().enumerate() {
                        Self::put_byte(o, (p - b) as usize + i, &V::S(*e));
                    }
                }
                st.inputs.push(In::Bytes(first, k as u32, tag as u32));
                Ok(None)
            }
            "symx_pick" => {
                let (lo, hi) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let fr = st.frames.last().unwrap();
                let (dst, normal) = match &fr.f.f.blocks[fr.bb as usize][fr.ip as usize] {
                    I::Call(d, _, _, _, nb) => (*d, *nb),
                    _ => unreachable!(),
                };
                if normal.is_some() {
                    return Err(Stop::Engine("symx_pick through invoke".into()));
                }
                for v in (lo + 1..=hi).rev() {
                    let mut o = st.clone();
                    o.inputs.push(In::Pick(v));
                    let f = Rc::make_mut(o.frames.last_mut().unwrap());
                    if let Some(d) = dst {
                        f.regs[d as usize] = c64(v);
                    }
                    f.ip += 1;
                    self.work.push(o);
                    self.forks += 1;
                }
                st.inputs.push(In::Pick(lo));
                Ok(Some(c64(lo)))
            }
            "symx_assume" => {
                match &a[0] {
                    V::C(_, 1) => {}
                    V::C(..) => return Err(Stop::Infeasible),
                    V::S(e) => {
                        let e = *e;
                        if self.eval(st, e) != 1 {
                            match self.query(st, e)? {
                                Some(m) => self.set_model(st, m),
                                None => return Err(Stop::Infeasible),
                            }
                        }
                        self.assume(st, e);
                    }
                    _ => return Err(Stop::Engine("assume".into())),
                }
                Ok(None)
            }
            "symx_check" => {
                let id = self.conc(st, &a[1])? as u32;
                self.check_ids.insert(id);
                self.checks += 1;
                match &a[0] {
                    V::C(_, 1) => self.checks_trivial += 1,
                    V::C(..) => return Err(Stop::Viol("check", format!("check {id}"))),
                    V::S(e) => {
                        let e = *e;
                        let ne = self.p.not(e);
                        if let Some(m) = self.query(st, ne)? {
                            let s2 = st.clone();
                            self.violation(&s2, "check", format!("check {id}"), Some(&m));
                            // go on with the inputs that satisfy the check
                            if self.eval(st, e) != 1 {
                                match self.query(st, e)? {
                                    Some(m) => self.set_model(st, m),
                                    None => return Err(Stop::Infeasible),
                                }
                            }
                            self.assume(st, e);
                        } else {
                            Rc::make_mut(&mut st.known).insert(e, 1);
                        }
                    }
                    _ => return Err(Stop::Engine("check".into())),
                }
                Ok(None)
            }
            "symx_reach" => {
                let id = self.conc(st, &a[0])? as u32;
                self.reach.insert(id);
                Ok(None)
            }
            "symx_observe" => {
                let id = self.conc(st, &a[0])? as u32;
                st.obs.push((id, a[1].clone()));
                Ok(None)
            }
            "symx_heap" => Ok(Some(c64(st.heap.len() as u64))),
            _ => Err(Stop::Engine(format!("unknown harness function {n}"))),
        }
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[V], rt: &Ty) -> R<Option<V>> {
        let base = n.split('.').next().unwrap();
        let full = n;
        let two = |s: &str| full.starts_with(s);
        let r = match base {
            "memcpy" | "memmove" => {
                let (d, s, k) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                self.copy(st, d, s, k)?;
                return Ok(None);
            }
            "memset" => {
                let (d, k) = (self.conc(st, &a[0])?, self.conc(st, &a[2])?);
                self.memset(st, d, &a[1], k)?;
                return Ok(None);
            }
            "trap" | "ubsantrap" => return Err(Stop::Viol("panic", "trap".into())),
            "assume" | "lifetime" | "dbg" | "experimental" | "prefetch" | "sideeffect" | "donothing" => return Ok(None),
            "expect" | "threadlocal" | "ptrmask" if base != "ptrmask" => a[0].clone(),
            "ptrmask" => self.vbin(Bin::And, &a[0], &a[1])?,
            "is" => V::C(1, 0),
            "objectsize" => V::C(rt.bits().unwrap_or(64), mask(rt.bits().unwrap_or(64))),
            "umin" | "umax" | "smin" | "smax" => {
                let p = match base {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.vcmp(p, &a[0], &a[1])?;
                self.vsel(&c, &a[0], &a[1])?
            }
            "abs" => {
                let w = self.wid(&a[0]);
                let neg = self.vcmp(Pred::Slt, &a[0], &V::C(w, 0))?;
                let m = self.vbin(Bin::Sub, &V::C(w, 0), &a[0])?;
                self.vsel(&neg, &m, &a[0])?
            }
            "ucmp" | "scmp" => {
                let w = rt.bits().unwrap();
                let p = if base == "ucmp" { Pred::Ult } else { Pred::Slt };
                let lt = self.vcmp(p, &a[0], &a[1])?;
                let eq = self.vcmp(Pred::Eq, &a[0], &a[1])?;
                let x = self.vsel(&eq, &V::C(w, 0), &V::C(w, 1))?;
                self.vsel(&lt, &V::C(w, mask(w)), &x)?
            }
            "usub" if two("usub.sat") => {
                let c = self.vcmp(Pred::Ult, &a[0], &a[1])?;
                let d = self.vbin(Bin::Sub, &a[0], &a[1])?;
                let w = self.wid(&a[0]);
                self.vsel(&c, &V::C(w, 0), &d)?
            }
            "uadd" if two("uadd.sat") => {
                let s = self.vbin(Bin::Add, &a[0], &a[1])?;
                let c = self.vcmp(Pred::Ult, &s, &a[0])?;
                let w = self.wid(&a[0]);
                self.vsel(&c, &V::C(w, mask(w)), &s)?
            }
            "uadd" => {
                let s = self.vbin(Bin::Add, &a[0], &a[1])?;
                let c = self.vcmp(Pred::Ult, &s, &a[0])?;
                V::A(Rc::new(vec![s, c]))
            }
            "usub" => {
                let s = self.vbin(Bin::Sub, &a[0], &a[1])?;
                let c = self.vcmp(Pred::Ult, &a[0], &a[1])?;
                V::A(Rc::new(vec![s, c]))
            }
            "umul" | "smul" | "sadd" | "ssub" => {
                let w = self.wid(&a[0]);
                let w2 = if base.ends_with("mul") { w * 2 } else { w + 1 };
                if w2 > 128 {
                    let (x, y) = (&a[0], &a[1]);
                    let top = |e: &mut Self, p: &V, q: &V| {
                        let z = e.vbin(Bin::And, p, q)?;
                        Ok::<V, Stop>(e.vext(&z, w - 1, 1))
                    };
                    let (r, o) = match base {
                        "sadd" | "ssub" => {
                            let r = self.vbin(if base == "sadd" { Bin::Add } else { Bin::Sub }, x, y)?;
                            let xr = self.vbin(Bin::Xor, x, &r)?;
                            let yr = self.vbin(Bin::Xor, y, if base == "sadd" { &r } else { x })?;
                            let o = top(self, &xr, &yr)?;
                            (r, o)
                        }
                        "umul" => {
                            let r = self.vbin(Bin::Mul, x, y)?;
                            let zero = self.vcmp(Pred::Eq, y, &V::C(w, 0))?;
                            let den = self.vsel(&zero, &V::C(w, 1), y)?;
                            let q = self.vbin(Bin::UDiv, &r, &den)?;
                            let ne = self.vcmp(Pred::Ne, &q, x)?;
                            let o = self.vsel(&zero, &V::C(1, 0), &ne)?;
                            (r, o)
                        }
                        _ => return Err(Stop::Engine(format!("wide {n}"))),
                    };
                    if n.contains(".sat") {
                        return Err(Stop::Engine(format!("wide {n}")));
                    }
                    return Ok(Some(V::A(Rc::new(vec![r, o]))));
                }
                let sg = base.starts_with('s');
                let (x, y) = if sg {
                    (self.vsext(&a[0], w2), self.vsext(&a[1], w2))
                } else {
                    (self.vzext(&a[0], w2), self.vzext(&a[1], w2))
                };
                let op = match &base[1..] {
                    "mul" => Bin::Mul,
                    "add" => Bin::Add,
                    _ => Bin::Sub,
                };
                let r = self.vbin(op, &x, &y)?;
                let lo = self.vext(&r, 0, w);
                let back = if sg { self.vsext(&lo, w2) } else { self.vzext(&lo, w2) };
                let o = self.vcmp(Pred::Ne, &r, &back)?;
                if two("sadd.sat") || two("ssub.sat") {
                    let neg = self.vext(&r, w2 - 1, 1);
                    let m = V::C(w, 1u128 << (w - 1));
                    let x = V::C(w, (1u128 << (w - 1)) - 1);
                    let lim = self.vsel(&neg, &m, &x)?;
                    self.vsel(&o, &lim, &lo)?
                } else {
                    V::A(Rc::new(vec![lo, o]))
                }
            }
            "bswap" => {
                let w = self.wid(&a[0]);
                let k = w / 8;
                let mut r = self.vext(&a[0], 0, 8);
                for i in 1..k {
                    let b = self.vext(&a[0], i * 8, 8);
                    r = self.vcat(&r, &b);
                }
                r
            }
            "bitreverse" => {
                let w = self.wid(&a[0]);
                let mut r = self.vext(&a[0], 0, 1);
                for i in 1..w {
                    let b = self.vext(&a[0], i, 1);
                    r = self.vcat(&r, &b);
                }
                r
            }
            "ctpop" => {
                let w = self.wid(&a[0]);
                let mut r = V::C(w, 0);
                for i in 0..w {
                    let b = self.vext(&a[0], i, 1);
                    let b = self.vzext(&b, w);
                    r = self.vbin(Bin::Add, &r, &b)?;
                }
                r
            }
            "ctlz" | "cttz" => {
                let w = self.wid(&a[0]);
                let mut r = V::C(w, w as u128 & mask(w));
                for k in 0..w {
                    let i = if base == "ctlz" { k } else { w - 1 - k };
                    let b = self.vext(&a[0], i, 1);
                    let pos = if base == "ctlz" { w - 1 - i } else { i };
                    r = self.vsel(&b, &V::C(w, pos as u128), &r)?;
                }
                r
            }
            "fshl" | "fshr" => {
                let w = self.wid(&a[0]);
                let sh = self.conc(st, &a[2])? % w as u64;
                let s = sh as u8;
                let cut = if base == "fshl" { s } else { (w - s) % w };
                if s == 0 {
                    if base == "fshl" {
                        a[0].clone()
                    } else {
                        a[1].clone()
                    }
                } else {
                    // high `cut` bits dropped from a[0], filled from a[1]
                    let h = self.vext(&a[0], 0, w - cut);
                    let l = self.vext(&a[1], w - cut, cut);
                    self.vcat(&h, &l)
                }
            }
            "load" if two("load.relative") => {
                let p = self.conc(st, &a[0])?;
                let off = self.conc(st, &a[1])?;
                let v = self.load(st, &c64(p.wrapping_add(off)), &Ty::Int(32))?;
                let v = self.vsext(&v, 64);
                self.vbin(Bin::Add, &c64(p), &v)?
            }
            "vector" => {
                // vector.reduce.<op>
                let op = n.split('.').nth(2).unwrap_or("");
                let x = match &a[a.len() - 1] {
                    V::A(x) => x.clone(),
                    _ => return Err(Stop::Engine(format!("intrinsic {n}"))),
                };
                let mut r = x[0].clone();
                for v in x.iter().skip(1) {
                    r = match op {
                        "add" => self.vbin(Bin::Add, &r, v)?,
                        "and" => self.vbin(Bin::And, &r, v)?,
                        "or" => self.vbin(Bin::Or, &r, v)?,
                        "xor" => self.vbin(Bin::Xor, &r, v)?,
                        "umax" => {
                            let c = self.vcmp(Pred::Ugt, &r, v)?;
                            self.vsel(&c, &r, v)?
                        }
                        "umin" => {
                            let c = self.vcmp(Pred::Ult, &r, v)?;
                            self.vsel(&c, &r, v)?
                        }
                        _ => return Err(Stop::Engine(format!("intrinsic {n}"))),
                    };
                }
                r
            }
            _ => return Err(Stop::Engine(format!("intrinsic llvm.{n}"))),
        };
        Ok(Some(r))
    }

    // ---- reporting ------------------------------------------------------------
    pub fn functions(&self) -> Vec<String> {
        let mut v: Vec<String> = self.funcs.keys().map(|s| Self::short(s)).collect();
        v.sort();
        v
    }
    /// source lines (file -> lines) in executed blocks
    pub fn coverage(&self) -> BTreeMap<String, BTreeSet<u32>> {
        let mut r: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
        let mut seen = BTreeSet::new();
        for f in self.funcs.values() {
            let cov = f.cov.borrow();
            for (b, c) in cov.iter().enumerate() {
                if *c {
                    for &d in &f.f.dbg[b] {
                        if d != 0 && seen.insert(d) {
                            for (file, line) in self.m.locs(d) {
                                if line > 0 {
                                    r.entry(file).or_default().insert(line);
                                }
                            }
                        }
                    }
                }
            }
        }
        r
    }
}
