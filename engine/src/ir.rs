//! Lazy parser for the textual LLVM IR written by rustc.  Functions and globals
//! are indexed by name and parsed when execution first reaches them; anything the
//! engine does not model becomes an error only if it is executed.
use crate::expr::{Bin, FxMap, Pred};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                if b <= 1 {
                    b
                } else {
                    let a = self.align();
                    (b + a - 1) / a * a
                }
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match (n + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (j, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += f.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn elems(&self) -> Option<Vec<Ty>> {
        match self {
            Ty::Arr(n, t) | Ty::Vec(n, t) => Some(vec![(**t).clone(); *n as usize]),
            Ty::Struct(fs, _) => Some(fs.to_vec()),
            _ => None,
        }
    }
    /// width in bits of a scalar
    pub fn bits(&self) -> Option<u8> {
        match self {
            Ty::Int(n) if *n <= 128 => Some(*n as u8),
            Ty::Ptr => Some(64),
            _ => None,
        }
    }
}

/// A constant before addresses are known.
#[derive(Clone, Debug)]
pub enum C {
    Int(u128, Ty),
    Zero(Ty),
    Undef(Ty),
    Bytes(Vec<u8>),
    Agg(Vec<C>, Ty),
    Glob(String),
    /// base + byte offset
    Off(Box<C>, i64),
    Cast(String, Box<C>, Ty),
    Bin(Bin, Box<C>, Box<C>, Ty),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(C),
    /// index in the function's resolved constant table (filled by the executor)
    V(u32),
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca(u32, u64, u64, Option<Op>),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    /// dst, base, constant offset, scaled indices
    Gep(u32, Op, i64, Vec<(i64, Op)>),
    Bin(u32, Bin, Op, Op),
    Cmp(u32, Pred, Op, Op),
    Zext(u32, Op, Ty),
    Sext(u32, Op, Ty),
    Trunc(u32, Op, Ty),
    Copy(u32, Op),
    Bitcast(u32, Op, Ty, Ty),
    Select(u32, Op, Op, Op),
    Phi(u32, Vec<(Op, u32)>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    /// dst, callee, args, return type, normal successor (invoke)
    Call(Option<u32>, Callee, Vec<Op>, Ty, Option<u32>),
    Extract(u32, Op, Vec<u32>),
    Insert(u32, Op, Op, Vec<u32>),
    ExtElem(u32, Op, Op),
    InsElem(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Op),
    Rmw(u32, String, Op, Op, Ty),
    CmpXchg(u32, Op, Op, Op, Ty),
    Nop,
    Bad(String),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(Op),
    Asm,
}

pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Vec<I>>,
    /// debug location number per instruction (0 = none)
    pub dbg: Vec<Vec<u32>>,
    pub consts: Vec<C>,
    pub variadic: bool,
}

pub struct Module {
    text: String,
    funcs: FxMap<String, (usize, usize)>,
    globs: FxMap<String, (usize, usize)>,
    aliases: FxMap<String, String>,
    pub types: HashMap<String, (usize, usize)>,
    meta: FxMap<u32, (usize, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Local(String),
    Global(String),
    Word(String),
    Int(i128),
    Big(u128),
    P(char),
    Str(Vec<u8>),
    Meta(String),
    Attr,
    End,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    peeked: Option<T>,
}
type R<X> = Result<X, String>;

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        Lex { s: s.as_bytes(), i: 0, peeked: None }
    }
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.i < self.s.len() && self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            return r;
        }
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') {
                self.i += 1;
            } else {
                break;
            }
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn string(&mut self) -> Vec<u8> {
        // at the opening quote
        self.i += 1;
        let mut v = vec![];
        while self.i < self.s.len() && self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn next(&mut self) -> T {
        if let Some(t) = self.peeked.take() {
            return t;
        }
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
            self.i += 1;
        }
        if self.i >= self.s.len() {
            return T::End;
        }
        let c = self.s[self.i];
        match c {
            b';' => {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                self.next()
            }
            b'%' => {
                self.i += 1;
                T::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                T::Global(self.name())
            }
            b'#' => {
                self.i += 1;
                self.name();
                T::Attr
            }
            b'!' => {
                self.i += 1;
                if self.i < self.s.len() && (self.s[self.i] == b'{' || self.s[self.i] == b'"') {
                    return T::Meta(String::new());
                }
                T::Meta(self.name())
            }
            b'"' => T::Str(self.string()),
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                if c == b'0' && self.i < self.s.len() && self.s[self.i] == b'x' {
                    self.i += 1;
                    let hs = self.i;
                    while self.i < self.s.len() && self.s[self.i].is_ascii_alphanumeric() {
                        self.i += 1;
                    }
                    let h = std::str::from_utf8(&self.s[hs..self.i]).unwrap();
                    return match u128::from_str_radix(h, 16) {
                        Ok(v) => T::Big(v),
                        Err(_) => T::Word("badfloat".into()),
                    };
                }
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                if self.i < self.s.len() && (self.s[self.i] == b'.' ) {
                    // decimal float
                    while self.i < self.s.len()
                        && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-'))
                    {
                        self.i += 1;
                    }
                    return T::Word(format!("flt:{}", std::str::from_utf8(&self.s[st..self.i]).unwrap()));
                }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                match t.parse::<i128>() {
                    Ok(v) => T::Int(v),
                    Err(_) => match t.parse::<u128>() {
                        Ok(v) => T::Big(v),
                        Err(_) => T::Word("badint".into()),
                    },
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                if c == b'c' && self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' {
                    self.i += 1;
                    return T::Str(self.string());
                }
                T::Word(self.name())
            }
            _ => {
                self.i += 1;
                T::P(c as char)
            }
        }
    }
    fn peek(&mut self) -> &T {
        if self.peeked.is_none() {
            let t = self.next();
            self.peeked = Some(t);
        }
        self.peeked.as_ref().unwrap()
    }
    fn eat(&mut self, c: char) -> bool {
        if *self.peek() == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        let t = self.next();
        if t == T::P(c) {
            Ok(())
        } else {
            Err(format!("expected {c:?}, got {t:?}"))
        }
    }
    fn word(&mut self, w: &str) -> bool {
        if let T::Word(x) = self.peek() {
            if x == w {
                self.next();
                return true;
            }
        }
        false
    }
    fn skip_parens(&mut self) {
        if self.eat('(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    T::P('(') => d += 1,
                    T::P(')') => d -= 1,
                    T::End => return,
                    _ => {}
                }
            }
        }
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true"
            | "false"
            | "null"
            | "undef"
            | "poison"
            | "zeroinitializer"
            | "splat"
            | "getelementptr"
            | "inttoptr"
            | "ptrtoint"
            | "ptrtoaddr"
            | "bitcast"
            | "trunc"
            | "add"
            | "sub"
            | "xor"
            | "none"
            | "blockaddress"
            | "asm"
    ) || w.starts_with("flt:")
}

struct Fp<'m> {
    m: &'m Module,
    regs: FxMap<String, u32>,
    nregs: u32,
    blocks: FxMap<String, u32>,
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let mut m = Module {
            text: String::new(),
            funcs: FxMap::default(),
            globs: FxMap::default(),
            aliases: FxMap::default(),
            types: HashMap::new(),
            meta: FxMap::default(),
        };
        let b = text.as_bytes();
        let mut pos = 0;
        while pos < b.len() {
            let end = memchr(b, pos, b'\n');
            let line = &text[pos..end];
            if line.starts_with("define ") {
                let mut e = end + 1;
                loop {
                    let ee = memchr(b, e, b'\n');
                    if b[e..].starts_with(b"}") || e >= b.len() {
                        break;
                    }
                    e = ee + 1;
                }
                if let Some(n) = func_name(line) {
                    m.funcs.insert(n, (pos, e));
                }
                pos = memchr(b, e.min(b.len()), b'\n') + 1;
                continue;
            } else if line.starts_with('@') {
                let mut lx = Lex::new(line);
                if let T::Global(n) = lx.next() {
                    if line.contains(" alias ") && !line.contains('"') {
                        if let Some(t) = line.rsplit('@').next() {
                            let t: String = Lex::new(t).name();
                            m.aliases.insert(n, t);
                        }
                    } else {
                        m.globs.insert(n, (pos, end));
                    }
                }
            } else if line.starts_with('%') {
                let mut lx = Lex::new(line);
                if let T::Local(n) = lx.next() {
                    m.types.insert(n, (pos, end));
                }
            } else if line.starts_with('!') {
                let mut lx = Lex::new(line);
                if let T::Meta(n) = lx.next() {
                    if let Ok(k) = n.parse::<u32>() {
                        m.meta.insert(k, (pos, end));
                    }
                }
            }
            pos = end + 1;
        }
        m.text = text;
        Ok(m)
    }
    pub fn fnames(&self) -> impl Iterator<Item = &String> {
        self.funcs.keys()
    }
    pub fn resolve<'a>(&'a self, n: &'a str) -> &'a str {
        match self.aliases.get(n) {
            Some(t) => t,
            None => n,
        }
    }
    pub fn has_func(&self, n: &str) -> bool {
        self.funcs.contains_key(n)
    }
    pub fn has_glob(&self, n: &str) -> bool {
        self.globs.contains_key(n)
    }
    fn ty(&self, lx: &mut Lex) -> R<Ty> {
        let t = lx.next();
        let base = match t {
            T::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if lx.word("addrspace") {
                        lx.skip_parens();
                    }
                    Ty::Ptr
                }
                "half" | "bfloat" => Ty::Int(16),
                "float" => Ty::Int(32),
                "double" => Ty::Int(64),
                "x86_fp80" | "fp128" | "label" | "token" => Ty::Other,
                "metadata" => Ty::Other,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => return Err(format!("type {w}")),
            },
            T::P('[') => {
                let n = match lx.next() {
                    T::Int(n) => n as u64,
                    t => return Err(format!("array len {t:?}")),
                };
                lx.word("x");
                let t = self.ty(lx)?;
                lx.expect(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            T::P('{') => {
                let f = self.fields(lx, '}')?;
                Ty::Struct(Rc::new(f), false)
            }
            T::P('<') => {
                if lx.eat('{') {
                    let f = self.fields(lx, '}')?;
                    lx.expect('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = match lx.next() {
                        T::Int(n) => n as u64,
                        t => return Err(format!("vector len {t:?}")),
                    };
                    lx.word("x");
                    let t = self.ty(lx)?;
                    lx.expect('>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::Local(n) => {
                let (s, e) = *self.types.get(&n).ok_or(format!("named type {n}"))?;
                let mut l2 = Lex::new(&self.text[s..e]);
                l2.next();
                l2.expect('=')?;
                if !l2.word("type") {
                    return Err("type decl".into());
                }
                if l2.word("opaque") {
                    Ty::Other
                } else {
                    self.ty(&mut l2)?
                }
            }
            t => return Err(format!("type token {t:?}")),
        };
        Ok(base)
    }
    fn fields(&self, lx: &mut Lex, close: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if lx.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(self.ty(lx)?);
            if lx.eat(close) {
                return Ok(v);
            }
            lx.expect(',')?;
        }
    }
    fn constant(&self, lx: &mut Lex, ty: &Ty) -> R<C> {
        let t = lx.next();
        Ok(match t {
            T::Int(v) => C::Int(v as u128 & ty.bits().map(crate::expr::mask).unwrap_or(u128::MAX), ty.clone()),
            T::Big(v) => {
                // hexadecimal floats are written as doubles
                if *ty == Ty::Int(32) {
                    C::Int(((f64::from_bits(v as u64)) as f32).to_bits() as u128, ty.clone())
                } else {
                    C::Int(v, ty.clone())
                }
            }
            T::Str(b) => C::Bytes(b),
            T::Global(g) => C::Glob(g),
            T::P('[') => C::Agg(self.agg(lx, ']')?, ty.clone()),
            T::P('{') => C::Agg(self.agg(lx, '}')?, ty.clone()),
            T::P('<') => {
                if lx.eat('{') {
                    let a = self.agg(lx, '}')?;
                    lx.expect('>')?;
                    C::Agg(a, ty.clone())
                } else {
                    C::Agg(self.agg(lx, '>')?, ty.clone())
                }
            }
            T::Word(w) => match w.as_str() {
                "true" => C::Int(1, Ty::Int(1)),
                "false" => C::Int(0, Ty::Int(1)),
                "null" | "none" => C::Int(0, Ty::Ptr),
                "undef" | "poison" => C::Undef(ty.clone()),
                "zeroinitializer" => C::Zero(ty.clone()),
                "splat" => {
                    lx.expect('(')?;
                    let t = self.ty(lx)?;
                    let c = self.constant(lx, &t)?;
                    lx.expect(')')?;
                    let n = match ty {
                        Ty::Vec(n, _) | Ty::Arr(n, _) => *n,
                        _ => return Err("splat type".into()),
                    };
                    C::Agg(vec![c; n as usize], ty.clone())
                }
                "getelementptr" => {
                    while let T::Word(w) = lx.peek() {
                        let w = w.clone();
                        lx.next();
                        if w == "inrange" {
                            lx.skip_parens();
                        }
                    }
                    lx.expect('(')?;
                    let et = self.ty(lx)?;
                    lx.expect(',')?;
                    let bt = self.ty(lx)?;
                    let base = self.constant(lx, &bt)?;
                    let mut off = 0i64;
                    let mut cur = et;
                    let mut first = true;
                    while lx.eat(',') {
                        let t = self.ty(lx)?;
                        let i = match self.constant(lx, &t)? {
                            C::Int(v, t) => crate::expr::sext(v, t.bits().unwrap()) as i64,
                            C::Zero(_) => 0,
                            _ => return Err("gep const index".into()),
                        };
                        if first {
                            off += i * cur.size() as i64;
                            first = false;
                        } else {
                            off += cur.field_off(i as usize) as i64;
                            cur = cur.elems().ok_or("gep")?[i as usize].clone();
                        }
                    }
                    lx.expect(')')?;
                    C::Off(Box::new(base), off)
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" => {
                    lx.expect('(')?;
                    let t = self.ty(lx)?;
                    let c = self.constant(lx, &t)?;
                    if !lx.word("to") {
                        return Err("cast".into());
                    }
                    let t2 = self.ty(lx)?;
                    lx.expect(')')?;
                    C::Cast(w.clone(), Box::new(c), t2)
                }
                "add" | "sub" | "xor" => {
                    while lx.word("nuw") || lx.word("nsw") {}
                    lx.expect('(')?;
                    let t = self.ty(lx)?;
                    let a = self.constant(lx, &t)?;
                    lx.expect(',')?;
                    let t2 = self.ty(lx)?;
                    let b = self.constant(lx, &t2)?;
                    lx.expect(')')?;
                    let op = match w.as_str() {
                        "add" => Bin::Add,
                        "sub" => Bin::Sub,
                        _ => Bin::Xor,
                    };
                    C::Bin(op, Box::new(a), Box::new(b), t)
                }
                w if w.starts_with("flt:") => {
                    let f: f64 = w[4..].parse().map_err(|_| "float")?;
                    if *ty == Ty::Int(32) {
                        C::Int((f as f32).to_bits() as u128, ty.clone())
                    } else {
                        C::Int(f.to_bits() as u128, ty.clone())
                    }
                }
                _ => return Err(format!("constant {w}")),
            },
            t => return Err(format!("constant token {t:?}")),
        })
    }
    fn agg(&self, lx: &mut Lex, close: char) -> R<Vec<C>> {
        let mut v = vec![];
        if lx.eat(close) {
            return Ok(v);
        }
        loop {
            let t = self.ty(lx)?;
            v.push(self.constant(lx, &t)?);
            if lx.eat(close) {
                return Ok(v);
            }
            lx.expect(',')?;
        }
    }
    /// (type, initializer, is_constant)
    pub fn global(&self, n: &str) -> R<Option<(Ty, C, bool, u64)>> {
        let (s, e) = match self.globs.get(n) {
            Some(x) => *x,
            None => return Ok(None),
        };
        let line = &self.text[s..e];
        let mut lx = Lex::new(line);
        lx.next();
        lx.expect('=')?;
        let is_const;
        loop {
            match lx.next() {
                T::Word(w) if w == "constant" => {
                    is_const = true;
                    break;
                }
                T::Word(w) if w == "global" => {
                    is_const = false;
                    break;
                }
                T::Word(w) if w == "external" || w == "extern_weak" => return Ok(None),
                T::Word(_) => lx.skip_parens(),
                T::End => return Err(format!("global {n}")),
                _ => {}
            }
        }
        let ty = self.ty(&mut lx)?;
        let c = self.constant(&mut lx, &ty)?;
        let mut align = ty.align();
        while lx.eat(',') {
            if lx.word("align") {
                if let T::Int(a) = lx.next() {
                    align = a as u64;
                }
            } else {
                lx.next();
                if let T::Str(_) | T::Meta(_) = lx.peek() {
                    lx.next();
                }
            }
        }
        Ok(Some((ty, c, is_const, align)))
    }
    pub fn func(&self, n: &str) -> R<Func> {
        let (s, e) = *self.funcs.get(n).ok_or(format!("no function {n}"))?;
        let text = &self.text[s..e];
        let mut lines = text.split('\n');
        let header = lines.next().unwrap();
        let mut fp = Fp { m: self, regs: FxMap::default(), nregs: 0, blocks: FxMap::default() };
        // parameters
        let at = header.find('@').unwrap();
        let mut lx = Lex::new(&header[at..]);
        lx.next();
        lx.expect('(')?;
        let mut params = vec![];
        let mut variadic = false;
        if !lx.eat(')') {
            loop {
                if lx.eat('.') {
                    variadic = true;
                    lx.eat('.');
                    lx.eat('.');
                } else if lx.word("...") {
                    variadic = true;
                } else {
                    self.ty(&mut lx)?;
                    loop {
                        match lx.next() {
                            T::Local(n) => {
                                let r = fp.reg(n);
                                params.push(r);
                                break;
                            }
                            T::Word(w) => {
                                if w == "byval" {
                                    return Err("byval parameter".into());
                                }
                                lx.skip_parens()
                            }
                            T::Int(_) | T::Str(_) => {}
                            t => return Err(format!("param {t:?} in {n}")),
                        }
                    }
                }
                if lx.eat(')') {
                    break;
                }
                lx.expect(',')?;
            }
        }
        // logical lines, with block labels
        let mut body: Vec<(Option<String>, String)> = vec![];
        let mut it = lines.peekable();
        while let Some(l) = it.next() {
            if l.is_empty() || l.starts_with(';') || l.trim_start().starts_with("#dbg") {
                continue;
            }
            if !l.starts_with(' ') {
                let mut lx = Lex::new(l);
                let name = match l.as_bytes()[0] {
                    b'"' => lx.name(),
                    _ => lx.name(),
                };
                body.push((Some(name), String::new()));
                continue;
            }
            let mut cur = l.to_string();
            let tl = l.trim_start();
            if tl.starts_with("switch ") && !l.trim_end().ends_with(']') && !l.contains("], !") {
                for x in it.by_ref() {
                    cur.push(' ');
                    cur.push_str(x);
                    if x.trim_start().starts_with(']') {
                        break;
                    }
                }
            } else if tl.starts_with("invoke ") || tl.contains(" = invoke ") {
                if let Some(x) = it.next() {
                    cur.push(' ');
                    cur.push_str(x);
                }
            } else if tl.contains("landingpad ") {
                while let Some(x) = it.peek() {
                    if x.starts_with("          ") {
                        it.next();
                    } else {
                        break;
                    }
                }
            }
            body.push((None, cur));
        }
        let mut nb = 0;
        let entry_unlabelled = !matches!(body.first(), Some((Some(_), _)));
        if entry_unlabelled {
            nb = 1;
            // an unlabelled entry block takes the number after the unnamed parameters
            let n = fp.regs.keys().filter(|k| k.bytes().all(|c| c.is_ascii_digit())).count().to_string();
            fp.blocks.insert(n, 0);
        }
        for (lab, _) in &body {
            if let Some(l) = lab {
                fp.blocks.insert(l.clone(), nb);
                nb += 1;
            }
        }
        let mut blocks: Vec<Vec<I>> = vec![];
        let mut dbg: Vec<Vec<u32>> = vec![];
        if entry_unlabelled {
            blocks.push(vec![]);
            dbg.push(vec![]);
        }
        for (lab, l) in &body {
            if lab.is_some() {
                blocks.push(vec![]);
                dbg.push(vec![]);
                continue;
            }
            let d = match l.rfind("!dbg !") {
                Some(p) => {
                    let x = &l[p + 6..];
                    let k = x.find(|c: char| !c.is_ascii_digit()).unwrap_or(x.len());
                    x[..k].parse().unwrap_or(0)
                }
                None => 0,
            };
            let i = match fp.instr(l) {
                Ok(i) => i,
                Err(e) => I::Bad(format!("{e}: {}", l.trim())),
            };
            if let I::Nop = i {
                continue;
            }
            blocks.last_mut().unwrap().push(i);
            dbg.last_mut().unwrap().push(d);
        }
        let mut f = Func {
            name: n.into(),
            params,
            nregs: fp.nregs,
            blocks,
            dbg,
            consts: vec![],
            variadic,
        };
        f.pool_consts();
        Ok(f)
    }

    // ---- debug locations -------------------------------------------------
    fn meta_line(&self, k: u32) -> Option<&str> {
        self.meta.get(&k).map(|&(s, e)| &self.text[s..e])
    }
    fn field<'a>(l: &'a str, key: &str) -> Option<&'a str> {
        let p = l.find(key)? + key.len();
        let r = &l[p..];
        let e = r.find([',', ')']).unwrap_or(r.len());
        Some(r[..e].trim())
    }
    fn mref(s: Option<&str>) -> Option<u32> {
        s?.strip_prefix('!')?.parse().ok()
    }
    fn scope_file(&self, mut k: u32) -> Option<String> {
        for _ in 0..20 {
            let l = self.meta_line(k)?;
            if l.contains("!DIFile(") {
                let f = l.split("filename: \"").nth(1)?.split('"').next()?;
                let d = l.split("directory: \"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("");
                return Some(if f.starts_with('/') { f.to_string() } else { format!("{d}/{f}") });
            }
            k = Self::mref(Self::field(l, "file: ")).or_else(|| Self::mref(Self::field(l, "scope: ")))?;
        }
        None
    }
    /// All (file, line) pairs of a location, inlined frames included.
    pub fn locs(&self, mut k: u32) -> Vec<(String, u32)> {
        let mut v = vec![];
        for _ in 0..64 {
            let Some(l) = self.meta_line(k) else { break };
            if !l.contains("!DILocation(") {
                break;
            }
            let line: u32 = Self::field(l, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
            if let Some(s) = Self::mref(Self::field(l, "scope: ")) {
                if let Some(f) = self.scope_file(s) {
                    v.push((f, line));
                }
            }
            match Self::mref(Self::field(l, "inlinedAt: ")) {
                Some(n) => k = n,
                None => break,
            }
        }
        v
    }
}

fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    match b[from..].iter().position(|&x| x == c) {
        Some(p) => from + p,
        None => b.len(),
    }
}
fn func_name(line: &str) -> Option<String> {
    // the first @name followed by '('
    let at = line.find('@')?;
    let mut lx = Lex::new(&line[at..]);
    match lx.next() {
        T::Global(n) => Some(n),
        _ => None,
    }
}

impl Func {
    fn pool_consts(&mut self) {
        let mut consts = vec![];
        let mut fix = |o: &mut Op| {
            if let Op::K(c) = o {
                let i = consts.len() as u32;
                consts.push(c.clone());
                *o = Op::V(i);
            }
        };
        for b in &mut self.blocks {
            for i in b {
                match i {
                    I::Alloca(_, _, _, Some(o)) => fix(o),
                    I::Load(_, _, o) | I::Zext(_, o, _) | I::Sext(_, o, _) | I::Trunc(_, o, _) | I::Copy(_, o)
                    | I::Bitcast(_, o, _, _) | I::CondBr(o, _, _) | I::Switch(o, _, _) | I::Ret(Some(o))
                    | I::Extract(_, o, _) => fix(o),
                    I::Store(_, a, b) | I::Bin(_, _, a, b) | I::Cmp(_, _, a, b) | I::Insert(_, a, b, _)
                    | I::ExtElem(_, a, b) | I::Rmw(_, _, a, b, _) => {
                        fix(a);
                        fix(b)
                    }
                    I::Gep(_, b, _, v) => {
                        fix(b);
                        for (_, o) in v {
                            fix(o)
                        }
                    }
                    I::Select(_, a, b, c) | I::InsElem(_, a, b, c) | I::Shuffle(_, a, b, c) | I::CmpXchg(_, a, b, c, _) => {
                        fix(a);
                        fix(b);
                        fix(c)
                    }
                    I::Phi(_, v) => {
                        for (o, _) in v {
                            fix(o)
                        }
                    }
                    I::Call(_, c, v, _, _) => {
                        if let Callee::Indirect(o) = c {
                            fix(o)
                        }
                        for o in v {
                            fix(o)
                        }
                    }
                    _ => {}
                }
            }
        }
        self.consts = consts;
    }
}

impl<'m> Fp<'m> {
    fn reg(&mut self, n: String) -> u32 {
        if let Some(&r) = self.regs.get(&n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn val(&mut self, lx: &mut Lex, ty: &Ty) -> R<Op> {
        if let T::Local(_) = lx.peek() {
            if let T::Local(n) = lx.next() {
                return Ok(Op::R(self.reg(n)));
            }
        }
        Ok(Op::K(self.m.constant(lx, ty)?))
    }
    fn tyval(&mut self, lx: &mut Lex) -> R<(Ty, Op)> {
        let t = self.m.ty(lx)?;
        let v = self.val(lx, &t)?;
        Ok((t, v))
    }
    fn label(&mut self, lx: &mut Lex) -> R<u32> {
        if !lx.word("label") {
            return Err("label".into());
        }
        match lx.next() {
            T::Local(n) => self.blocks.get(&n).copied().ok_or(format!("block {n}")),
            t => Err(format!("label {t:?}")),
        }
    }
    fn flags(&self, lx: &mut Lex) {
        while let T::Word(w) = lx.peek() {
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile"
                | "atomic" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "weak"
                | "inalloca" | "elementwise" => {
                    lx.next();
                }
                "inrange" | "syncscope" => {
                    lx.next();
                    lx.skip_parens();
                }
                _ => break,
            }
        }
    }
    fn instr(&mut self, line: &str) -> R<I> {
        let mut lx = Lex::new(line);
        let lx = &mut lx;
        let mut dst = None;
        if let T::Local(_) = lx.peek() {
            if let T::Local(n) = lx.next() {
                dst = Some(self.reg(n));
            }
            lx.expect('=')?;
        }
        let w = match lx.next() {
            T::Word(w) => w,
            t => return Err(format!("opcode {t:?}")),
        };
        let d = dst.unwrap_or(0);
        let bin = match w.as_str() {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            _ => None,
        };
        if let Some(b) = bin {
            self.flags(lx);
            let (t, a) = self.tyval(lx)?;
            lx.expect(',')?;
            let c = self.val(lx, &t)?;
            return Ok(I::Bin(d, b, a, c));
        }
        Ok(match w.as_str() {
            "alloca" => {
                self.flags(lx);
                let t = self.m.ty(lx)?;
                let mut align = t.align();
                let mut n = None;
                while lx.eat(',') {
                    if lx.word("align") {
                        if let T::Int(a) = lx.next() {
                            align = a as u64;
                        }
                    } else if let T::Meta(_) = lx.peek() {
                        break;
                    } else {
                        n = Some(self.tyval(lx)?.1);
                    }
                }
                I::Alloca(d, t.size(), align, n)
            }
            "load" => {
                self.flags(lx);
                let t = self.m.ty(lx)?;
                lx.expect(',')?;
                let (_, p) = self.tyval(lx)?;
                I::Load(d, t, p)
            }
            "store" => {
                self.flags(lx);
                let (t, v) = self.tyval(lx)?;
                lx.expect(',')?;
                let (_, p) = self.tyval(lx)?;
                I::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags(lx);
                let et = self.m.ty(lx)?;
                lx.expect(',')?;
                let (bt, base) = self.tyval(lx)?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while lx.eat(',') {
                    if let T::Meta(_) = lx.peek() {
                        break;
                    }
                    let (it, i) = self.tyval(lx)?;
                    let ci = match &i {
                        Op::K(C::Int(v, t)) => Some(crate::expr::sext(*v, t.bits().unwrap()) as i64),
                        Op::K(C::Zero(_)) => Some(0),
                        _ => None,
                    };
                    let _ = it;
                    if first {
                        first = false;
                        match ci {
                            Some(c) => off += c * cur.size() as i64,
                            None => idx.push((cur.size() as i64, i)),
                        }
                    } else {
                        match &cur {
                            Ty::Struct(fs, _) => {
                                let k = ci.ok_or("struct index")? as usize;
                                off += cur.field_off(k) as i64;
                                let nt = fs[k].clone();
                                cur = nt;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                match ci {
                                    Some(c) => off += c * t.size() as i64,
                                    None => idx.push((t.size() as i64, i)),
                                }
                                let nt = (**t).clone();
                                cur = nt;
                            }
                            _ => return Err("gep type".into()),
                        }
                    }
                }
                I::Gep(d, base, off, idx)
            }
            "icmp" => {
                self.flags(lx);
                let p = match lx.next() {
                    T::Word(p) => match p.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => return Err("icmp".into()),
                    },
                    _ => return Err("icmp".into()),
                };
                let (t, a) = self.tyval(lx)?;
                lx.expect(',')?;
                let b = self.val(lx, &t)?;
                I::Cmp(d, p, a, b)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                self.flags(lx);
                let (t1, a) = self.tyval(lx)?;
                if !lx.word("to") {
                    return Err("cast".into());
                }
                let t = self.m.ty(lx)?;
                match w.as_str() {
                    "zext" => I::Zext(d, a, t),
                    "sext" => I::Sext(d, a, t),
                    "trunc" => I::Trunc(d, a, t),
                    "bitcast" => {
                        if t1.bits().is_some() && t.bits().is_some() {
                            I::Copy(d, a)
                        } else {
                            I::Bitcast(d, a, t1, t)
                        }
                    }
                    // integers of another width than 64 are cut or extended with zeros
                    _ => {
                        let (a1, b1) = (t1.bits().ok_or("cast")?, t.bits().ok_or("cast")?);
                        if a1 == b1 {
                            I::Copy(d, a)
                        } else if a1 < b1 {
                            I::Zext(d, a, Ty::Int(b1 as u32))
                        } else {
                            I::Trunc(d, a, Ty::Int(b1 as u32))
                        }
                    }
                }
            }
            "freeze" => {
                let (_, a) = self.tyval(lx)?;
                I::Copy(d, a)
            }
            "select" => {
                self.flags(lx);
                let (_, c) = self.tyval(lx)?;
                lx.expect(',')?;
                let (_, a) = self.tyval(lx)?;
                lx.expect(',')?;
                let (_, b) = self.tyval(lx)?;
                I::Select(d, c, a, b)
            }
            "phi" => {
                self.flags(lx);
                let t = self.m.ty(lx)?;
                let mut v = vec![];
                loop {
                    lx.expect('[')?;
                    let o = self.val(lx, &t)?;
                    lx.expect(',')?;
                    let b = match lx.next() {
                        T::Local(n) => *self.blocks.get(&n).ok_or(format!("block {n}"))?,
                        t => return Err(format!("phi {t:?}")),
                    };
                    lx.expect(']')?;
                    v.push((o, b));
                    if !lx.eat(',') {
                        break;
                    }
                    if let T::Meta(_) = lx.peek() {
                        break;
                    }
                }
                I::Phi(d, v)
            }
            "br" => {
                if let T::Word(x) = lx.peek() {
                    if x == "label" {
                        return Ok(I::Br(self.label(lx)?));
                    }
                }
                let (_, c) = self.tyval(lx)?;
                lx.expect(',')?;
                let a = self.label(lx)?;
                lx.expect(',')?;
                let b = self.label(lx)?;
                I::CondBr(c, a, b)
            }
            "switch" => {
                let (t, v) = self.tyval(lx)?;
                lx.expect(',')?;
                let def = self.label(lx)?;
                lx.expect('[')?;
                let mut cs = vec![];
                while !lx.eat(']') {
                    let t2 = self.m.ty(lx)?;
                    let c = match self.m.constant(lx, &t2)? {
                        C::Int(v, _) => v,
                        C::Zero(_) => 0,
                        c => return Err(format!("switch case {c:?}")),
                    };
                    lx.expect(',')?;
                    let b = self.label(lx)?;
                    cs.push((c, b));
                }
                let _ = t;
                I::Switch(v, def, cs)
            }
            "ret" => {
                let t = self.m.ty(lx)?;
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.val(lx, &t)?))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" | "landingpad" => I::Unreachable,
            "fence" => I::Nop,
            "tail" | "musttail" | "notail" => {
                lx.next();
                self.call(lx, dst, false)?
            }
            "call" => self.call(lx, dst, false)?,
            "invoke" => self.call(lx, dst, true)?,
            "extractvalue" => {
                let (_, a) = self.tyval(lx)?;
                I::Extract(d, a, self.idxs(lx)?)
            }
            "insertvalue" => {
                let (_, a) = self.tyval(lx)?;
                lx.expect(',')?;
                let (_, b) = self.tyval(lx)?;
                I::Insert(d, a, b, self.idxs(lx)?)
            }
            "extractelement" => {
                let (_, a) = self.tyval(lx)?;
                lx.expect(',')?;
                let (_, b) = self.tyval(lx)?;
                I::ExtElem(d, a, b)
            }
            "insertelement" => {
                let (_, a) = self.tyval(lx)?;
                lx.expect(',')?;
                let (_, b) = self.tyval(lx)?;
                lx.expect(',')?;
                let (_, c) = self.tyval(lx)?;
                I::InsElem(d, a, b, c)
            }
            "shufflevector" => {
                let (_, a) = self.tyval(lx)?;
                lx.expect(',')?;
                let (_, b) = self.tyval(lx)?;
                lx.expect(',')?;
                let (_, c) = self.tyval(lx)?;
                I::Shuffle(d, a, b, c)
            }
            "atomicrmw" => {
                self.flags(lx);
                let op = match lx.next() {
                    T::Word(w) => w,
                    _ => return Err("rmw".into()),
                };
                let (_, p) = self.tyval(lx)?;
                lx.expect(',')?;
                let (t, v) = self.tyval(lx)?;
                I::Rmw(d, op, p, v, t)
            }
            "cmpxchg" => {
                self.flags(lx);
                let (_, p) = self.tyval(lx)?;
                lx.expect(',')?;
                let (t, a) = self.tyval(lx)?;
                lx.expect(',')?;
                let (_, b) = self.tyval(lx)?;
                I::CmpXchg(d, p, a, b, t)
            }
            _ => return Err(format!("unsupported {w}")),
        })
    }
    fn idxs(&self, lx: &mut Lex) -> R<Vec<u32>> {
        let mut v = vec![];
        while lx.eat(',') {
            match lx.peek() {
                T::Int(_) => {
                    if let T::Int(i) = lx.next() {
                        v.push(i as u32)
                    }
                }
                _ => break,
            }
        }
        Ok(v)
    }
    fn call(&mut self, lx: &mut Lex, dst: Option<u32>, invoke: bool) -> R<I> {
        // calling convention and return attributes
        loop {
            match lx.peek().clone() {
                T::Word(w) => {
                    let is_ty = matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "metadata")
                        || (w.starts_with('i') && w[1..].parse::<u32>().is_ok());
                    if is_ty {
                        break;
                    }
                    lx.next();
                    if w == "align" {
                        if let T::Int(_) = lx.peek() {
                            lx.next();
                        }
                    }
                    lx.skip_parens();
                }
                _ => break,
            }
        }
        let rt = self.m.ty(lx)?;
        // function type for variadic callees
        if let T::P('(') = lx.peek() {
            lx.skip_parens();
        }
        let callee = match lx.next() {
            T::Global(g) => Callee::Direct(self.m.resolve(&g).into()),
            T::Local(n) => Callee::Indirect(Op::R(self.reg(n))),
            T::Word(w) if w == "asm" => Callee::Asm,
            t => return Err(format!("callee {t:?}")),
        };
        if let Callee::Asm = callee {
            return Ok(I::Bad("inline asm".into()));
        }
        if let Callee::Direct(n) = &callee {
            if n.starts_with("llvm.lifetime")
                || n.starts_with("llvm.dbg")
                || n.starts_with("llvm.experimental.noalias")
                || n.starts_with("llvm.assume")
            {
                return Ok(I::Nop);
            }
        }
        lx.expect('(')?;
        let mut args = vec![];
        if !lx.eat(')') {
            loop {
                if lx.word("metadata") {
                    return Err("metadata argument".into());
                }
                let t = self.m.ty(lx)?;
                loop {
                    match lx.peek().clone() {
                        T::Word(w) if !is_value_word(&w) => {
                            lx.next();
                            if w == "byval" {
                                return Err("byval argument".into());
                            }
                            if w == "align" {
                                if let T::Int(_) = lx.peek() {
                                    lx.next();
                                }
                            }
                            lx.skip_parens();
                        }
                        _ => break,
                    }
                }
                args.push(self.val(lx, &t)?);
                if lx.eat(')') {
                    break;
                }
                lx.expect(',')?;
            }
        }
        let mut normal = None;
        if invoke {
            loop {
                match lx.next() {
                    T::Word(w) if w == "to" => {
                        normal = Some(self.label(lx)?);
                        break;
                    }
                    T::End => return Err("invoke".into()),
                    _ => {}
                }
            }
        }
        Ok(I::Call(dst, callee, args, rt, normal))
    }
}
