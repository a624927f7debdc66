//! Hash-consed bit-vector terms with a small, sound simplifier and a concrete
//! evaluator.  Every rewrite keeps the value of the term for every assignment.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Var(u32),
    Const(u128),
    Add(E, E),
    Sub(E, E),
    Mul(E, E),
    UDiv(E, E),
    SDiv(E, E),
    URem(E, E),
    SRem(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    /// high part, low part
    Concat(E, E),
    /// low bit, operand (width from the node)
    Extract(u8, E),
    SExt(E),
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    Ite(E, E, E),
}

#[derive(Clone, Copy)]
pub struct Node {
    pub k: K,
    pub w: u8,
    /// bits known to be zero / one for every assignment
    pub kz: u128,
    pub ko: u128,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub struct Pool {
    pub n: Vec<Node>,
    map: FxMap<(K, u8), E>,
    pub nvars: u32,
    memo_gen: Vec<u32>,
    memo_val: Vec<u128>,
    gen: u32,
    cur_model: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

/// Concrete semantics of a binary operation; `None` when LLVM leaves it undefined.
pub fn cbin(op: Bin, a: u128, b: u128, w: u8) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Bin::Add => a.wrapping_add(b) & m,
        Bin::Sub => a.wrapping_sub(b) & m,
        Bin::Mul => a.wrapping_mul(b) & m,
        Bin::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Bin::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Bin::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                return None;
            }
            x.wrapping_div(y) as u128 & m
        }
        Bin::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                return None;
            }
            x.wrapping_rem(y) as u128 & m
        }
        // over-shifts are poison in LLVM; SMT-LIB semantics are used
        Bin::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Bin::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Bin::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128 & m
        }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
    })
}
pub fn cpred(p: Pred, a: u128, b: u128, w: u8) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
    }
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool {
            n: vec![],
            map: FxMap::default(),
            nvars: 0,
            memo_gen: vec![],
            memo_val: vec![],
            gen: 0,
            cur_model: u64::MAX,
        };
        // index 0 is a dummy so that 0 can mean "none"
        p.n.push(Node { k: K::Const(0), w: 1, kz: 1, ko: 0 });
        p
    }
    pub fn w(&self, e: E) -> u8 {
        self.n[e as usize].w
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.n[e as usize].k {
            K::Const(c) => Some(c),
            _ => None,
        }
    }
    fn kb(&self, e: E) -> (u128, u128) {
        let n = &self.n[e as usize];
        (n.kz, n.ko)
    }
    fn mk(&mut self, k: K, w: u8) -> E {
        if let Some(&e) = self.map.get(&(k, w)) {
            return e;
        }
        let m = mask(w);
        let (mut kz, mut ko) = match k {
            K::Var(_) => (0, 0),
            K::Const(c) => (!c & m, c),
            K::And(a, b) => {
                let ((az, ao), (bz, bo)) = (self.kb(a), self.kb(b));
                (az | bz, ao & bo)
            }
            K::Or(a, b) => {
                let ((az, ao), (bz, bo)) = (self.kb(a), self.kb(b));
                (az & bz, ao | bo)
            }
            K::Xor(a, b) => {
                let ((az, ao), (bz, bo)) = (self.kb(a), self.kb(b));
                ((az & bz) | (ao & bo), (az & bo) | (ao & bz))
            }
            K::Concat(h, l) => {
                let ((hz, ho), (lz, lo)) = (self.kb(h), self.kb(l));
                let s = self.w(l) as u32;
                (hz << s | lz, ho << s | lo)
            }
            K::Extract(lo, x) => {
                let (xz, xo) = self.kb(x);
                ((xz >> lo) & m, (xo >> lo) & m)
            }
            K::SExt(x) => {
                let (xz, xo) = self.kb(x);
                let xw = self.w(x);
                let top = m & !mask(xw);
                let s = 1u128 << (xw - 1);
                (
                    xz | if xz & s != 0 { top } else { 0 },
                    xo | if xo & s != 0 { top } else { 0 },
                )
            }
            K::Ite(_, a, b) => {
                let ((az, ao), (bz, bo)) = (self.kb(a), self.kb(b));
                (az & bz, ao & bo)
            }
            K::Add(a, b) => {
                let ((az, ao), (bz, bo)) = (self.kb(a), self.kb(b));
                // exact on the low bits that are known on both sides
                let known = (az | ao) & (bz | bo);
                let tz = (!known & m).trailing_zeros().min(w as u32) as u8;
                let lowm = mask_or0(tz);
                let s = (ao & lowm).wrapping_add(bo & lowm) & lowm;
                let (mut z, o) = (!s & lowm, s);
                // upper bound from the maxima
                let (ma, mb) = (!az & m, !bz & m);
                if let Some(mx) = ma.checked_add(mb) {
                    if mx <= m {
                        let bits = 128 - mx.leading_zeros();
                        z |= m & !mask_or0(bits as u8);
                    }
                }
                (z, o)
            }
            K::Sub(a, b) => {
                let ((az, ao), (bz, bo)) = (self.kb(a), self.kb(b));
                let known = (az | ao) & (bz | bo);
                let tz = (!known & m).trailing_zeros().min(w as u32) as u8;
                let lowm = mask_or0(tz);
                let s = (ao & lowm).wrapping_sub(bo & lowm) & lowm;
                (!s & lowm, s)
            }
            K::Mul(a, b) => {
                let ((az, _), (bz, _)) = (self.kb(a), self.kb(b));
                let (ma, mb) = (!az & m, !bz & m);
                let mut z = 0;
                if let Some(mx) = ma.checked_mul(mb) {
                    if mx <= m {
                        let bits = 128 - mx.leading_zeros();
                        z |= m & !mask_or0(bits as u8);
                    }
                }
                let tz = (ma.trailing_zeros() + mb.trailing_zeros()).min(w as u32);
                z |= mask_or0(tz as u8);
                (z, 0)
            }
            K::URem(_, b) => {
                let (bz, _) = self.kb(b);
                let mb = !bz & m;
                let bits = 128 - mb.leading_zeros();
                (m & !mask_or0(bits as u8), 0)
            }
            K::UDiv(a, _) | K::LShr(a, _) => {
                let (az, _) = self.kb(a);
                let ma = !az & m;
                let bits = 128 - ma.leading_zeros();
                (m & !mask_or0(bits as u8), 0)
            }
            _ => (0, 0),
        };
        kz &= m;
        ko &= m;
        // division by zero is SMT-defined as all ones: drop the bound if b may be 0
        if let K::UDiv(_, b) | K::URem(_, b) = k {
            if self.kb(b).1 == 0 {
                kz = 0;
            }
        }
        if kz | ko == m && !matches!(k, K::Const(_)) {
            return self.mk(K::Const(ko), w);
        }
        let e = self.n.len() as E;
        self.n.push(Node { k, w, kz, ko });
        self.map.insert((k, w), e);
        e
    }
    pub fn var(&mut self) -> E {
        let v = self.nvars;
        self.nvars += 1;
        self.mk(K::Var(v), 8)
    }
    pub fn var_at(&mut self, i: u32) -> E {
        if i >= self.nvars {
            self.nvars = i + 1;
        }
        self.mk(K::Var(i), 8)
    }
    pub fn c(&mut self, v: u128, w: u8) -> E {
        self.mk(K::Const(v & mask(w)), w)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.c(mask(w), w);
        self.bin(Bin::Xor, a, m)
    }
    pub fn bin(&mut self, op: Bin, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = cbin(op, x, y, w) {
                return self.c(r, w);
            }
        }
        let m = mask(w);
        match op {
            Bin::Add => {
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let (K::Add(x, y), Some(c)) = (self.n[a as usize].k, cb) {
                    if let Some(c2) = self.as_const(y) {
                        let s = self.c(c.wrapping_add(c2), w);
                        return self.bin(op, x, s);
                    }
                }
                // no carries possible -> or
                if self.kb(a).0 | self.kb(b).0 == m {
                    return self.bin(Bin::Or, a, b);
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                self.mk(K::Add(a, b), w)
            }
            Bin::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(c) = cb {
                    let nc = self.c(c.wrapping_neg(), w);
                    return self.bin(Bin::Add, a, nc);
                }
                self.mk(K::Sub(a, b), w)
            }
            Bin::Mul => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let s = self.c(c.trailing_zeros() as u128, w);
                        return self.bin(Bin::Shl, a, s);
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                self.mk(K::Mul(a, b), w)
            }
            Bin::UDiv => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let s = self.c(c.trailing_zeros() as u128, w);
                        return self.bin(Bin::LShr, a, s);
                    }
                }
                self.mk(K::UDiv(a, b), w)
            }
            Bin::URem => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let s = self.c(c - 1, w);
                        return self.bin(Bin::And, a, s);
                    }
                }
                self.mk(K::URem(a, b), w)
            }
            Bin::SDiv => self.mk(K::SDiv(a, b), w),
            Bin::SRem => self.mk(K::SRem(a, b), w),
            Bin::Shl => {
                if ca == Some(0) {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.c(0, w);
                    }
                    let hi = self.extract(a, 0, w - c as u8);
                    let lo = self.c(0, c as u8);
                    return self.concat(hi, lo);
                }
                self.mk(K::Shl(a, b), w)
            }
            Bin::LShr => {
                if ca == Some(0) {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.c(0, w);
                    }
                    let lo = self.extract(a, c as u8, w - c as u8);
                    return self.zext(lo, w);
                }
                self.mk(K::LShr(a, b), w)
            }
            Bin::AShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let c = if c >= w as u128 { w - 1 } else { c as u8 };
                    let lo = self.extract(a, c, w - c);
                    return self.sext(lo, w);
                }
                self.mk(K::AShr(a, b), w)
            }
            Bin::And => {
                if a == b {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    // bits outside the mask already known zero
                    if self.kb(a).0 | c == m {
                        return a;
                    }
                    // contiguous mask -> 0 . extract . 0
                    let lo = c.trailing_zeros() as u8;
                    let hi = 128 - c.leading_zeros() as u8;
                    if c == mask_or0(hi) & !mask_or0(lo) {
                        let x = self.extract(a, lo, hi - lo);
                        let x = if lo > 0 {
                            let z = self.c(0, lo);
                            self.concat(x, z)
                        } else {
                            x
                        };
                        return self.zext(x, w);
                    }
                    if let K::And(x, y) = self.n[a as usize].k {
                        if let Some(c2) = self.as_const(y) {
                            let s = self.c(c & c2, w);
                            return self.bin(op, x, s);
                        }
                    }
                }
                if w > 1 {
                    if let Some(e) = self.split_bitwise(op, a, b) {
                        return e;
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                self.mk(K::And(a, b), w)
            }
            Bin::Or => {
                if a == b {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                }
                if w > 1 {
                    if let Some(e) = self.split_bitwise(op, a, b) {
                        return e;
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                self.mk(K::Or(a, b), w)
            }
            Bin::Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if let K::Xor(x, y) = self.n[a as usize].k {
                        if let Some(c2) = self.as_const(y) {
                            let s = self.c(c ^ c2, w);
                            return self.bin(op, x, s);
                        }
                    }
                }
                if w > 1 {
                    if let Some(e) = self.split_bitwise(op, a, b) {
                        return e;
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                self.mk(K::Xor(a, b), w)
            }
        }
    }
    /// A bitwise operation distributes over concatenation; split when one side is
    /// a concatenation and the other one is too, or is a constant.
    fn split_bitwise(&mut self, op: Bin, a: E, b: E) -> Option<E> {
        let pick = |p: &Pool, x: E, y: E| -> Option<u8> {
            if let K::Concat(_, l) = p.n[x as usize].k {
                match p.n[y as usize].k {
                    K::Concat(..) | K::Const(_) => return Some(p.w(l)),
                    _ => {}
                }
                // one half constant: worthwhile too
                if let K::Concat(h, l) = p.n[x as usize].k {
                    if p.as_const(h).is_some() || p.as_const(l).is_some() {
                        return Some(p.w(l));
                    }
                }
            }
            None
        };
        let lw = pick(self, a, b).or_else(|| pick(self, b, a))?;
        let w = self.w(a);
        let (ah, bh) = (self.extract(a, lw, w - lw), self.extract(b, lw, w - lw));
        let (al, bl) = (self.extract(a, 0, lw), self.extract(b, 0, lw));
        let h = self.bin(op, ah, bh);
        let l = self.bin(op, al, bl);
        Some(self.concat(h, l))
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let w = self.w(h) + self.w(l);
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) {
            return self.c(x << self.w(l) | y, w);
        }
        // adjacent extracts of the same term
        if let (K::Extract(lh, x), K::Extract(ll, y)) = (self.n[h as usize].k, self.n[l as usize].k) {
            if x == y && lh == ll + self.w(l) {
                return self.extract(x, ll, w);
            }
        }
        // right-nest: concat(concat(a,b),c) -> concat(a,concat(b,c))
        if let K::Concat(a, b) = self.n[h as usize].k {
            let bc = self.concat(b, l);
            return self.concat(a, bc);
        }
        // merge the head of a right-nested low part
        if let K::Concat(l1, l2) = self.n[l as usize].k {
            let merged = match (self.n[h as usize].k, self.n[l1 as usize].k) {
                (K::Extract(lh, x), K::Extract(ll, y)) if x == y && lh == ll + self.w(l1) => {
                    let mw = self.w(h) + self.w(l1);
                    Some(self.extract(x, ll, mw))
                }
                (K::Const(x), K::Const(y)) => {
                    let mw = self.w(h) + self.w(l1);
                    let v = x << self.w(l1) | y;
                    Some(self.c(v, mw))
                }
                _ => None,
            };
            if let Some(mh) = merged {
                return self.concat(mh, l2);
            }
        }
        self.mk(K::Concat(h, l), w)
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let aw = self.w(a);
        debug_assert!(w > 0 && lo + w <= aw);
        if w == aw {
            return a;
        }
        let (kz, ko) = self.kb(a);
        let m = mask(w);
        if (kz | ko) >> lo & m == m {
            return self.c(ko >> lo & m, w);
        }
        match self.n[a as usize].k {
            K::Const(c) => self.c(c >> lo, w),
            K::Extract(l2, x) => self.extract(x, l2 + lo, w),
            K::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let el = self.extract(l, lo, lw - lo);
                    let eh = self.extract(h, 0, lo + w - lw);
                    self.concat(eh, el)
                }
            }
            K::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    self.extract(x, lo, w)
                } else if lo < xw {
                    let y = self.extract(x, lo, xw - lo);
                    self.sext(y, w)
                } else {
                    let s = self.extract(x, xw - 1, 1);
                    self.sext(s, w)
                }
            }
            K::And(x, y) => self.ext_bin(Bin::And, x, y, lo, w),
            K::Or(x, y) => self.ext_bin(Bin::Or, x, y, lo, w),
            K::Xor(x, y) => self.ext_bin(Bin::Xor, x, y, lo, w),
            K::Ite(c, x, y) => {
                let (x, y) = (self.extract(x, lo, w), self.extract(y, lo, w));
                self.ite(c, x, y)
            }
            K::Add(x, y) if lo == 0 => self.ext_bin(Bin::Add, x, y, lo, w),
            K::Sub(x, y) if lo == 0 => self.ext_bin(Bin::Sub, x, y, lo, w),
            K::Mul(x, y) if lo == 0 => self.ext_bin(Bin::Mul, x, y, lo, w),
            _ => self.mk(K::Extract(lo, a), w),
        }
    }
    fn ext_bin(&mut self, op: Bin, x: E, y: E, lo: u8, w: u8) -> E {
        let (x, y) = (self.extract(x, lo, w), self.extract(y, lo, w));
        self.bin(op, x, y)
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if w == aw {
            return a;
        }
        let z = self.c(0, w - aw);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if w == aw {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return self.c(sext(c, aw) as u128, w);
        }
        if self.kb(a).0 >> (aw - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        if let K::SExt(x) = self.n[a as usize].k {
            return self.sext(x, w);
        }
        self.mk(K::SExt(a), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        let w = self.w(a);
        if let K::Xor(x, y) = self.n[c as usize].k {
            if self.as_const(y) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Bin::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Bin::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Bin::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Bin::Or, nc, a);
                }
                _ => {}
            }
        }
        if let K::Ite(c2, x, _) = self.n[a as usize].k {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let K::Ite(c2, _, y) = self.n[b as usize].k {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        // constants that differ in exactly one bit: keep the bit as the condition
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if w > 1 && (x ^ y).is_power_of_two() {
                let p = (x ^ y).trailing_zeros() as u8;
                let bit = if x >> p & 1 == 1 { c } else { self.not(c) };
                let mut r = bit;
                if p > 0 {
                    let l = self.c(y, p);
                    r = self.concat(r, l);
                }
                if p + 1 < w {
                    let h = self.c(y >> (p + 1), w - p - 1);
                    r = self.concat(h, r);
                }
                return r;
            }
        }
        // ite(bit, x | k, x & !k): only differing bits need the condition
        if w > 1 && w <= 64 {
            if let (K::Concat(h1, l1), K::Concat(h2, l2)) = (self.n[a as usize].k, self.n[b as usize].k) {
                if self.w(l1) == self.w(l2) && (h1 == h2 || l1 == l2) {
                    let h = self.ite(c, h1, h2);
                    let l = self.ite(c, l1, l2);
                    return self.concat(h, l);
                }
            }
            if let Some(r) = self.ite_bits(c, a, b) {
                return r;
            }
        }
        self.mk(K::Ite(c, a, b), w)
    }
    /// Split an ite whose arms agree on a maximal prefix / suffix of bits.
    fn ite_bits(&mut self, c: E, a: E, b: E) -> Option<E> {
        let is_cat = |p: &Pool, e: E| matches!(p.n[e as usize].k, K::Concat(..));
        if !is_cat(self, a) && !is_cat(self, b) {
            return None;
        }
        let w = self.w(a);
        // candidate cut points: boundaries of the concatenations
        let mut cuts = vec![];
        for e in [a, b] {
            let mut x = e;
            let mut top = w;
            while let K::Concat(h, l) = self.n[x as usize].k {
                top -= self.w(h);
                cuts.push(top);
                x = l;
            }
        }
        cuts.push(0);
        cuts.push(w);
        cuts.sort_unstable();
        cuts.dedup();
        if cuts.len() <= 2 {
            return None;
        }
        let mut parts = vec![];
        let mut agree = false;
        for i in 0..cuts.len() - 1 {
            let (lo, n) = (cuts[i], cuts[i + 1] - cuts[i]);
            let x = self.extract(a, lo, n);
            let y = self.extract(b, lo, n);
            if x == y || n == 1 {
                agree = true;
            }
            parts.push((x, y));
        }
        if !agree {
            return None;
        }
        let mut r: Option<E> = None;
        for (x, y) in parts {
            let v = self.ite(c, x, y);
            r = Some(match r {
                None => v,
                Some(l) => self.concat(v, l),
            });
        }
        r
    }
    pub fn cmp(&mut self, p: Pred, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c(cpred(p, x, y, w) as u128, 1);
        }
        match p {
            Pred::Eq => self.eq(a, b),
            Pred::Ne => {
                let e = self.eq(a, b);
                self.not(e)
            }
            Pred::Ult => self.ult(a, b),
            Pred::Ugt => self.ult(b, a),
            Pred::Ule => {
                let e = self.ult(b, a);
                self.not(e)
            }
            Pred::Uge => {
                let e = self.ult(a, b);
                self.not(e)
            }
            Pred::Slt => self.slt(a, b),
            Pred::Sgt => self.slt(b, a),
            Pred::Sle => {
                let e = self.slt(b, a);
                self.not(e)
            }
            Pred::Sge => {
                let e = self.slt(a, b);
                self.not(e)
            }
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(1, 1);
        }
        let ((az, ao), (bz, bo)) = (self.kb(a), self.kb(b));
        if az & bo != 0 || ao & bz != 0 {
            return self.c(0, 1);
        }
        if w == 1 {
            let x = self.bin(Bin::Xor, a, b);
            return self.not(x);
        }
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.as_const(b) {
            match self.n[a as usize].k {
                K::Concat(h, l) => {
                    // split off constant/known parts
                    let lw = self.w(l);
                    let hc = self.c(c >> lw, w - lw);
                    let lc = self.c(c, lw);
                    let e1 = self.eq(h, hc);
                    let e2 = self.eq(l, lc);
                    return self.bin(Bin::And, e1, e2);
                }
                K::Add(x, y) => {
                    if let Some(c2) = self.as_const(y) {
                        let s = self.c(c.wrapping_sub(c2), w);
                        return self.eq(x, s);
                    }
                }
                K::Xor(x, y) => {
                    if let Some(c2) = self.as_const(y) {
                        let s = self.c(c ^ c2, w);
                        return self.eq(x, s);
                    }
                }
                K::Ite(cc, x, y) => {
                    if self.as_const(x).is_some() || self.as_const(y).is_some() {
                        let e1 = self.eq(x, b);
                        let e2 = self.eq(y, b);
                        return self.ite(cc, e1, e2);
                    }
                }
                K::SExt(x) => {
                    let xw = self.w(x);
                    let t = c & mask(xw);
                    if sext(t, xw) as u128 & mask(w) != c {
                        return self.c(0, 1);
                    }
                    let tc = self.c(t, xw);
                    return self.eq(x, tc);
                }
                _ => {}
            }
        } else if let (K::Concat(h1, l1), K::Concat(_, _)) = (self.n[a as usize].k, self.n[b as usize].k) {
            let lw = self.w(l1);
            let (h2, l2) = (self.extract(b, lw, w - lw), self.extract(b, 0, lw));
            let e1 = self.eq(h1, h2);
            let e2 = self.eq(l1, l2);
            return self.bin(Bin::And, e1, e2);
        }
        let (a, b) = if self.as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Eq(a, b), 1)
    }
    fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(0, 1);
        }
        let w = self.w(a);
        let ((az, ao), (bz, bo)) = (self.kb(a), self.kb(b));
        let m = mask(w);
        let (amin, amax, bmin, bmax) = (ao, !az & m, bo, !bz & m);
        if amax < bmin {
            return self.c(1, 1);
        }
        if amin >= bmax {
            return self.c(0, 1);
        }
        if self.as_const(b) == Some(1) {
            let z = self.c(0, w);
            return self.eq(a, z);
        }
        if self.as_const(a) == Some(0) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        if let Some(c) = self.as_const(b) {
            // a < 2^k  <=>  high bits are zero
            if c.is_power_of_two() {
                let k = c.trailing_zeros() as u8;
                let h = self.extract(a, k, w - k);
                let z = self.c(0, w - k);
                return self.eq(h, z);
            }
        }
        if let Some(c) = self.as_const(a) {
            // 2^k-1 < b  <=> high bits nonzero
            if (c + 1).is_power_of_two() {
                let k = (c + 1).trailing_zeros() as u8;
                let h = self.extract(b, k, w - k);
                let z = self.c(0, w - k);
                let e = self.eq(h, z);
                return self.not(e);
            }
        }
        // strip common known-zero high bits
        let hb = 128 - (amax | bmax).leading_zeros() as u8;
        if hb < w && hb > 0 {
            let x = self.extract(a, 0, hb);
            let y = self.extract(b, 0, hb);
            return self.ult(x, y);
        }
        self.mk(K::Ult(a, b), 1)
    }
    fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(0, 1);
        }
        let w = self.w(a);
        let s = 1u128 << (w - 1);
        let ((az, ao), (bz, bo)) = (self.kb(a), self.kb(b));
        if az & s != 0 && bz & s != 0 || ao & s != 0 && bo & s != 0 {
            return self.ult(a, b);
        }
        if az & s != 0 && bo & s != 0 {
            return self.c(0, 1);
        }
        if ao & s != 0 && bz & s != 0 {
            return self.c(1, 1);
        }
        if self.as_const(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.as_const(a) == Some(mask(w)) {
            let x = self.extract(b, w - 1, 1);
            return self.not(x);
        }
        self.mk(K::Slt(a, b), 1)
    }

    pub fn children(&self, e: E) -> [E; 3] {
        use K::*;
        match self.n[e as usize].k {
            Var(_) | Const(_) => [0, 0, 0],
            Add(a, b) | Sub(a, b) | Mul(a, b) | UDiv(a, b) | SDiv(a, b) | URem(a, b) | SRem(a, b)
            | Shl(a, b) | LShr(a, b) | AShr(a, b) | And(a, b) | Or(a, b) | Xor(a, b) | Concat(a, b)
            | Eq(a, b) | Ult(a, b) | Ule(a, b) | Slt(a, b) | Sle(a, b) => [a, b, 0],
            Extract(_, a) | SExt(a) => [a, 0, 0],
            Ite(a, b, c) => [a, b, c],
        }
    }

    /// Evaluate `e` under a model (one byte per variable); `model_id` keys the memo.
    pub fn eval(&mut self, e: E, model: &[u8], model_id: u64) -> u128 {
        if self.cur_model != model_id {
            self.cur_model = model_id;
            self.gen += 1;
        }
        if self.memo_gen.len() < self.n.len() {
            self.memo_gen.resize(self.n.len(), 0);
            self.memo_val.resize(self.n.len(), 0);
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.memo_gen[x as usize] == self.gen {
                stack.pop();
                continue;
            }
            let mut ready = true;
            for c in self.children(x) {
                if c != 0 && self.memo_gen[c as usize] != self.gen {
                    stack.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let v = self.eval1(x, model);
            self.memo_gen[x as usize] = self.gen;
            self.memo_val[x as usize] = v;
            stack.pop();
        }
        self.memo_val[e as usize]
    }
    fn eval1(&self, x: E, model: &[u8]) -> u128 {
        let n = self.n[x as usize];
        let v = |e: E| self.memo_val[e as usize];
        let w = n.w;
        let b2 = |op, a: E, b: E| cbin(op, v(a), v(b), w);
        use K::*;
        match n.k {
            Var(i) => *model.get(i as usize).unwrap_or(&0) as u128,
            Const(c) => c,
            Add(a, b) => b2(Bin::Add, a, b).unwrap(),
            Sub(a, b) => b2(Bin::Sub, a, b).unwrap(),
            Mul(a, b) => b2(Bin::Mul, a, b).unwrap(),
            // SMT-LIB: x udiv 0 = all ones, x urem 0 = x; signed likewise
            UDiv(a, b) => b2(Bin::UDiv, a, b).unwrap_or(mask(w)),
            URem(a, b) => b2(Bin::URem, a, b).unwrap_or(v(a)),
            SDiv(a, b) => b2(Bin::SDiv, a, b).unwrap_or(if sext(v(a), w) < 0 { 1 } else { mask(w) }),
            SRem(a, b) => b2(Bin::SRem, a, b).unwrap_or(v(a)),
            Shl(a, b) => b2(Bin::Shl, a, b).unwrap(),
            LShr(a, b) => b2(Bin::LShr, a, b).unwrap(),
            AShr(a, b) => b2(Bin::AShr, a, b).unwrap(),
            And(a, b) => v(a) & v(b),
            Or(a, b) => v(a) | v(b),
            Xor(a, b) => v(a) ^ v(b),
            Concat(a, b) => v(a) << self.w(b) | v(b),
            Extract(lo, a) => v(a) >> lo & mask(w),
            SExt(a) => sext(v(a), self.w(a)) as u128 & mask(w),
            Eq(a, b) => (v(a) == v(b)) as u128,
            Ult(a, b) => (v(a) < v(b)) as u128,
            Ule(a, b) => (v(a) <= v(b)) as u128,
            Slt(a, b) => cpred(Pred::Slt, v(a), v(b), self.w(a)) as u128,
            Sle(a, b) => cpred(Pred::Sle, v(a), v(b), self.w(a)) as u128,
            Ite(c, a, b) => {
                if v(c) == 1 {
                    v(a)
                } else {
                    v(b)
                }
            }
        }
    }
}

fn mask_or0(w: u8) -> u128 {
    if w == 0 {
        0
    } else {
        mask(w)
    }
}
