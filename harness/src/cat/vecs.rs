//! Collections and their limits.
use super::*;

#[inline(always)]
pub fn many<T>(n: usize, mut f: impl FnMut() -> T) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(f());
    }
    v
}
/// n elements; n may be more than there can be
#[inline(always)]
pub fn some<T>(c: &mut Cur, n: usize, mut f: impl FnMut(&mut Cur) -> Result<T, K>) -> Result<Vec<T>, K> {
    let mut v = Vec::new();
    while v.len() < n {
        v.push(f(c)?);
    }
    Ok(v)
}
/// elements until exactly `bits` have been taken
#[inline(always)]
pub fn budget<T>(c: &mut Cur, bits: usize, mut f: impl FnMut(&mut Cur) -> Result<T, K>) -> Result<Vec<T>, K> {
    let mut v = Vec::new();
    let s = c.pos;
    while c.pos - s != bits {
        v.push(f(c)?);
    }
    Ok(v)
}
#[inline(always)]
pub fn until<T>(
    c: &mut Cur,
    mut f: impl FnMut(&mut Cur) -> Result<T, K>,
    mut last: impl FnMut(&T) -> bool,
) -> Result<Vec<T>, K> {
    let mut v = Vec::new();
    loop {
        let x = f(c)?;
        let l = last(&x);
        v.push(x);
        if l {
            return Ok(v);
        }
    }
}
#[inline(always)]
pub fn all<T>(c: &mut Cur, mut f: impl FnMut(&mut Cur) -> Result<T, K>) -> Result<Vec<T>, K> {
    let mut v = Vec::new();
    while !c.end() {
        v.push(f(c)?);
    }
    Ok(v)
}

/// counted numbers
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "big")]
pub struct VecCnt {
    n: u8,
    #[deku(count = "n")]
    v: Vec<u16>,
    t: u8,
}
impl Cat for VecCnt {
    const MAX: usize = 6;
    const MIN: usize = 0;
    fn gen() -> Self {
        let n = pick(0, 2);
        VecCnt { n: n as u8, v: many(n, u16_), t: u8_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        Ok(VecCnt { n, v: some(c, n as usize, |c| c.be16())?, t: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.n);
        for x in &self.v {
            o.be16(*x);
        }
        o.u8(self.t);
    }
}
/// counted bytes; a huge count
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct VecBytes {
    #[deku(endian = "big")]
    n: u32,
    #[deku(count = "n")]
    v: Vec<u8>,
    t: u8,
}
impl Cat for VecBytes {
    const MAX: usize = 8;
    const MIN: usize = 3;
    fn gen() -> Self {
        let n = pick(0, 3);
        VecBytes { n: n as u32, v: many(n, u8_), t: u8_() }
    }
    fn shape(d: &mut [u8]) {
        // counts of 0 to 4 and counts with one of the upper two bytes not zero
        if d.len() >= 4 {
            let k = pick(0, 5) as u32;
            let n = u32::from_be_bytes([d[0], d[1], d[2], d[3]]);
            if k < 5 {
                assume(n == k);
                d[..4].copy_from_slice(&k.to_be_bytes());
            } else {
                assume(n >= 1 << 16);
            }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u(32, true, false)?;
        Ok(VecBytes { n: n as u32, v: some(c, n as usize, |c| c.u8())?, t: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.n as u128, 32, true, false);
        for x in &self.v {
            o.u8(*x);
        }
        o.u8(self.t);
    }
}
/// one element, counted without bound
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct VecHuge {
    #[deku(endian = "big")]
    n: u64,
    #[deku(count = "n", endian = "little")]
    v: Vec<u32>,
}
impl Cat for VecHuge {
    const MAX: usize = 13;
    const MIN: usize = 8;
    fn gen() -> Self {
        let n = pick(0, 2);
        VecHuge { n: n as u64, v: many(n, u32_) }
    }
    fn shape(d: &mut [u8]) {
        // counts of 0 to 3 and counts with one of the upper six bytes not zero
        if d.len() >= 8 {
            let k = pick(0, 4);
            let n = u64::from_be_bytes([d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]]);
            if k < 4 {
                assume(n == k as u64);
                d[..8].copy_from_slice(&(k as u64).to_be_bytes());
            } else {
                assume(n >= 1 << 16);
            }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u(64, true, false)? as u64;
        Ok(VecHuge { n, v: some(c, n as usize, |c| Ok(c.u(32, false, false)? as u32))? })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.n as u128, 64, true, false);
        for x in &self.v {
            o.put(*x as u128, 32, false, false);
        }
    }
}
/// a byte budget
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct VecBudget {
    n: u8,
    #[deku(bytes_read = "n", endian = "big")]
    v: Vec<u16>,
    t: u8,
}
impl Cat for VecBudget {
    const MAX: usize = 6;
    const MIN: usize = 0;
    fn gen() -> Self {
        let n = pick(0, 2);
        VecBudget { n: 2 * n as u8, v: many(n, u16_), t: u8_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        Ok(VecBudget { n, v: budget(c, n as usize * 8, |c| c.be16())?, t: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.n);
        for x in &self.v {
            o.be16(*x);
        }
        o.u8(self.t);
    }
}
/// elements of different sizes within a byte budget
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct VecMixed {
    n: u8,
    #[deku(bytes_read = "*n as usize")]
    v: Vec<Tlv>,
    t: u8,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct Tlv {
    k: u8,
    #[deku(cond = "*k & 1 == 1")]
    x: Option<u8>,
}
impl Tlv {
    fn gen() -> Self {
        let k = u8_();
        Tlv { k, x: if k & 1 == 1 { Some(u8_()) } else { None } }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let k = c.u8()?;
        Ok(Tlv { k, x: if k & 1 == 1 { Some(c.u8()?) } else { None } })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.k);
        if let Some(x) = self.x {
            o.u8(x);
        }
    }
}
impl Cat for VecMixed {
    const MAX: usize = 5;
    const MIN: usize = 0;
    fn gen() -> Self {
        let v = many(pick(0, 2), Tlv::gen);
        let mut n = 0;
        for x in &v {
            n += 1 + x.x.is_some() as u8;
        }
        VecMixed { n, v, t: u8_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        Ok(VecMixed { n, v: budget(c, n as usize * 8, Tlv::dec)?, t: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.n);
        for x in &self.v {
            x.enc(o);
        }
        o.u8(self.t);
    }
}
/// up to and including the element that ends it
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct VecUntil {
    a: u8,
    #[deku(until = "|v: &u8| *v == 0")]
    v: Vec<u8>,
    #[deku(until = "|v: &Tlv| v.x == Some(*a)")]
    w: Vec<Tlv>,
}
impl Cat for VecUntil {
    const MAX: usize = 5;
    const MIN: usize = 0;
    fn gen() -> Self {
        let a = u8_();
        let mut v = many(pick(0, 1), || {
            let x = u8_();
            assume(x != 0);
            x
        });
        v.push(0);
        let mut w = many(pick(0, 1), || {
            let x = Tlv::gen();
            assume(x.x != Some(a));
            x
        });
        w.push(Tlv { k: u8_() | 1, x: Some(a) });
        VecUntil { a, v, w }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u8()?;
        let v = until(c, |c| c.u8(), |v| *v == 0)?;
        let w = until(c, Tlv::dec, |v| v.x == Some(a))?;
        Ok(VecUntil { a, v, w })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.a);
        for x in &self.v {
            o.u8(*x);
        }
        for x in &self.w {
            x.enc(o);
        }
    }
}
/// everything that is left
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct VecAll {
    a: u8,
    #[deku(read_all, endian = "big")]
    v: Vec<u16>,
}
impl Cat for VecAll {
    const ALL: bool = true;
    const MAX: usize = 5;
    const MIN: usize = 0;
    fn gen() -> Self {
        VecAll { a: u8_(), v: many(pick(0, 2), u16_) }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(VecAll { a: c.u8()?, v: all(c, |c| c.be16())? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.a);
        for x in &self.v {
            o.be16(*x);
        }
    }
}
/// boxed slices and vectors of vectors
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct VecNest {
    n: u8,
    #[deku(count = "n")]
    v: Box<[Inner]>,
    #[deku(count = "1", endian = "big")]
    w: Vec<Box<u16>>,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct Inner {
    m: u8,
    #[deku(count = "*m as usize")]
    v: Vec<u8>,
}
impl Cat for VecNest {
    const MAX: usize = 6;
    const MIN: usize = 0;
    fn gen() -> Self {
        let n = pick(0, 2);
        VecNest {
            n: n as u8,
            v: many(n, || {
                let m = pick(0, 1);
                Inner { m: m as u8, v: many(m, u8_) }
            })
            .into_boxed_slice(),
            w: many(1, || Box::new(u16_())),
        }
    }
    fn shape(d: &mut [u8]) {
        only(d, 0, &[0, 1, 2, 3, 255]);
        let (mut p, mut i) = (1, 0);
        while p < d.len() && i < d[0] {
            only(d, p, &[0, 1, 2, 255]);
            p += 1 + d[p] as usize;
            i += 1;
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        let v = some(c, n as usize, |c| {
            let m = c.u8()?;
            Ok(Inner { m, v: some(c, m as usize, |c| c.u8())? })
        })?;
        Ok(VecNest { n, v: v.into_boxed_slice(), w: some(c, 1, |c| Ok(Box::new(c.be16()?)))? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.n);
        for x in self.v.iter() {
            o.u8(x.m);
            for y in &x.v {
                o.u8(*y);
            }
        }
        for x in &self.w {
            o.be16(**x);
        }
    }
}
/// elements that receive a context
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "big")]
pub struct VecCtx {
    n: u8,
    k: u8,
    #[deku(count = "*n & 3", ctx = "*k")]
    v: Vec<Ctxd>,
    #[deku(bytes = 3, count = "(*n >> 2) & 1")]
    w: Vec<u32>,
    #[deku(count = "(*n >> 3) & 1", ctx = "*n")]
    x: Vec<Ctxd>,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(ctx = "endian: deku::ctx::Endian, k: u8", endian = "endian")]
pub struct Ctxd {
    #[deku(map = "|x: u8| -> Result<_, DekuError> { Ok(x ^ k) }", writer = "(a ^ k).to_writer(deku::writer, ())")]
    a: u8,
    #[deku(cond = "k == 0xff")]
    b: Option<u16>,
}
impl Ctxd {
    fn gen(k: u8) -> Self {
        Ctxd { a: u8_(), b: if k == 0xff { Some(u16_()) } else { None } }
    }
    fn dec(c: &mut Cur, k: u8) -> Result<Self, K> {
        Ok(Ctxd { a: c.u8()? ^ k, b: if k == 0xff { Some(c.be16()?) } else { None } })
    }
    fn enc(&self, o: &mut O, k: u8) {
        o.u8(self.a ^ k);
        if let Some(b) = self.b {
            o.be16(b);
        }
    }
}
impl Cat for VecCtx {
    const MAX: usize = 9;
    const MIN: usize = 5;
    fn gen() -> Self {
        let (p, q, r) = (pick(0, 2), pick(0, 1), pick(0, 1));
        let n = (u8_() & 0xf0) | (r as u8) << 3 | (q as u8) << 2 | p as u8;
        let k = u8_();
        VecCtx {
            n,
            k,
            v: many(p, || Ctxd::gen(k)),
            w: many(q, || sy(24) as u32),
            x: many(r, || Ctxd::gen(n)),
        }
    }
    fn shape(d: &mut [u8]) {
        split(d, 0, 0xf)
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        let k = c.u8()?;
        let v = some(c, n as usize & 3, |c| Ctxd::dec(c, k))?;
        let w = some(c, n as usize >> 2 & 1, |c| Ok(c.u(24, true, false)? as u32))?;
        let x = some(c, n as usize >> 3 & 1, |c| Ctxd::dec(c, n))?;
        Ok(VecCtx { n, k, v, w, x })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.n);
        o.u8(self.k);
        for x in &self.v {
            x.enc(o, self.k);
        }
        for x in &self.w {
            o.put(*x as u128, 24, true, false);
        }
        for x in &self.x {
            x.enc(o, self.n);
        }
    }
}
