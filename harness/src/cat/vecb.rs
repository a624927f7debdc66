//! Collections that meet bits.
use super::vecs::*;
use super::*;

/// counted bytes off a byte boundary
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct VecNib {
    #[deku(bits = 4)]
    n: u8,
    #[deku(count = "n")]
    v: Vec<u8>,
    #[deku(bits = 4)]
    t: u8,
    #[deku(count = "1")]
    w: Vec<u8>,
}
impl Cat for VecNib {
    const MAX: usize = 5;
    const MIN: usize = 0;
    fn gen() -> Self {
        let n = pick(0, 2);
        VecNib { n: n as u8, v: many(n, u8_), t: sy(4) as u8, w: many(1, u8_) }
    }
    fn shape(d: &mut [u8]) {
        split(d, 0, 0xf0)
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u(4, true, false)? as u8;
        let v = some(c, n as usize, |c| c.u8())?;
        Ok(VecNib { n, v, t: c.u(4, true, false)? as u8, w: some(c, 1, |c| c.u8())? })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.n as u128, 4, true, false);
        for x in &self.v {
            o.u8(*x);
        }
        o.put(self.t as u128, 4, true, false);
        for x in &self.w {
            o.u8(*x);
        }
    }
}
/// counted bit fields
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct VecBits {
    #[deku(bits = 3)]
    n: u8,
    #[deku(bits = 3, count = "n")]
    v: Vec<u8>,
    #[deku(bits = 11, count = "*n & 1", endian = "big")]
    w: Vec<i16>,
    #[deku(count = "n", bits = 1)]
    b: Vec<bool>,
}
impl Cat for VecBits {
    const MAX: usize = 5;
    const MIN: usize = 2;
    fn gen() -> Self {
        let n = pick(0, 4);
        VecBits {
            n: n as u8,
            v: many(n, || sy(3) as u8),
            w: many(n & 1, || sext(sy(11), 11) as i16),
            b: many(n, bool_),
        }
    }
    fn shape(d: &mut [u8]) {
        split(d, 0, 0xe0)
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u(3, true, false)? as u8;
        let v = some(c, n as usize, |c| Ok(c.u(3, true, false)? as u8))?;
        let w = some(c, n as usize & 1, |c| Ok(c.i(11, true, false)? as i16))?;
        let b = some(c, n as usize, |c| Ok(c.u(1, true, false)? == 1))?;
        Ok(VecBits { n, v, w, b })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.n as u128, 3, true, false);
        for x in &self.v {
            o.put(*x as u128, 3, true, false);
        }
        for x in &self.w {
            o.put(two(*x as i128, 11), 11, true, false);
        }
        for x in &self.b {
            o.put(*x as u128, 1, true, false);
        }
    }
}
/// a bit budget
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct VecBitBudget {
    #[deku(bits = 5)]
    n: u8,
    #[deku(bits_read = "n", bits = 3)]
    v: Vec<u8>,
    #[deku(bits = 7)]
    t: u8,
}
impl Cat for VecBitBudget {
    const MAX: usize = 5;
    const MIN: usize = 0;
    fn gen() -> Self {
        let n = pick(0, 4);
        VecBitBudget { n: 3 * n as u8, v: many(n, || sy(3) as u8), t: sy(7) as u8 }
    }
    fn shape(d: &mut [u8]) {
        split(d, 0, 0xf8)
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u(5, true, false)? as u8;
        let v = budget(c, n as usize, |c| Ok(c.u(3, true, false)? as u8))?;
        Ok(VecBitBudget { n, v, t: c.u(7, true, false)? as u8 })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.n as u128, 5, true, false);
        for x in &self.v {
            o.put(*x as u128, 3, true, false);
        }
        o.put(self.t as u128, 7, true, false);
    }
}
/// the rest of the input, in nibbles
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct VecAllNib {
    #[deku(bits = 4)]
    a: u8,
    #[deku(read_all, bits = 4)]
    v: Vec<u8>,
}
impl Cat for VecAllNib {
    const ALL: bool = true;
    const MAX: usize = 3;
    const MIN: usize = 0;
    fn gen() -> Self {
        let n = 2 * pick(0, 2) + 1;
        VecAllNib { a: sy(4) as u8, v: many(n, || sy(4) as u8) }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u(4, true, false)? as u8;
        Ok(VecAllNib { a, v: all(c, |c| Ok(c.u(4, true, false)? as u8))? })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.a as u128, 4, true, false);
        for x in &self.v {
            o.put(*x as u128, 4, true, false);
        }
    }
}
/// least significant bits first
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(bit_order = "lsb")]
pub struct VecLsb {
    #[deku(bits = 4)]
    n: u8,
    #[deku(bits = 5, count = "*n & 3")]
    v: Vec<u8>,
    #[deku(count = "*n >> 2", endian = "big")]
    w: Vec<u16>,
    #[deku(bits = 3)]
    t: u8,
}
impl Cat for VecLsb {
    const LSB: bool = true;
    const MAX: usize = 7;
    const MIN: usize = 5;
    fn gen() -> Self {
        let (p, q) = (pick(0, 3), pick(0, 2));
        VecLsb { n: (q << 2 | p) as u8, v: many(p, || sy(5) as u8), w: many(q, u16_), t: sy(3) as u8 }
    }
    fn shape(d: &mut [u8]) {
        split(d, 0, 0xf)
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u(4, false, true)? as u8;
        let v = some(c, n as usize & 3, |c| Ok(c.u(5, false, true)? as u8))?;
        let w = some(c, n as usize >> 2, |c| Ok(c.u(16, true, true)? as u16))?;
        Ok(VecLsb { n, v, w, t: c.u(3, false, true)? as u8 })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.n as u128, 4, false, true);
        for x in &self.v {
            o.put(*x as u128, 5, false, true);
        }
        for x in &self.w {
            o.put(*x as u128, 16, true, true);
        }
        o.put(self.t as u128, 3, false, true);
    }
}
/// an end found among pairs of bit fields
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct VecUntilBits {
    #[deku(bits = 3)]
    a: u8,
    #[deku(until = "|v: &Pair| v.x == 0 && v.y == *a")]
    v: Vec<Pair>,
    #[deku(bits = 5, pad_bits_after = "3", until = "|v: &u8| *v == 0x1f")]
    w: Vec<u8>,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct Pair {
    #[deku(bits = 2)]
    x: u8,
    #[deku(bits = 3)]
    y: u8,
}
impl Cat for VecUntilBits {
    const MAX: usize = 4;
    const MIN: usize = 0;
    fn gen() -> Self {
        let a = sy(3) as u8;
        let mut v = many(pick(0, 1), || {
            let p = Pair { x: sy(2) as u8, y: sy(3) as u8 };
            assume(p.x != 0 || p.y != a);
            p
        });
        v.push(Pair { x: 0, y: a });
        let mut w = many(pick(0, 1), || {
            let x = sy(5) as u8;
            assume(x != 0x1f);
            x
        });
        w.push(0x1f);
        VecUntilBits { a, v, w }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u(3, true, false)? as u8;
        let v = until(
            c,
            |c| Ok(Pair { x: c.u(2, true, false)? as u8, y: c.u(3, true, false)? as u8 }),
            |v| v.x == 0 && v.y == a,
        )?;
        let w = until(c, |c| Ok(c.u(5, true, false)? as u8), |v| *v == 0x1f)?;
        c.pad(3)?;
        Ok(VecUntilBits { a, v, w })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.a as u128, 3, true, false);
        for p in &self.v {
            o.put(p.x as u128, 2, true, false);
            o.put(p.y as u128, 3, true, false);
        }
        for x in &self.w {
            o.put(*x as u128, 5, true, false);
        }
        o.pad(3);
    }
    const PADS: bool = true;
}

/// everything that is left, in elements of several bytes and of several parts
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct VecAllWide {
    #[deku(read_all, bytes = 3, endian = "big")]
    v: Vec<u32>,
}
impl Cat for VecAllWide {
    const ALL: bool = true;
    const MAX: usize = 7;
    const MIN: usize = 0;
    fn gen() -> Self {
        VecAllWide { v: many(pick(0, 2), || u32_() >> 8) }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(VecAllWide { v: all(c, |c| Ok(c.u(24, true, false)? as u32))? })
    }
    fn enc(&self, o: &mut O) {
        for x in &self.v {
            o.put(*x as u128, 24, true, false);
        }
    }
}
