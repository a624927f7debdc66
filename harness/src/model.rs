//! Reference semantics of the bit stream, written independently of deku.
//!
//! `Msb0`: stream bit i is bit 7-(i%8) of byte i/8.  `Lsb0`: bit i%8.
/// n stream bits from pos
#[inline(always)]
pub fn bit(d: &[u8], i: usize, lsb0: bool) -> u8 {
    if lsb0 {
        (d[i / 8] >> (i % 8)) & 1
    } else {
        (d[i / 8] >> (7 - i % 8)) & 1
    }
}
/// unsigned value of an n-bit field starting at stream bit `pos`
#[inline(always)]
pub fn dec(d: &[u8], pos: usize, n: usize, be: bool, lsb0: bool) -> u128 {
    // the field cut into byte groups in stream order; the last one may be short
    let mut out: u128 = 0;
    let groups = n.div_ceil(8);
    if !lsb0 && be {
        let mut i = 0;
        while i < n {
            out = (out << 1) | bit(d, pos + i, false) as u128;
            i += 1;
        }
        return out;
    }
    let mut g = 0;
    while g < groups {
        let len = if g * 8 + 8 <= n { 8 } else { n - g * 8 };
        let mut v: u8 = 0;
        let mut i = 0;
        while i < len {
            let b = bit(d, pos + g * 8 + i, lsb0);
            if lsb0 {
                v |= b << i;
            } else {
                v = (v << 1) | b;
            }
            i += 1;
        }
        let place = if be { groups - 1 - g } else { g };
        out |= (v as u128) << (8 * place);
        g += 1;
    }
    out
}
#[inline(always)]
pub fn mask(n: usize) -> u128 {
    if n >= 128 {
        !0
    } else {
        (1u128 << n) - 1
    }
}
/// two's complement value of the low n bits
#[inline(always)]
pub fn sext(v: u128, n: usize) -> i128 {
    if n == 0 || n >= 128 {
        v as i128
    } else {
        ((v << (128 - n)) as i128) >> (128 - n)
    }
}

/// why the reference refuses an input
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    /// not enough data
    Inc,
    /// an assertion attribute does not hold
    Assert,
    /// anything else that is invalid
    Parse,
}
/// reference read position
pub struct Cur<'a> {
    pub d: &'a [u8],
    /// bits present
    pub len: usize,
    pub pos: usize,
}
impl<'a> Cur<'a> {
    #[inline(always)]
    pub fn new(d: &'a [u8]) -> Self {
        Cur { d, len: d.len() * 8, pos: 0 }
    }
    #[inline(always)]
    pub fn at(d: &'a [u8], pos: usize) -> Self {
        Cur { d, len: d.len() * 8, pos }
    }
    #[inline(always)]
    pub fn u(&mut self, n: usize, be: bool, lsb0: bool) -> Result<u128, K> {
        if n > self.len - self.pos {
            return Err(K::Inc);
        }
        let v = dec(self.d, self.pos, n, be, lsb0);
        self.pos += n;
        Ok(v)
    }
    #[inline(always)]
    pub fn i(&mut self, n: usize, be: bool, lsb0: bool) -> Result<i128, K> {
        Ok(sext(self.u(n, be, lsb0)?, n))
    }
    #[inline(always)]
    pub fn u8(&mut self) -> Result<u8, K> {
        Ok(self.u(8, true, false)? as u8)
    }
    #[inline(always)]
    pub fn le16(&mut self) -> Result<u16, K> {
        Ok(self.u(16, false, false)? as u16)
    }
    #[inline(always)]
    pub fn be16(&mut self) -> Result<u16, K> {
        Ok(self.u(16, true, false)? as u16)
    }
    /// bits that carry no value; they may lie past the end
    #[inline(always)]
    pub fn pad(&mut self, n: usize) -> Result<(), K> {
        if n > self.len - self.pos {
            return Err(K::Inc);
        }
        self.pos += n;
        Ok(())
    }
    #[inline(always)]
    pub fn end(&self) -> bool {
        self.pos == self.len
    }
}
/// reference output
pub struct Out<const N: usize> {
    pub d: [u8; N],
    pub pos: usize,
}
impl<const N: usize> Out<N> {
    #[inline(always)]
    pub fn new() -> Self {
        Out { d: [0; N], pos: 0 }
    }
    #[inline(always)]
    fn set(&mut self, i: usize, b: u8, lsb0: bool) {
        self.d[i / 8] |= if lsb0 { b << (i % 8) } else { b << (7 - i % 8) };
    }
    #[inline(always)]
    pub fn put(&mut self, v: u128, n: usize, be: bool, lsb0: bool) {
        let groups = n.div_ceil(8);
        if be && !lsb0 {
            let mut i = 0;
            while i < n {
                self.set(self.pos + i, (v >> (n - 1 - i)) as u8 & 1, false);
                i += 1;
            }
        } else {
            let mut g = 0;
            while g < groups {
                let len = if g * 8 + 8 <= n { 8 } else { n - g * 8 };
                let place = if be { groups - 1 - g } else { g };
                let byte = (v >> (8 * place)) as u8;
                let mut i = 0;
                while i < len {
                    let b = if lsb0 { byte >> i } else { byte >> (len - 1 - i) };
                    self.set(self.pos + g * 8 + i, b & 1, lsb0);
                    i += 1;
                }
                g += 1;
            }
        }
        self.pos += n;
    }
    #[inline(always)]
    pub fn u8(&mut self, v: u8) {
        self.put(v as u128, 8, true, false)
    }
    #[inline(always)]
    pub fn le16(&mut self, v: u16) {
        self.put(v as u128, 16, false, false)
    }
    #[inline(always)]
    pub fn be16(&mut self, v: u16) {
        self.put(v as u128, 16, true, false)
    }
    #[inline(always)]
    pub fn pad(&mut self, n: usize) {
        self.pos += n;
    }
    /// whole bytes, the last one filled up with zero bits
    #[inline(always)]
    pub fn bytes(&self) -> usize {
        self.pos.div_ceil(8)
    }
}
