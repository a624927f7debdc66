//! Padding.
use super::*;

/// bytes before and after
#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Clone)]
#[deku(endian = "big")]
pub struct PadBytes {
    a: u8,
    #[deku(pad_bytes_before = "2")]
    b: u16,
    #[deku(pad_bytes_after = "1 + 1", endian = "little")]
    c: u16,
    #[deku(pad_bytes_before = "1", pad_bytes_after = "3")]
    d: i8,
}
impl Cat for PadBytes {
    const PADS: bool = true;
    const MAX: usize = 15;
    const MIN: usize = 12;
    fn gen() -> Self {
        PadBytes { a: u8_(), b: u16_(), c: u16_(), d: i8_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u8()?;
        c.pad(16)?;
        let b = c.be16()?;
        let cc = c.le16()?;
        c.pad(16)?;
        c.pad(8)?;
        let d = c.u8()? as i8;
        c.pad(24)?;
        Ok(PadBytes { a, b, c: cc, d })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.a);
        o.pad(16);
        o.be16(self.b);
        o.le16(self.c);
        o.pad(24);
        o.u8(self.d as u8);
        o.pad(24);
    }
}
/// an amount stated by an earlier field
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct PadDyn {
    n: u8,
    #[deku(pad_bytes_before = "*n as usize", pad_bytes_after = "(*n & 1) as usize")]
    b: u8,
    c: u8,
}
impl Cat for PadDyn {
    const PADS: bool = true;
    const MAX: usize = 7;
    const MIN: usize = 0;
    fn gen() -> Self {
        PadDyn { n: pick(0, 9) as u8, b: u8_(), c: u8_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        let mut k = 0;
        while k < n {
            c.pad(8)?;
            k += 1;
        }
        let b = c.u8()?;
        if n & 1 == 1 {
            c.pad(8)?;
        }
        Ok(PadDyn { n, b, c: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.n);
        let mut k = 0;
        while k < self.n {
            o.pad(8);
            k += 1;
        }
        o.u8(self.b);
        if self.n & 1 == 1 {
            o.pad(8);
        }
        o.u8(self.c);
    }
}
/// padding stays when its field is skipped or absent
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct PadCond {
    a: u8,
    #[deku(cond = "*a & 1 == 1", pad_bytes_before = "1", pad_bytes_after = "1")]
    b: Option<u8>,
    #[deku(skip, pad_bytes_after = "2")]
    c: u8,
    d: u8,
}
impl Cat for PadCond {
    const PADS: bool = true;
    const MAX: usize = 7;
    const MIN: usize = 0;
    fn gen() -> Self {
        let a = u8_();
        PadCond { a, b: if a & 1 == 1 { Some(u8_()) } else { None }, c: 0, d: u8_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u8()?;
        c.pad(8)?;
        let b = if a & 1 == 1 { Some(c.u8()?) } else { None };
        c.pad(8)?;
        c.pad(16)?;
        Ok(PadCond { a, b, c: 0, d: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.a);
        o.pad(8);
        if let Some(b) = self.b {
            o.u8(b);
        }
        o.pad(24);
        o.u8(self.d);
    }
}
/// bits, and bytes off a byte boundary
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Clone)]
pub struct PadBits {
    #[deku(bits = 3, pad_bits_after = "2")]
    a: u8,
    #[deku(pad_bits_before = "4", pad_bytes_before = "1", endian = "big")]
    b: u16,
    #[deku(bits = 1, pad_bits_before = "9", pad_bytes_after = "2", pad_bits_after = "3")]
    c: bool,
    d: u8,
    #[deku(bits = 4, pad_bits_after = "11", pad_bytes_after = "1")]
    e: i8,
}
#[cfg(feature = "cfg_bits_any")]
impl Cat for PadBits {
    const PADS: bool = true;
    const MAX: usize = 13;
    const MIN: usize = 9;
    fn gen() -> Self {
        PadBits { a: sy(3) as u8, b: u16_(), c: bool_(), d: u8_(), e: sext(sy(4), 4) as i8 }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u(3, true, false)? as u8;
        c.pad(2)?;
        c.pad(12)?;
        let b = c.be16()?;
        c.pad(9)?;
        let cc = c.u(1, true, false)? == 1;
        c.pad(19)?;
        let d = c.u8()?;
        let e = c.i(4, true, false)? as i8;
        c.pad(19)?;
        Ok(PadBits { a, b, c: cc, d, e })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.a as u128, 3, true, false);
        o.pad(14);
        o.be16(self.b);
        o.pad(9);
        o.put(self.c as u128, 1, true, false);
        o.pad(19);
        o.u8(self.d);
        o.put(two(self.e as i128, 4), 4, true, false);
        o.pad(19);
    }
}
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(bit_order = "lsb", endian = "little")]
pub struct PadLsb {
    #[deku(bits = 3, pad_bits_after = "2")]
    a: u8,
    #[deku(bits = 6, pad_bits_before = "10")]
    b: u8,
    #[deku(pad_bits_before = "3", pad_bytes_after = "1")]
    c: u16,
    #[deku(bits = 7)]
    d: u8,
}
#[cfg(feature = "cfg_bits_any")]
impl Cat for PadLsb {
    const PADS: bool = true;
    const LSB: bool = true;
    const MAX: usize = 8;
    const MIN: usize = 5;
    fn gen() -> Self {
        PadLsb { a: sy(3) as u8, b: sy(6) as u8, c: u16_(), d: sy(7) as u8 }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u(3, false, true)? as u8;
        c.pad(2)?;
        c.pad(10)?;
        let b = c.u(6, false, true)? as u8;
        c.pad(3)?;
        let cc = c.u(16, false, true)? as u16;
        c.pad(8)?;
        Ok(PadLsb { a, b, c: cc, d: c.u(7, false, true)? as u8 })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.a as u128, 3, false, true);
        o.pad(12);
        o.put(self.b as u128, 6, false, true);
        o.pad(3);
        o.put(self.c as u128, 16, false, true);
        o.pad(8);
        o.put(self.d as u128, 7, false, true);
    }
}
/// an amount of bits stated by an earlier field
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct PadDynBits {
    #[deku(bits = 4)]
    n: u8,
    #[deku(bits = 3, pad_bits_before = "*n as usize", pad_bits_after = "15 - *n as usize")]
    b: u8,
    #[deku(bits = 2)]
    c: u8,
}
#[cfg(feature = "cfg_bits_any")]
impl Cat for PadDynBits {
    const PADS: bool = true;
    const MAX: usize = 4;
    const MIN: usize = 0;
    fn gen() -> Self {
        PadDynBits { n: pick(0, 15) as u8, b: sy(3) as u8, c: sy(2) as u8 }
    }
    fn shape(d: &mut [u8]) {
        split(d, 0, 0xf0)
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u(4, true, false)? as u8;
        c.pad(n as usize)?;
        let b = c.u(3, true, false)? as u8;
        c.pad(15 - n as usize)?;
        Ok(PadDynBits { n, b, c: c.u(2, true, false)? as u8 })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.n as u128, 4, true, false);
        o.pad(self.n as usize);
        o.put(self.b as u128, 3, true, false);
        o.pad(15 - self.n as usize);
        o.put(self.c as u128, 2, true, false);
    }
}
