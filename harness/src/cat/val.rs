//! Types whose values are constrained.
use super::*;
use core::num::*;

#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "big")]
pub struct NonZero {
    pub a: NonZeroU8,
    #[deku(endian = "little")]
    pub b: NonZeroU16,
    pub c: NonZeroI32,
    pub d: bool,
}
fn nz(v: u128) -> Result<u128, K> {
    if v == 0 {
        Err(K::Parse)
    } else {
        Ok(v)
    }
}
fn nonzero(n: usize) -> u128 {
    let v = sy(n);
    assume(v != 0);
    v
}
fn flag(v: u128) -> Result<bool, K> {
    match v {
        0 => Ok(false),
        1 => Ok(true),
        _ => Err(K::Parse),
    }
}
impl Cat for NonZero {
    const MAX: usize = 8;
    const MIN: usize = 7;
    fn gen() -> Self {
        NonZero {
            a: NonZeroU8::new(nonzero(8) as u8).unwrap(),
            b: NonZeroU16::new(nonzero(16) as u16).unwrap(),
            c: NonZeroI32::new(nonzero(32) as i32).unwrap(),
            d: bool_(),
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(NonZero {
            a: NonZeroU8::new(nz(c.u8()? as u128)? as u8).unwrap(),
            b: NonZeroU16::new(nz(c.le16()? as u128)? as u16).unwrap(),
            c: NonZeroI32::new(nz(c.u(32, true, false)?)? as i32).unwrap(),
            d: flag(c.u8()? as u128)?,
        })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.a.get());
        o.le16(self.b.get());
        o.put(self.c.get() as u32 as u128, 32, true, false);
        o.u8(self.d as u8);
    }
}
/// every kind of condition on the value of a field
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(magic = b"\x01\xff\x01")]
pub struct Asserts {
    pub a: u8,
    #[deku(assert = "*b > *a && *b - *a < 0x40")]
    pub b: u8,
    #[deku(assert_eq = "a.wrapping_add(*b)")]
    pub c: u8,
    #[deku(magic = b"m", assert = "e[0] <= e[1]")]
    pub e: [u8; 2],
    #[deku(cond = "*a == 9", assert = "f.map_or(true, |x| x < 100)")]
    pub f: Option<u8>,
}
impl Asserts {
    fn ok(a: u8, b: u8) -> bool {
        b > a && b - a < 0x40
    }
}
impl Cat for Asserts {
    const MAX: usize = 10;
    const MIN: usize = 0;
    fn gen() -> Self {
        let (a, b, e) = (u8_(), u8_(), [u8_(), u8_()]);
        assume(Asserts::ok(a, b) && e[0] <= e[1]);
        let f = if a == 9 { Some(u8_()) } else { None };
        assume(f.map_or(true, |x| x < 100));
        Asserts { a, b, c: a.wrapping_add(b), e, f }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        for m in [1, 0xff, 1] {
            if c.u8()? != m {
                return Err(K::Parse);
            }
        }
        let a = c.u8()?;
        let b = c.u8()?;
        if !Asserts::ok(a, b) {
            return Err(K::Assert);
        }
        let cc = c.u8()?;
        if cc != a.wrapping_add(b) {
            return Err(K::Assert);
        }
        if c.u8()? != b'm' {
            return Err(K::Parse);
        }
        let e = [c.u8()?, c.u8()?];
        if e[0] > e[1] {
            return Err(K::Assert);
        }
        let f = if a == 9 { Some(c.u8()?) } else { None };
        if f.map_or(false, |x| x >= 100) {
            return Err(K::Assert);
        }
        Ok(Asserts { a, b, c: cc, e, f })
    }
    fn enc(&self, o: &mut O) {
        for m in [1, 0xff, 1, self.a, self.b, self.c, b'm', self.e[0], self.e[1]] {
            o.u8(m);
        }
        if let Some(f) = self.f {
            o.u8(f);
        }
    }
}
#[cfg(all(feature = "cfg_bits_any", feature = "cfg_alloc_any"))]
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct ValBits {
    #[deku(bits = 2)]
    pub a: bool,
    #[deku(bits = 3, endian = "big")]
    pub b: NonZeroU8,
    #[deku(bits = 9, endian = "big")]
    pub c: NonZeroI16,
    #[deku(bits = 1)]
    pub d: [bool; 2],
    #[deku(assert_eq = "0xa5")]
    pub e: u8,
    #[deku(bits = 4, assert = "*f != 0xf")]
    pub f: u8,
    #[deku(magic = b"\xf0\x0f", bits = 4)]
    pub g: u8,
}
#[cfg(all(feature = "cfg_bits_any", feature = "cfg_alloc_any"))]
impl Cat for ValBits {
    const MAX: usize = 6;
    const MIN: usize = 0;
    fn gen() -> Self {
        let f = sy(4) as u8;
        assume(f != 0xf);
        ValBits {
            a: bool_(),
            b: NonZeroU8::new(nonzero(3) as u8).unwrap(),
            c: NonZeroI16::new(sext(nonzero(9), 9) as i16).unwrap(),
            d: [bool_(), bool_()],
            e: 0xa5,
            f,
            g: sy(4) as u8,
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = flag(c.u(2, true, false)?)?;
        let b = NonZeroU8::new(nz(c.u(3, true, false)?)? as u8).unwrap();
        let cc = c.i(9, true, false)?;
        nz(cc as u128)?;
        let d = [c.u(1, true, false)? == 1, c.u(1, true, false)? == 1];
        let e = c.u8()?;
        if e != 0xa5 {
            return Err(K::Assert);
        }
        let f = c.u(4, true, false)? as u8;
        if f == 0xf {
            return Err(K::Assert);
        }
        for m in [0xf0, 0x0f] {
            if c.u8()? != m {
                return Err(K::Parse);
            }
        }
        Ok(ValBits { a, b, c: NonZeroI16::new(cc as i16).unwrap(), d, e, f, g: c.u(4, true, false)? as u8 })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.a as u128, 2, true, false);
        o.put(self.b.get() as u128, 3, true, false);
        o.put(two(self.c.get() as i128, 9), 9, true, false);
        o.put(self.d[0] as u128, 1, true, false);
        o.put(self.d[1] as u128, 1, true, false);
        o.u8(self.e);
        o.put(self.f as u128, 4, true, false);
        o.u8(0xf0);
        o.u8(0x0f);
        o.put(self.g as u128, 4, true, false);
    }
}
/// strings that end with a zero, or have a stated length
#[cfg(feature = "cfg_default")]
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct Strs {
    pub a: std::ffi::CString,
    n: u8,
    #[deku(bytes = "*n as usize")]
    pub b: std::ffi::CString,
    t: u8,
}
#[cfg(feature = "cfg_default")]
fn cstr(c: &mut Cur, n: Option<usize>) -> Result<std::ffi::CString, K> {
    let mut v = Vec::new();
    let mut k = 0;
    loop {
        if n == Some(k) {
            return Err(K::Parse);
        }
        let b = c.u8()?;
        k += 1;
        if b == 0 {
            break;
        }
        v.push(b);
    }
    match n {
        Some(n) if n != k => Err(K::Parse),
        _ => Ok(unsafe { std::ffi::CString::from_vec_unchecked(v) }),
    }
}
#[cfg(feature = "cfg_default")]
fn anystr(n: usize) -> std::ffi::CString {
    let mut v = Vec::with_capacity(n + 1);
    for _ in 0..n {
        v.push(nonzero(8) as u8);
    }
    unsafe { std::ffi::CString::from_vec_unchecked(v) }
}
#[cfg(feature = "cfg_default")]
impl Cat for Strs {
    const MAX: usize = 6;
    const MIN: usize = 0;
    fn gen() -> Self {
        let n = pick(0, 2);
        Strs { a: anystr(pick(0, 2)), n: n as u8 + 1, b: anystr(n), t: u8_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = cstr(c, None)?;
        let n = c.u8()?;
        // all of the stated bytes are needed before their content matters
        if n as usize * 8 > c.len - c.pos {
            return Err(K::Inc);
        }
        let b = cstr(c, Some(n as usize))?;
        Ok(Strs { a, n, b, t: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        for b in self.a.as_bytes_with_nul() {
            o.u8(*b);
        }
        o.u8(self.n);
        for b in self.b.as_bytes_with_nul() {
            o.u8(*b);
        }
        o.u8(self.t);
    }
}
