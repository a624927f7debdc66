//! Bit fields and the attributes of fields.
use super::*;

#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Clone)]
#[deku(endian = "big")]
pub struct Bits {
    #[deku(bits = 3)]
    a: u8,
    #[deku(bits = 1)]
    b: bool,
    #[deku(bits = 12)]
    c: u16,
    #[deku(bits = 5)]
    d: i8,
    #[deku(bits = 11)]
    e: i16,
    f: u16,
}
impl Cat for Bits {
    const MAX: usize = 7;
    fn gen() -> Self {
        Bits {
            a: sy(3) as u8,
            b: bool_(),
            c: sy(12) as u16,
            d: sext(sy(5), 5) as i8,
            e: sext(sy(11), 11) as i16,
            f: u16_(),
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(Bits {
            a: c.u(3, true, false)? as u8,
            b: c.u(1, true, false)? == 1,
            c: c.u(12, true, false)? as u16,
            d: c.i(5, true, false)? as i8,
            e: c.i(11, true, false)? as i16,
            f: c.be16()?,
        })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.a as u128, 3, true, false);
        o.put(self.b as u128, 1, true, false);
        o.put(self.c as u128, 12, true, false);
        o.put(two(self.d as i128, 5), 5, true, false);
        o.put(two(self.e as i128, 11), 11, true, false);
        o.be16(self.f);
    }
}
/// little endian odd widths, ending off a byte boundary
#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Clone)]
#[deku(endian = "little")]
pub struct BitsLe {
    #[deku(bits = 3)]
    a: u8,
    #[deku(bits = 13)]
    b: u16,
    c: u16,
    #[deku(bits = 20)]
    d: u32,
    #[deku(bits = 9)]
    e: i16,
}
impl Cat for BitsLe {
    const MAX: usize = 9;
    fn gen() -> Self {
        BitsLe { a: sy(3) as u8, b: sy(13) as u16, c: u16_(), d: sy(20) as u32, e: sext(sy(9), 9) as i16 }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(BitsLe {
            a: c.u(3, false, false)? as u8,
            b: c.u(13, false, false)? as u16,
            c: c.le16()?,
            d: c.u(20, false, false)? as u32,
            e: c.i(9, false, false)? as i16,
        })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.a as u128, 3, false, false);
        o.put(self.b as u128, 13, false, false);
        o.le16(self.c);
        o.put(self.d as u128, 20, false, false);
        o.put(two(self.e as i128, 9), 9, false, false);
    }
}
#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Clone)]
#[deku(endian = "little", bit_order = "lsb")]
pub struct LsbLe {
    #[deku(bits = 4)]
    a: u8,
    #[deku(bits = 12)]
    b: u16,
    c: u8,
    #[deku(bits = 3)]
    d: i8,
    e: u16,
    #[deku(bits = 5)]
    f: u8,
}
impl Cat for LsbLe {
    const LSB: bool = true;
    const MAX: usize = 7;
    fn gen() -> Self {
        LsbLe { a: sy(4) as u8, b: sy(12) as u16, c: u8_(), d: sext(sy(3), 3) as i8, e: u16_(), f: sy(5) as u8 }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(LsbLe {
            a: c.u(4, false, true)? as u8,
            b: c.u(12, false, true)? as u16,
            c: c.u(8, false, true)? as u8,
            d: c.i(3, false, true)? as i8,
            e: c.u(16, false, true)? as u16,
            f: c.u(5, false, true)? as u8,
        })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.a as u128, 4, false, true);
        o.put(self.b as u128, 12, false, true);
        o.put(self.c as u128, 8, false, true);
        o.put(two(self.d as i128, 3), 3, false, true);
        o.put(self.e as u128, 16, false, true);
        o.put(self.f as u128, 5, false, true);
    }
}
#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Clone)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct LsbBe {
    #[deku(bits = 13)]
    a: u16,
    #[deku(bits = 3)]
    b: u8,
    c: u16,
    #[deku(bits = 6)]
    d: u8,
    #[deku(bytes = 3)]
    e: u32,
}
impl Cat for LsbBe {
    const LSB: bool = true;
    const MAX: usize = 9;
    fn gen() -> Self {
        let a = u16_();
        // what 13 bits hold in this layout: a whole byte, then five bits
        assume(a & 0xff < 32);
        LsbBe { a, b: sy(3) as u8, c: u16_(), d: sy(6) as u8, e: sy(24) as u32 }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(LsbBe {
            a: c.u(13, true, true)? as u16,
            b: c.u(3, true, true)? as u8,
            c: c.u(16, true, true)? as u16,
            d: c.u(6, true, true)? as u8,
            e: c.u(24, true, true)? as u32,
        })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.a as u128, 13, true, true);
        o.put(self.b as u128, 3, true, true);
        o.put(self.c as u128, 16, true, true);
        o.put(self.d as u128, 6, true, true);
        o.put(self.e as u128, 24, true, true);
    }
}
/// a width stated by an earlier field
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct DynBits {
    n: u8,
    #[deku(bits = "*n as usize", endian = "big")]
    v: u16,
    #[deku(bits = "(*n as usize + 1) / 2")]
    s: i8,
    t: u8,
}
impl Cat for DynBits {
    const MAX: usize = 6;
    fn gen() -> Self {
        let n = pick(0, 16);
        let k = (n + 1) / 2;
        DynBits { n: n as u8, v: sy(n) as u16, s: sext(sy(k), k) as i8, t: u8_() }
    }
    fn shape(d: &mut [u8]) {
        small(d, 0, 17)
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        if n > 16 {
            return Err(K::Parse);
        }
        let mut k = 0;
        while k < n as usize {
            k += 1;
        }
        Ok(DynBits {
            n,
            v: c.u(k, true, false)? as u16,
            s: c.i((k + 1) / 2, true, false)? as i8,
            t: c.u8()?,
        })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.n);
        let mut k = 0;
        while k < self.n as usize {
            k += 1;
        }
        o.put(self.v as u128, k, true, false);
        o.put(two(self.s as i128, (k + 1) / 2), (k + 1) / 2, true, false);
        o.u8(self.t);
    }
}
/// children receive byte order, bit order and width
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "big")]
pub struct BitParent {
    #[deku(bits = 4)]
    h: u8,
    c: BitChild,
    #[deku(bits = 5)]
    w: Width,
    #[deku(bits = 2)]
    z: [u8; 3],
    t: (u8, u16),
    #[deku(bits = 1)]
    p: (bool, u8),
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct BitChild {
    #[deku(bits = 10)]
    a: u16,
    b: u16,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(ctx = "endian: deku::ctx::Endian, size: deku::ctx::BitSize")]
pub struct Width {
    #[deku(bits = "size.0", endian = "endian")]
    v: u8,
    #[deku(bits = "size.0 - 4")]
    u: u8,
}
impl Cat for BitParent {
    const MAX: usize = 10;
    fn gen() -> Self {
        BitParent {
            h: sy(4) as u8,
            c: BitChild { a: sy(10) as u16, b: u16_() },
            w: Width { v: sy(5) as u8, u: sy(1) as u8 },
            z: [sy(2) as u8, sy(2) as u8, sy(2) as u8],
            t: (u8_(), u16_()),
            p: (bool_(), sy(1) as u8),
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let h = c.u(4, true, false)? as u8;
        let ch = BitChild { a: c.u(10, true, false)? as u16, b: c.be16()? };
        let w = Width { v: c.u(5, true, false)? as u8, u: c.u(1, true, false)? as u8 };
        let z = [c.u(2, true, false)? as u8, c.u(2, true, false)? as u8, c.u(2, true, false)? as u8];
        let t = (c.u8()?, c.be16()?);
        let p = (c.u(1, true, false)? == 1, c.u(1, true, false)? as u8);
        Ok(BitParent { h, c: ch, w, z, t, p })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.h as u128, 4, true, false);
        o.put(self.c.a as u128, 10, true, false);
        o.be16(self.c.b);
        o.put(self.w.v as u128, 5, true, false);
        o.put(self.w.u as u128, 1, true, false);
        for z in self.z {
            o.put(z as u128, 2, true, false);
        }
        o.u8(self.t.0);
        o.be16(self.t.1);
        o.put(self.p.0 as u128, 1, true, false);
        o.put(self.p.1 as u128, 1, true, false);
    }
}
/// a generic field
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct Gen<T>
where
    T: deku::DekuWriter + for<'a> deku::DekuReader<'a>,
{
    #[deku(bits = 4)]
    a: u8,
    b: T,
    #[deku(cond = "*a != 0")]
    c: Option<T>,
}
pub type GenU16 = Gen<u16>;
impl Cat for Gen<u16> {
    const MAX: usize = 6;
    fn gen() -> Self {
        let a = sy(4) as u8;
        Gen { a, b: u16_(), c: if a != 0 { Some(u16_()) } else { None } }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u(4, true, false)? as u8;
        Ok(Gen { a, b: c.le16()?, c: if a != 0 { Some(c.le16()?) } else { None } })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.a as u128, 4, true, false);
        o.le16(self.b);
        if self.a != 0 {
            o.le16(self.c.unwrap());
        }
    }
}
/// mapped and custom coded
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct Custom {
    #[deku(bits = 4)]
    a: u8,
    #[deku(
        reader = "Custom::read(deku::reader, *a)",
        writer = "Custom::write(deku::writer, &self.b, *a)"
    )]
    b: (u8, u8),
    #[deku(
        map = "|x: u16| -> Result<_, DekuError> { if x == 7 { Err(DekuError::InvalidParam(\"seven\".into())) } else { Ok(x as u32 + 1) } }",
        endian = "big",
        writer = "((*c - 1) as u16).to_writer(deku::writer, Endian::Big)"
    )]
    c: u32,
    #[deku(bits = 4)]
    d: u8,
}
impl Custom {
    fn read<R: deku::no_std_io::Read + deku::no_std_io::Seek>(r: &mut Reader<R>, a: u8) -> Result<(u8, u8), DekuError> {
        let x = u8::from_reader_with_ctx(r, BitSize(8))?;
        let y = u8::from_reader_with_ctx(r, ())?;
        Ok((x ^ a, y))
    }
    fn write<W: deku::no_std_io::Write + deku::no_std_io::Seek>(w: &mut Writer<W>, b: &(u8, u8), a: u8) -> Result<(), DekuError> {
        (b.0 ^ a).to_writer(w, ())?;
        b.1.to_writer(w, ())
    }
}
impl Cat for Custom {
    const MAX: usize = 6;
    fn gen() -> Self {
        let c = u16_();
        assume(c != 7);
        Custom { a: sy(4) as u8, b: (u8_(), u8_()), c: c as u32 + 1, d: sy(4) as u8 }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u(4, true, false)? as u8;
        let b = (c.u8()? ^ a, c.u8()?);
        let x = c.be16()?;
        if x == 7 {
            return Err(K::Parse);
        }
        Ok(Custom { a, b, c: x as u32 + 1, d: c.u(4, true, false)? as u8 })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.a as u128, 4, true, false);
        o.u8(self.b.0 ^ self.a);
        o.u8(self.b.1);
        o.be16((self.c - 1) as u16);
        o.put(self.d as u128, 4, true, false);
    }
}
/// a temporary field that others depend on
#[deku_derive(DekuRead, DekuWrite)]
#[derive(PartialEq, Clone)]
#[deku(endian = "big")]
pub struct Temp {
    #[deku(temp, temp_value = "b.is_some() as u8", bits = 4)]
    f: u8,
    #[deku(bits = 4)]
    a: u8,
    #[deku(cond = "*f == 1")]
    b: Option<u16>,
    #[deku(temp, temp_value = "*a as u16 ^ 0x0fff")]
    m: u16,
    c: u8,
}
impl Cat for Temp {
    const MAX: usize = 7;
    fn gen() -> Self {
        Temp { a: sy(4) as u8, b: if bool_() { Some(u16_()) } else { None }, c: u8_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let f = c.u(4, true, false)?;
        let a = c.u(4, true, false)? as u8;
        let b = if f == 1 { Some(c.be16()?) } else { None };
        c.be16()?;
        Ok(Temp { a, b, c: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.b.is_some() as u128, 4, true, false);
        o.put(self.a as u128, 4, true, false);
        if let Some(b) = self.b {
            o.be16(b);
        }
        o.be16(self.a as u16 ^ 0xfff);
        o.u8(self.c);
    }
}
/// skipped in both directions, in one, conditionally
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct Skips {
    a: u8,
    #[deku(skip, default = "a.wrapping_mul(3)")]
    b: u8,
    #[deku(skip)]
    c: Option<u16>,
    #[deku(skip(read), default = "*b ^ 0x5a")]
    d: u8,
    #[deku(skip(write))]
    e: u8,
    #[deku(bits = 3)]
    f: u8,
}
impl Cat for Skips {
    const MAX: usize = 4;
    fn gen() -> Self {
        Skips { a: u8_(), b: u8_(), c: if bool_() { Some(u16_()) } else { None }, d: u8_(), e: u8_(), f: sy(3) as u8 }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u8()?;
        let b = a.wrapping_mul(3);
        Ok(Skips { a, b, c: None, d: b ^ 0x5a, e: c.u8()?, f: c.u(3, true, false)? as u8 })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.a);
        o.u8(self.d);
        o.put(self.f as u128, 3, true, false);
    }
}
/// the byte order decided by the data
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct DynEnd {
    #[deku(bits = 1)]
    be: bool,
    #[deku(bits = 7)]
    x: u8,
    #[deku(ctx = "*be")]
    body: DynBody,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(ctx = "be: bool", endian = "if be { deku::ctx::Endian::Big } else { deku::ctx::Endian::Little }")]
pub struct DynBody {
    a: u16,
    #[deku(bits = 12)]
    b: u16,
    #[deku(bits = 20)]
    c: i32,
}
impl Cat for DynEnd {
    const MAX: usize = 8;
    fn gen() -> Self {
        DynEnd {
            be: bool_(),
            x: sy(7) as u8,
            body: DynBody { a: u16_(), b: sy(12) as u16, c: sext(sy(20), 20) as i32 },
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let be = c.u(1, true, false)? == 1;
        let x = c.u(7, true, false)? as u8;
        let body = if be {
            DynBody { a: c.be16()?, b: c.u(12, true, false)? as u16, c: c.i(20, true, false)? as i32 }
        } else {
            DynBody { a: c.le16()?, b: c.u(12, false, false)? as u16, c: c.i(20, false, false)? as i32 }
        };
        Ok(DynEnd { be, x, body })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.be as u128, 1, true, false);
        o.put(self.x as u128, 7, true, false);
        if self.be {
            o.be16(self.body.a);
            o.put(self.body.b as u128, 12, true, false);
            o.put(two(self.body.c as i128, 20), 20, true, false);
        } else {
            o.le16(self.body.a);
            o.put(self.body.b as u128, 12, false, false);
            o.put(two(self.body.c as i128, 20), 20, false, false);
        }
    }
}
