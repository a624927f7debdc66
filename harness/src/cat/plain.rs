//! Types that need neither bits nor an allocator.
use super::*;

/// byte orders and byte widths
#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Clone)]
#[deku(endian = "big")]
pub struct Ends {
    a: u16,
    #[deku(endian = "little")]
    b: u16,
    #[deku(bytes = 3)]
    c: u32,
    #[deku(endian = "little", bytes = 3)]
    d: i32,
    e: i16,
}
impl Cat for Ends {
    const MAX: usize = 13;
    fn gen() -> Self {
        Ends { a: u16_(), b: u16_(), c: sy(24) as u32, d: sext(sy(24), 24) as i32, e: i16_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(Ends {
            a: c.be16()?,
            b: c.le16()?,
            c: c.u(24, true, false)? as u32,
            d: c.i(24, false, false)? as i32,
            e: c.i(16, true, false)? as i16,
        })
    }
    fn enc(&self, o: &mut O) {
        o.be16(self.a);
        o.le16(self.b);
        o.put(self.c as u128, 24, true, false);
        o.put(self.d as u128, 24, false, false);
        o.be16(self.e as u16);
    }
}
/// no byte order stated: that of the target
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct Native {
    a: u8,
    b: u32,
    c: i8,
    d: [u16; 2],
    e: (u8, u16),
    f: bool,
    g: (),
}
impl Cat for Native {
    const MAX: usize = 15;
    fn gen() -> Self {
        Native { a: u8_(), b: u32_(), c: i8_(), d: [u16_(), u16_()], e: (u8_(), u16_()), f: bool_(), g: () }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u8()?;
        let b = c.u(32, false, false)? as u32;
        let cc = c.u8()? as i8;
        let d = [c.le16()?, c.le16()?];
        let e = (c.u8()?, c.le16()?);
        let f = match c.u8()? {
            0 => false,
            1 => true,
            _ => return Err(K::Parse),
        };
        Ok(Native { a, b, c: cc, d, e, f, g: () })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.a);
        o.put(self.b as u128, 32, false, false);
        o.u8(self.c as u8);
        o.le16(self.d[0]);
        o.le16(self.d[1]);
        o.u8(self.e.0);
        o.le16(self.e.1);
        o.u8(self.f as u8);
    }
}
/// bytes stated by an earlier field; 64 and 128 bit numbers
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "big")]
pub struct DynBytes {
    n: u8,
    #[deku(bytes = "*n as usize")]
    v: u32,
    w: u64,
}
impl Cat for DynBytes {
    const MAX: usize = 14;
    fn gen() -> Self {
        let n = pick(0, 4);
        DynBytes { n: n as u8, v: sy(32) as u32 & mask(8 * n) as u32, w: u64_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        if n > 4 {
            return Err(K::Parse);
        }
        let mut k = 0;
        while k < n as usize {
            k += 1;
        }
        Ok(DynBytes { n, v: c.u(8 * k, true, false)? as u32, w: c.u(64, true, false)? as u64 })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.n);
        let mut k = 0;
        while k < self.n as usize {
            k += 1;
        }
        o.put(self.v as u128, 8 * k, true, false);
        o.put(self.w as u128, 64, true, false);
    }
}
/// a child receives the byte order and its own context
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "big")]
pub struct Parent {
    x: u8,
    #[deku(ctx = "*x")]
    c: Child,
    #[deku(endian = "little", ctx = "x.wrapping_add(1)")]
    d: Child,
    k: Fixed,
    t: u16,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian, x: u8")]
pub struct Child {
    a: u16,
    #[deku(cond = "x & 1 == 1")]
    b: Option<u16>,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "little", ctx = "_: deku::ctx::Endian")]
pub struct Fixed {
    a: u16,
}
impl Parent {
    fn child(c: &mut Cur, be: bool, x: u8) -> Result<Child, K> {
        let a = c.u(16, be, false)? as u16;
        let b = if x & 1 == 1 { Some(c.u(16, be, false)? as u16) } else { None };
        Ok(Child { a, b })
    }
}
impl Cat for Parent {
    const MAX: usize = 12;
    fn gen() -> Self {
        let x = u8_();
        let b = if x & 1 == 1 { Some(u16_()) } else { None };
        let b2 = if x & 1 == 0 { Some(u16_()) } else { None };
        Parent { x, c: Child { a: u16_(), b }, d: Child { a: u16_(), b: b2 }, k: Fixed { a: u16_() }, t: u16_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let x = c.u8()?;
        let a = Parent::child(c, true, x)?;
        let d = Parent::child(c, false, x.wrapping_add(1))?;
        Ok(Parent { x, c: a, d, k: Fixed { a: c.le16()? }, t: c.be16()? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.x);
        o.be16(self.c.a);
        if let Some(b) = self.c.b {
            o.be16(b);
        }
        o.le16(self.d.a);
        if let Some(b) = self.d.b {
            o.le16(b);
        }
        o.le16(self.k.a);
        o.be16(self.t);
    }
}
/// conditional fields, each seeing the ones before it
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct Conds {
    a: u8,
    #[deku(cond = "*a == 0x01")]
    b: Option<u8>,
    #[deku(cond = "*b == Some(0xFF)")]
    c: Option<u8>,
    #[deku(skip, cond = "*a == 0x01", default = "Some(0x06)")]
    d: Option<u8>,
    e: u8,
}
impl Cat for Conds {
    const MAX: usize = 5;
    fn gen() -> Self {
        let a = u8_();
        let b = if a == 1 { Some(u8_()) } else { None };
        let c = if b == Some(0xff) { Some(u8_()) } else { None };
        let d = if a == 1 { Some(6) } else { Some(u8_()) };
        Conds { a, b, c, d, e: u8_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u8()?;
        let b = if a == 1 { Some(c.u8()?) } else { None };
        let cc = if b == Some(0xff) { Some(c.u8()?) } else { None };
        let d = if a == 1 { Some(6) } else { Some(c.u8()?) };
        Ok(Conds { a, b, c: cc, d, e: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.a);
        for x in [self.b, self.c] {
            if let Some(x) = x {
                o.u8(x);
            }
        }
        if self.a != 1 {
            o.u8(self.d.unwrap());
        }
        o.u8(self.e);
    }
}
/// magic before the type and before a field, assertions
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(magic = b"dk")]
pub struct Magic {
    #[deku(assert = "*a >= 8")]
    a: u8,
    #[deku(magic = b"\x00z", assert_eq = "0x0102", endian = "big")]
    b: u16,
    c: bool,
    #[deku(assert = "*d != *a && *b == 0x0102")]
    d: u8,
}
impl Cat for Magic {
    const MAX: usize = 9;
    fn gen() -> Self {
        let (a, d) = (u8_(), u8_());
        assume(a >= 8 && d != a);
        Magic { a, b: 0x0102, c: bool_(), d }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        for m in *b"dk" {
            if c.u8()? != m {
                return Err(K::Parse);
            }
        }
        let a = c.u8()?;
        if a < 8 {
            return Err(K::Assert);
        }
        for m in [0, b'z'] {
            if c.u8()? != m {
                return Err(K::Parse);
            }
        }
        let b = c.be16()?;
        if b != 0x0102 {
            return Err(K::Assert);
        }
        let f = match c.u8()? {
            0 => false,
            1 => true,
            _ => return Err(K::Parse),
        };
        let d = c.u8()?;
        if d == a {
            return Err(K::Assert);
        }
        Ok(Magic { a, b, c: f, d })
    }
    fn enc(&self, o: &mut O) {
        o.u8(b'd');
        o.u8(b'k');
        o.u8(self.a);
        o.u8(0);
        o.u8(b'z');
        o.be16(self.b);
        o.u8(self.c as u8);
        o.u8(self.d);
    }
}
/// one byte id, several shapes of variant
#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Clone)]
#[deku(id_type = "u8", endian = "big")]
pub enum Id8 {
    #[deku(id = 0x01)]
    A(u8),
    #[deku(id = 0x02)]
    B { x: u16, y: u8 },
    #[deku(id = 0xFF)]
    C,
    #[deku(id = 0x80)]
    D(u8, #[deku(endian = "little")] u16),
}
impl Cat for Id8 {
    const MAX: usize = 5;
    fn gen() -> Self {
        match pick(0, 3) {
            0 => Id8::A(u8_()),
            1 => Id8::B { x: u16_(), y: u8_() },
            2 => Id8::C,
            _ => Id8::D(u8_(), u16_()),
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(match c.u8()? {
            1 => Id8::A(c.u8()?),
            2 => Id8::B { x: c.be16()?, y: c.u8()? },
            0xff => Id8::C,
            0x80 => Id8::D(c.u8()?, c.le16()?),
            _ => return Err(K::Parse),
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            Id8::A(a) => {
                o.u8(1);
                o.u8(*a);
            }
            Id8::B { x, y } => {
                o.u8(2);
                o.be16(*x);
                o.u8(*y);
            }
            Id8::C => o.u8(0xff),
            Id8::D(a, b) => {
                o.u8(0x80);
                o.u8(*a);
                o.le16(*b);
            }
        }
    }
}
