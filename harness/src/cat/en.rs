//! Enums: how the id is found, stored and written.
use super::*;

/// ranges whose id is stored, and a catch-all
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "u8", endian = "big")]
pub enum IdPat {
    #[deku(id = 0x01)]
    A(u8),
    #[deku(id_pat = "0x10..=0x1f")]
    B { id: u8, x: u16 },
    #[deku(id = "0x42")]
    C { y: u8 },
    #[deku(id_pat = "0x02 | 0x80..=0xfe")]
    D(u8, u8),
    #[deku(id_pat = "_")]
    E { id: u8 },
}
fn idpat(id: u8) -> usize {
    match id {
        1 => 0,
        0x10..=0x1f => 1,
        0x42 => 2,
        2 | 0x80..=0xfe => 3,
        _ => 4,
    }
}
impl Cat for IdPat {
    const MAX: usize = 4;
    const MIN: usize = 0;
    fn gen() -> Self {
        let id = u8_();
        let k = pick(0, 4);
        assume(idpat(id) == k);
        match k {
            0 => IdPat::A(u8_()),
            1 => IdPat::B { id, x: u16_() },
            2 => IdPat::C { y: u8_() },
            3 => IdPat::D(id, u8_()),
            _ => IdPat::E { id },
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let id = c.u8()?;
        Ok(match idpat(id) {
            0 => IdPat::A(c.u8()?),
            1 => IdPat::B { id, x: c.be16()? },
            2 => IdPat::C { y: c.u8()? },
            3 => IdPat::D(id, c.u8()?),
            _ => IdPat::E { id },
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            IdPat::A(x) => {
                o.u8(1);
                o.u8(*x);
            }
            IdPat::B { id, x } => {
                o.u8(*id);
                o.be16(*x);
            }
            IdPat::C { y } => {
                o.u8(0x42);
                o.u8(*y);
            }
            IdPat::D(id, x) => {
                o.u8(*id);
                o.u8(*x);
            }
            IdPat::E { id } => o.u8(*id),
        }
    }
}
/// an id with a byte order of its own, stored for a catch-all
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "u16", id_endian = "big", endian = "little")]
pub enum IdBe {
    #[deku(id = 0x0102)]
    A(u16),
    #[deku(id = 0x0201)]
    B,
    #[deku(id_pat = "0x0300..")]
    C(u16, u16),
}
impl Cat for IdBe {
    const MAX: usize = 5;
    const MIN: usize = 0;
    fn gen() -> Self {
        match pick(0, 2) {
            0 => IdBe::A(u16_()),
            1 => IdBe::B,
            _ => {
                let id = u16_();
                assume(id >= 0x300);
                IdBe::C(id, u16_())
            }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let id = c.be16()?;
        Ok(match id {
            0x102 => IdBe::A(c.le16()?),
            0x201 => IdBe::B,
            0x300.. => IdBe::C(id, c.le16()?),
            _ => return Err(K::Parse),
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            IdBe::A(x) => {
                o.be16(0x102);
                o.le16(*x);
            }
            IdBe::B => o.be16(0x201),
            IdBe::C(id, x) => {
                o.be16(*id);
                o.le16(*x);
            }
        }
    }
}
/// an id narrower than its type, in bytes
#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Clone)]
#[deku(id_type = "u32", bytes = 3, endian = "big", magic = b"!")]
pub enum IdBytes {
    #[deku(id = 0x000102)]
    A(u8),
    #[deku(id = 0x800000)]
    B(u16, u8),
    #[deku(id_pat = "0xff0000..=0xffffff")]
    C(u32),
}
impl Cat for IdBytes {
    const MAX: usize = 8;
    const MIN: usize = 0;
    fn gen() -> Self {
        match pick(0, 2) {
            0 => IdBytes::A(u8_()),
            1 => IdBytes::B(u16_(), u8_()),
            _ => IdBytes::C(0xff0000 | u16_() as u32),
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        if c.u8()? != b'!' {
            return Err(K::Parse);
        }
        let id = c.u(24, true, false)? as u32;
        Ok(match id {
            0x102 => IdBytes::A(c.u8()?),
            0x800000 => IdBytes::B(c.be16()?, c.u8()?),
            0xff0000..=0xffffff => IdBytes::C(id),
            _ => return Err(K::Parse),
        })
    }
    fn enc(&self, o: &mut O) {
        o.u8(b'!');
        match self {
            IdBytes::A(x) => {
                o.put(0x102, 24, true, false);
                o.u8(*x);
            }
            IdBytes::B(x, y) => {
                o.put(0x800000, 24, true, false);
                o.be16(*x);
                o.u8(*y);
            }
            IdBytes::C(id) => o.put(*id as u128, 24, true, false),
        }
    }
}
/// discriminants
#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Clone, Copy)]
#[deku(id_type = "u16", endian = "big")]
#[repr(u16)]
pub enum Disc {
    A = 0,
    B = 7,
    C,
    D = 0xff00,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct DiscIn {
    a: u8,
    d: Disc,
    b: u8,
}
impl Cat for DiscIn {
    const MAX: usize = 4;
    const MIN: usize = 0;
    fn gen() -> Self {
        DiscIn { a: u8_(), d: [Disc::A, Disc::B, Disc::C, Disc::D][pick(0, 3)], b: u8_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(DiscIn {
            a: c.u8()?,
            d: match c.be16()? {
                0 => Disc::A,
                7 => Disc::B,
                8 => Disc::C,
                0xff00 => Disc::D,
                _ => return Err(K::Parse),
            },
            b: c.u8()?,
        })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.a);
        o.be16(match self.d {
            Disc::A => 0,
            Disc::B => 7,
            Disc::C => 8,
            Disc::D => 0xff00,
        });
        o.u8(self.b);
    }
}
/// the id comes from another field
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "little")]
pub struct IdOut {
    k: u8,
    l: u16,
    #[deku(ctx = "*k")]
    b: Body,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(ctx = "endian: deku::ctx::Endian, k: u8", id = "k", endian = "endian")]
pub enum Body {
    #[deku(id = 0)]
    A,
    #[deku(id = 1)]
    B(u16),
    #[deku(id_pat = "2..=9")]
    C { x: u8, y: u16 },
}
impl Cat for IdOut {
    const MAX: usize = 7;
    const MIN: usize = 0;
    fn gen() -> Self {
        let (k, b) = match pick(0, 2) {
            0 => (0, Body::A),
            1 => (1, Body::B(u16_())),
            _ => {
                let k = u8_();
                assume((2..=9).contains(&k));
                (k, Body::C { x: u8_(), y: u16_() })
            }
        };
        IdOut { k, l: u16_(), b }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let k = c.u8()?;
        let l = c.le16()?;
        let b = match k {
            0 => Body::A,
            1 => Body::B(c.le16()?),
            2..=9 => Body::C { x: c.u8()?, y: c.le16()? },
            _ => return Err(K::Parse),
        };
        Ok(IdOut { k, l, b })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.k);
        o.le16(self.l);
        match &self.b {
            Body::A => {}
            Body::B(x) => o.le16(*x),
            Body::C { x, y } => {
                o.u8(*x);
                o.le16(*y);
            }
        }
    }
}
/// byte string ids, an enum within an enum
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "[u8; 3]")]
pub enum IdStr {
    #[deku(id = b"123")]
    A(u8),
    #[deku(id = "[4, 5, 6]")]
    B(IdPat),
    #[deku(id = b"12\x00")]
    C,
}
impl Cat for IdStr {
    const MAX: usize = 6;
    const MIN: usize = 0;
    fn gen() -> Self {
        match pick(0, 2) {
            0 => IdStr::A(u8_()),
            1 => IdStr::B(IdPat::gen()),
            _ => IdStr::C,
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let id = [c.u8()?, c.u8()?, c.u8()?];
        Ok(if id == [0x31, 0x32, 0x33] {
            IdStr::A(c.u8()?)
        } else if id == [4, 5, 6] {
            IdStr::B(IdPat::dec(c)?)
        } else if id == [0x31, 0x32, 0] {
            IdStr::C
        } else {
            return Err(K::Parse);
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            IdStr::A(x) => {
                for b in [0x31, 0x32, 0x33, *x] {
                    o.u8(b);
                }
            }
            IdStr::B(x) => {
                for b in [4, 5, 6] {
                    o.u8(b);
                }
                x.enc(o);
            }
            IdStr::C => {
                for b in [0x31, 0x32, 0] {
                    o.u8(b);
                }
            }
        }
    }
}
/// a signed id
#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Clone)]
#[deku(id_type = "i16", endian = "little")]
pub enum IdNeg {
    #[deku(id = "-1")]
    A(u8),
    #[deku(id = "-32768")]
    B,
    #[deku(id = 32767)]
    C(u16),
}
impl Cat for IdNeg {
    const MAX: usize = 4;
    const MIN: usize = 0;
    fn gen() -> Self {
        match pick(0, 2) {
            0 => IdNeg::A(u8_()),
            1 => IdNeg::B,
            _ => IdNeg::C(u16_()),
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(match c.le16()? as i16 {
            -1 => IdNeg::A(c.u8()?),
            i16::MIN => IdNeg::B,
            i16::MAX => IdNeg::C(c.le16()?),
            _ => return Err(K::Parse),
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            IdNeg::A(x) => {
                o.le16(0xffff);
                o.u8(*x);
            }
            IdNeg::B => o.le16(0x8000),
            IdNeg::C(x) => {
                o.le16(0x7fff);
                o.le16(*x);
            }
        }
    }
}
/// ids without a variant go to the default one
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "u8")]
pub enum IdDef {
    #[deku(id = 1)]
    A(u8),
    #[deku(id = 2, default)]
    B { x: u8 },
    #[deku(id = 3)]
    C,
}
impl Cat for IdDef {
    const MAX: usize = 3;
    const MIN: usize = 0;
    fn gen() -> Self {
        match pick(0, 2) {
            0 => IdDef::A(u8_()),
            1 => IdDef::B { x: u8_() },
            _ => IdDef::C,
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(match c.u8()? {
            1 => IdDef::A(c.u8()?),
            3 => IdDef::C,
            _ => IdDef::B { x: c.u8()? },
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            IdDef::A(x) => {
                o.u8(1);
                o.u8(*x);
            }
            IdDef::B { x } => {
                o.u8(2);
                o.u8(*x);
            }
            IdDef::C => o.u8(3),
        }
    }
}
/// patterns without storage, written with their discriminant
#[derive(DekuRead, DekuWrite, PartialEq, Clone, Copy)]
#[deku(id_type = "u8")]
#[repr(u8)]
pub enum DiscPat {
    A = 3,
    #[deku(id_pat = "0x20..=0x2f")]
    B = 0x21,
    #[deku(id_pat = "_")]
    C = 0xee,
}
impl Cat for DiscPat {
    const MAX: usize = 1;
    const MIN: usize = 0;
    fn gen() -> Self {
        [DiscPat::A, DiscPat::B, DiscPat::C][pick(0, 2)]
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(match c.u8()? {
            3 => DiscPat::A,
            0x20..=0x2f => DiscPat::B,
            _ => DiscPat::C,
        })
    }
    fn enc(&self, o: &mut O) {
        o.u8(match self {
            DiscPat::A => 3,
            DiscPat::B => 0x21,
            DiscPat::C => 0xee,
        })
    }
}
