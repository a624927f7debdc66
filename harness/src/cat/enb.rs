//! Enums with ids of some bits.
use super::*;

#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Clone)]
#[deku(id_type = "u8", bits = 4)]
pub enum IdNib {
    #[deku(id = 0b1001)]
    A(#[deku(bits = 4)] u8, u8),
    #[deku(id = 2)]
    B {
        #[deku(bits = 12, endian = "big")]
        x: u16,
    },
    #[deku(id = 3)]
    C,
    #[deku(id_pat = "10..=15")]
    D(u8, #[deku(bits = 2)] u8),
}
impl Cat for IdNib {
    const MAX: usize = 3;
    const MIN: usize = 0;
    fn gen() -> Self {
        match pick(0, 3) {
            0 => IdNib::A(sy(4) as u8, u8_()),
            1 => IdNib::B { x: sy(12) as u16 },
            2 => IdNib::C,
            _ => {
                let id = sy(4) as u8;
                assume(id >= 10);
                IdNib::D(id, sy(2) as u8)
            }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let id = c.u(4, true, false)? as u8;
        Ok(match id {
            9 => IdNib::A(c.u(4, true, false)? as u8, c.u8()?),
            2 => IdNib::B { x: c.u(12, true, false)? as u16 },
            3 => IdNib::C,
            10..=15 => IdNib::D(id, c.u(2, true, false)? as u8),
            _ => return Err(K::Parse),
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            IdNib::A(x, y) => {
                o.put(9, 4, true, false);
                o.put(*x as u128, 4, true, false);
                o.u8(*y);
            }
            IdNib::B { x } => {
                o.put(2, 4, true, false);
                o.put(*x as u128, 12, true, false);
            }
            IdNib::C => o.put(3, 4, true, false),
            IdNib::D(id, x) => {
                o.put(*id as u128, 4, true, false);
                o.put(*x as u128, 2, true, false);
            }
        }
    }
}
/// a wide id, little endian, that starts within a byte
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct WideIn {
    #[deku(bits = 3)]
    a: u8,
    w: WideId,
    #[deku(bits = 2)]
    b: u8,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "u16", bits = 10, endian = "little")]
pub enum WideId {
    #[deku(id = 0x155)]
    A(#[deku(bits = 1)] bool),
    #[deku(id_pat = "0x200..=0x3ff")]
    B(u16),
}
impl Cat for WideIn {
    const MAX: usize = 2;
    const MIN: usize = 0;
    fn gen() -> Self {
        let w = if pick(0, 1) == 0 { WideId::A(bool_()) } else { WideId::B(0x200 | sy(9) as u16) };
        WideIn { a: sy(3) as u8, w, b: sy(2) as u8 }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u(3, true, false)? as u8;
        let id = c.u(10, false, false)? as u16;
        let w = match id {
            0x155 => WideId::A(c.u(1, true, false)? == 1),
            0x200..=0x3ff => WideId::B(id),
            _ => return Err(K::Parse),
        };
        Ok(WideIn { a, w, b: c.u(2, true, false)? as u8 })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.a as u128, 3, true, false);
        match self.w {
            WideId::A(x) => {
                o.put(0x155, 10, false, false);
                o.put(x as u128, 1, true, false);
            }
            WideId::B(id) => o.put(id as u128, 10, false, false),
        }
        o.put(self.b as u128, 2, true, false);
    }
}
/// least significant bits first
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "u8", bits = 3, bit_order = "lsb", endian = "little")]
pub enum IdLsb {
    #[deku(id = 1)]
    A(#[deku(bits = 5)] u8, u16),
    #[deku(id = 6)]
    B(#[deku(bits = 9)] u16),
    #[deku(id_pat = "_")]
    C { id: u8 },
}
impl Cat for IdLsb {
    const LSB: bool = true;
    const MAX: usize = 4;
    const MIN: usize = 0;
    fn gen() -> Self {
        match pick(0, 2) {
            0 => IdLsb::A(sy(5) as u8, u16_()),
            1 => IdLsb::B(sy(9) as u16),
            _ => {
                let id = sy(3) as u8;
                assume(id != 1 && id != 6);
                IdLsb::C { id }
            }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let id = c.u(3, false, true)? as u8;
        Ok(match id {
            1 => IdLsb::A(c.u(5, false, true)? as u8, c.u(16, false, true)? as u16),
            6 => IdLsb::B(c.u(9, false, true)? as u16),
            _ => IdLsb::C { id },
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            IdLsb::A(x, y) => {
                o.put(1, 3, false, true);
                o.put(*x as u128, 5, false, true);
                o.put(*y as u128, 16, false, true);
            }
            IdLsb::B(x) => {
                o.put(6, 3, false, true);
                o.put(*x as u128, 9, false, true);
            }
            IdLsb::C { id } => o.put(*id as u128, 3, false, true),
        }
    }
}
/// an id stated by the parent, and a flag
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct IdFlag {
    #[deku(bits = 2)]
    k: u8,
    f: Flag,
    #[deku(ctx = "*k, f.on()")]
    s: Sel,
}
#[derive(DekuRead, DekuWrite, DekuSize, PartialEq, Clone)]
#[deku(id_type = "bool", bits = 1)]
pub enum Flag {
    #[deku(id = true)]
    On(#[deku(bits = 5)] u8),
    #[deku(id = false)]
    Off,
}
impl Flag {
    fn on(&self) -> bool {
        matches!(self, Flag::On(_))
    }
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(ctx = "k: u8, f: bool", id = "(k, f)")]
pub enum Sel {
    #[deku(id = "(0, false)")]
    A(u8),
    #[deku(id = "(1, true)")]
    B(#[deku(bits = 3)] u8),
    #[deku(id_pat = "(2..=3, _)")]
    C,
}
impl Cat for IdFlag {
    const MAX: usize = 2;
    const MIN: usize = 0;
    fn gen() -> Self {
        let f = if bool_() { Flag::On(sy(5) as u8) } else { Flag::Off };
        match pick(0, 2) {
            0 => {
                assume(!f.on());
                IdFlag { k: 0, f, s: Sel::A(u8_()) }
            }
            1 => {
                assume(f.on());
                IdFlag { k: 1, f, s: Sel::B(sy(3) as u8) }
            }
            _ => IdFlag { k: 2 + bool_() as u8, f, s: Sel::C },
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let k = c.u(2, true, false)? as u8;
        let f = if c.u(1, true, false)? == 1 { Flag::On(c.u(5, true, false)? as u8) } else { Flag::Off };
        let s = match (k, f.on()) {
            (0, false) => Sel::A(c.u8()?),
            (1, true) => Sel::B(c.u(3, true, false)? as u8),
            (2..=3, _) => Sel::C,
            _ => return Err(K::Parse),
        };
        Ok(IdFlag { k, f, s })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.k as u128, 2, true, false);
        match self.f {
            Flag::On(x) => {
                o.put(1, 1, true, false);
                o.put(x as u128, 5, true, false);
            }
            Flag::Off => o.put(0, 1, true, false),
        }
        match self.s {
            Sel::A(x) => o.u8(x),
            Sel::B(x) => o.put(x as u128, 3, true, false),
            Sel::C => {}
        }
    }
}
