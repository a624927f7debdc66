//! C11: enum ids select exactly the declared variant and are written back.
use crate::ops::*;
use crate::*;
use deku::DekuEnumExt;

/// the id reported for a value
trait Ided: Cat {
    /// whether the id reported is the one it is written with
    fn ok(&self) -> bool;
}
macro_rules! ided { ($($t:ident { $($p:pat => $e:expr),* $(; $($q:pat => $f:expr),*)? })*) => {$(
    impl Ided for $t {
        #[allow(unreachable_patterns)]
        fn ok(&self) -> bool {
            let id = self.deku_id();
            match self {
                $($p => matches!(id, Ok(x) if x == $e),)*
                // no id is declared for these; one is not made up
                $($($q => match id { Ok(x) => x == $f, Err(_) => true },)*)?
            }
        }
    }
)*} }

fn read<T: Cat>() {
    let k = offset();
    let s = stream::<T>(k, pick(0, 1));
    let d = &s.d[..s.n];
    if s.n * 8 < k {
        return;
    }
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, T::LSB).is_err() {
        return;
    }
    let got = T::from_reader_with_ctx(&mut r, ());
    let mut c = Cur::at(d, k);
    let want = T::dec(&mut c);
    match (got, want) {
        (Ok(g), Ok(w)) => {
            reach!("an enum is read");
            obs(r.bits_read as u64);
            ck!(g == w, "the variant is the one declared for the id");
            ck!(r.bits_read == c.pos, "the id takes exactly its bits");
        }
        (Err(e), Err(w)) => {
            if w == K::Parse {
                reach!("an id without a variant");
            }
            ck!(same_kind(&e, w), "an id without a variant is a parse error, a missing one is incomplete");
        }
        (Ok(_), Err(_)) => fail!("an id without a variant is refused"),
        (Err(_), Ok(_)) => fail!("every declared id is accepted"),
    }
}
fn write<T: Cat>() {
    let v = T::gen();
    let k = offset();
    let x = if k == 0 { 0 } else { u8_() & (0xff >> (8 - k)) };
    let mut s = Sink::<CAP>::new();
    let mut w = Writer::new(&mut s);
    let ok = put(&mut w, x, k, T::LSB).and_then(|_| v.to_writer(&mut w, ())).and_then(|_| w.finalize()).is_ok();
    let mut o = O::new();
    o.put(x as u128, k, true, T::LSB);
    v.enc(&mut o);
    ck!(ok, "a value is written");
    ck!(s.len == o.bytes() && s.d == o.d, "the id written is the one of the variant");
    // and back
    let len = s.len;
    let mut src = Src::new(&s.d[..len]);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, T::LSB).is_err() {
        return;
    }
    let back = T::from_reader_with_ctx(&mut r, ());
    obs(back.is_ok() as u64);
    ck!(matches!(back, Ok(b) if b == v), "the id written reads as the same variant");
}
fn ident<T: Ided>() {
    let v = T::gen();
    ck!(v.ok(), "the id reported is the one the value is written with");
    let (d, n) = input::<T>();
    if let Ok((_, v)) = T::from_bytes((&d[..n], 0)) {
        ck!(v.ok(), "the id reported is the one the value was read with");
    }
}
en!("h_read_", read);
oneway0!("h_read_", read);
#[cfg(feature = "cfg_bits_any")]
enb!("h_read_", read);
en!("h_write_", write);
oneway0!("h_write_", write);
#[cfg(feature = "cfg_bits_any")]
enb!("h_write_", write);
each!("h_id_", ident: IdPat IdBe IdBytes IdStr IdNeg IdDef DiscPat Named Choice Wide Order8 NegDisc Mid);
each!("h_read_", read: Named Choice Wide Order8 NegDisc Mid Id8 TwoIds);
each!("h_write_", write: Named Choice Wide Order8 NegDisc Mid Id8 TwoIds);
#[cfg(feature = "cfg_bits_any")]
each!("h_id_", ident: IdNib IdLsb Small Neg4 LsbBe16);
#[cfg(feature = "cfg_bits_any")]
each!("h_read_", read: Small Neg4 LsbBe16);
#[cfg(feature = "cfg_bits_any")]
each!("h_write_", write: Small Neg4 LsbBe16);
ided! {
    IdPat { IdPat::A(_) => 1, IdPat::C { .. } => 0x42;
        IdPat::B { id, .. } => *id, IdPat::D(id, _) => *id, IdPat::E { id } => *id }
    IdBe { IdBe::A(_) => 0x102, IdBe::B => 0x201; IdBe::C(id, _) => *id }
    IdBytes { IdBytes::A(_) => 0x102, IdBytes::B(..) => 0x800000; IdBytes::C(id) => *id }
    IdStr { IdStr::A(_) => *b"123", IdStr::B(_) => [4, 5, 6], IdStr::C => [0x31, 0x32, 0] }
    IdNeg { IdNeg::A(_) => -1, IdNeg::B => -32768, IdNeg::C(_) => 32767 }
    IdDef { IdDef::A(_) => 1, IdDef::B { .. } => 2, IdDef::C => 3 }
    DiscPat { ; DiscPat::A => 3, DiscPat::B => 0x21, DiscPat::C => 0xee }
    Named { Named::A(_) => FIRST, Named::B => SECOND, Named::C(_) => u32::MAX }
    Choice { Choice::L(_) => Side::Left, Choice::R => Side::Right }
    Wide { Wide::A => 1 << 127, Wide::B(_) => 0x0123_4567_89ab_cdef_0011_2233_4455_6677 }
    Order8 { Order8::B(_) => 5, Order8::C => 6; Order8::A(id) => *id, Order8::D(id) => *id }
    NegDisc { ; NegDisc::A => -2, NegDisc::B => -1, NegDisc::C => 100 }
    Mid { Mid::A => 1, Mid::C => 200, Mid::Other(_) => 9 }
}
#[cfg(feature = "cfg_bits_any")]
ided! {
    IdNib { IdNib::A(..) => 9, IdNib::B { .. } => 2, IdNib::C => 3; IdNib::D(id, _) => *id }
    IdLsb { IdLsb::A(..) => 1, IdLsb::B(_) => 6; IdLsb::C { id } => *id }
    Small { Small::A => 0, Small::B => 1; Small::C(id) => *id }
    Neg4 { Neg4::A => -8, Neg4::B(_) => -1, Neg4::C => 7; Neg4::D(id) => *id }
    LsbBe16 { LsbBe16::A => 0x0abc, LsbBe16::B(_) => 1; LsbBe16::C(id) => *id }
}
/// two bits: all ids are declared
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "u8", bits = 2)]
pub enum Small {
    #[deku(id = 0)]
    A,
    #[deku(id = 1)]
    B,
    #[deku(id_pat = "2 | 3")]
    C(u8),
}
#[cfg(feature = "cfg_bits_any")]
impl Cat for Small {
    const MAX: usize = 1;
    const MIN: usize = 0;
    fn gen() -> Self {
        match pick(0, 2) {
            0 => Small::A,
            1 => Small::B,
            _ => Small::C(2 | sy(1) as u8),
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(match c.u(2, true, false)? as u8 {
            0 => Small::A,
            1 => Small::B,
            n => Small::C(n),
        })
    }
    fn enc(&self, o: &mut O) {
        let n = match self {
            Small::A => 0,
            Small::B => 1,
            Small::C(n) => *n,
        };
        o.put(n as u128, 2, true, false)
    }
}
const FIRST: u32 = 0xdead_0001;
const SECOND: u32 = 0xdead_0002;
/// ids that are constants, and the largest one
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "u32", id_endian = "little", endian = "big")]
pub enum Named {
    #[deku(id = "FIRST")]
    A(u16),
    #[deku(id = "SECOND")]
    B,
    #[deku(id = "u32::MAX")]
    C(u8),
}
impl Cat for Named {
    const MAX: usize = 6;
    const MIN: usize = 0;
    fn gen() -> Self {
        match pick(0, 2) {
            0 => Named::A(u16_()),
            1 => Named::B,
            _ => Named::C(u8_()),
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(match c.u(32, false, false)? {
            0xdead_0001 => Named::A(c.be16()?),
            0xdead_0002 => Named::B,
            0xffff_ffff => Named::C(c.u8()?),
            _ => return Err(K::Parse),
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            Named::A(x) => {
                o.put(0xdead_0001, 32, false, false);
                o.be16(*x);
            }
            Named::B => o.put(0xdead_0002, 32, false, false),
            Named::C(x) => {
                o.put(0xffff_ffff, 32, false, false);
                o.u8(*x);
            }
        }
    }
}
/// an id that is an enum itself
#[derive(DekuRead, DekuWrite, PartialEq, Clone, Copy, Debug)]
#[deku(id_type = "u8")]
pub enum Side {
    #[deku(id = 0x4c)]
    Left,
    #[deku(id = 0x52)]
    Right,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "Side")]
pub enum Choice {
    #[deku(id = "Side::Left")]
    L(u8),
    #[deku(id = "Side::Right")]
    R,
}
impl Cat for Choice {
    const MAX: usize = 2;
    const MIN: usize = 0;
    fn gen() -> Self {
        if pick(0, 1) == 0 { Choice::L(u8_()) } else { Choice::R }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(match c.u8()? {
            0x4c => Choice::L(c.u8()?),
            0x52 => Choice::R,
            _ => return Err(K::Parse),
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            Choice::L(x) => {
                o.u8(0x4c);
                o.u8(*x);
            }
            Choice::R => o.u8(0x52),
        }
    }
}
/// the widest ids
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "u128", endian = "big")]
pub enum Wide {
    #[deku(id = 0x8000_0000_0000_0000_0000_0000_0000_0000)]
    A,
    #[deku(id = 0x0123_4567_89ab_cdef_0011_2233_4455_6677)]
    B(u8),
}
impl Cat for Wide {
    const MAX: usize = 17;
    const MIN: usize = 15;
    fn gen() -> Self {
        if pick(0, 1) == 0 { Wide::A } else { Wide::B(u8_()) }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(match c.u(128, true, false)? {
            0x8000_0000_0000_0000_0000_0000_0000_0000 => Wide::A,
            0x0123_4567_89ab_cdef_0011_2233_4455_6677 => Wide::B(c.u8()?),
            _ => return Err(K::Parse),
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            Wide::A => o.put(1 << 127, 128, true, false),
            Wide::B(x) => {
                o.put(0x0123_4567_89ab_cdef_0011_2233_4455_6677, 128, true, false);
                o.u8(*x);
            }
        }
    }
}
/// signed ids of four bits
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "i8", bits = 4)]
pub enum Neg4 {
    #[deku(id = "-8")]
    A,
    #[deku(id = "-1")]
    B(#[deku(bits = 4)] i8),
    #[deku(id = 7)]
    C,
    #[deku(id_pat = "-3..=2")]
    D(i8),
}
#[cfg(feature = "cfg_bits_any")]
impl Cat for Neg4 {
    const MAX: usize = 1;
    const MIN: usize = 0;
    fn gen() -> Self {
        match pick(0, 3) {
            0 => Neg4::A,
            1 => Neg4::B(sext(sy(4), 4) as i8),
            2 => Neg4::C,
            _ => {
                let n = i8_();
                assume((-3..=2).contains(&n) && n != -1);
                Neg4::D(n)
            }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.i(4, true, false)? as i8;
        Ok(match n {
            -8 => Neg4::A,
            -1 => Neg4::B(c.i(4, true, false)? as i8),
            7 => Neg4::C,
            -3..=2 => Neg4::D(n),
            _ => return Err(K::Parse),
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            Neg4::A => o.put(8, 4, true, false),
            Neg4::B(x) => {
                o.put(15, 4, true, false);
                o.put(two(*x as i128, 4), 4, true, false);
            }
            Neg4::C => o.put(7, 4, true, false),
            Neg4::D(n) => o.put(two(*n as i128, 4), 4, true, false),
        }
    }
}
/// the first variant that matches wins
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "u8")]
pub enum Order8 {
    #[deku(id_pat = "0..=4 | 7")]
    A(u8),
    #[deku(id = 5)]
    B(u8),
    #[deku(id = 6)]
    C,
    #[deku(id_pat = "3..=0x7f")]
    D(u8),
}
impl Cat for Order8 {
    const MAX: usize = 2;
    const MIN: usize = 0;
    fn gen() -> Self {
        let n = u8_();
        match pick(0, 3) {
            0 => {
                assume(n < 5 || n == 7);
                Order8::A(n)
            }
            1 => Order8::B(n),
            2 => Order8::C,
            _ => {
                assume(n > 7 && n < 0x80);
                Order8::D(n)
            }
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        Ok(match n {
            0..=4 | 7 => Order8::A(n),
            5 => Order8::B(c.u8()?),
            6 => Order8::C,
            8..=0x7f => Order8::D(n),
            _ => return Err(K::Parse),
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            Order8::A(n) | Order8::D(n) => o.u8(*n),
            Order8::B(x) => {
                o.u8(5);
                o.u8(*x);
            }
            Order8::C => o.u8(6),
        }
    }
}
/// discriminants below zero
#[derive(DekuRead, DekuWrite, PartialEq, Clone, Copy)]
#[deku(id_type = "i16", endian = "big")]
#[repr(i16)]
pub enum NegDisc {
    A = -2,
    B,
    C = 100,
}
impl Cat for NegDisc {
    const MAX: usize = 2;
    const MIN: usize = 0;
    fn gen() -> Self {
        [NegDisc::A, NegDisc::B, NegDisc::C][pick(0, 2)]
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(match c.be16()? as i16 {
            -2 => NegDisc::A,
            -1 => NegDisc::B,
            100 => NegDisc::C,
            _ => return Err(K::Parse),
        })
    }
    fn enc(&self, o: &mut O) {
        o.be16(match self {
            NegDisc::A => -2,
            NegDisc::B => -1,
            NegDisc::C => 100,
        } as i16 as u16)
    }
}
/// the default variant stands between the others, and has fields
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "u8")]
pub enum Mid {
    #[deku(id = 1)]
    A,
    #[deku(id = 9, default)]
    Other(u8),
    #[deku(id = 200)]
    C,
}
impl Cat for Mid {
    const MAX: usize = 2;
    const MIN: usize = 0;
    fn gen() -> Self {
        match pick(0, 2) {
            0 => Mid::A,
            1 => Mid::Other(u8_()),
            _ => Mid::C,
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(match c.u8()? {
            1 => Mid::A,
            200 => Mid::C,
            _ => Mid::Other(c.u8()?),
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            Mid::A => o.u8(1),
            Mid::Other(x) => {
                o.u8(9);
                o.u8(*x);
            }
            Mid::C => o.u8(200),
        }
    }
}
/// an id across bytes, least significant bits first, big endian
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "u16", bit_order = "lsb", endian = "big")]
pub enum LsbBe16 {
    #[deku(id = 0x0abc)]
    A,
    #[deku(id = 1)]
    B(u16),
    #[deku(id_pat = "0x8000..=0xffff")]
    C(u16),
}
#[cfg(feature = "cfg_bits_any")]
impl Cat for LsbBe16 {
    const LSB: bool = true;
    const MAX: usize = 4;
    const MIN: usize = 0;
    fn gen() -> Self {
        match pick(0, 2) {
            0 => LsbBe16::A,
            1 => LsbBe16::B(u16_()),
            _ => LsbBe16::C(u16_() | 0x8000),
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u(16, true, true)? as u16;
        Ok(match n {
            0x0abc => LsbBe16::A,
            1 => LsbBe16::B(c.u(16, true, true)? as u16),
            0x8000.. => LsbBe16::C(n),
            _ => return Err(K::Parse),
        })
    }
    fn enc(&self, o: &mut O) {
        match self {
            LsbBe16::A => o.put(0x0abc, 16, true, true),
            LsbBe16::B(x) => {
                o.put(1, 16, true, true);
                o.put(*x as u128, 16, true, true);
            }
            LsbBe16::C(n) => o.put(*n as u128, 16, true, true),
        }
    }
}
/// the id is a tuple of fields read before
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct TwoIds {
    a: u8,
    b: u8,
    #[deku(ctx = "*a, *b")]
    s: ByTwo,
    z: u8,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(ctx = "a: u8, b: u8", id = "a.wrapping_sub(b)")]
pub enum ByTwo {
    #[deku(id = 0)]
    Same,
    #[deku(id = 1)]
    More(u8),
    #[deku(id = 255)]
    Less(u16),
}
impl Cat for TwoIds {
    const MAX: usize = 5;
    const MIN: usize = 0;
    fn gen() -> Self {
        let (a, b, z) = (u8_(), u8_(), u8_());
        let n = a.wrapping_sub(b);
        let s = match pick(0, 2) {
            0 => {
                assume(n == 0);
                ByTwo::Same
            }
            1 => {
                assume(n == 1);
                ByTwo::More(u8_())
            }
            _ => {
                assume(n == 255);
                ByTwo::Less(u16_())
            }
        };
        TwoIds { a, b, s, z }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let (a, b) = (c.u8()?, c.u8()?);
        let s = match a.wrapping_sub(b) {
            0 => ByTwo::Same,
            1 => ByTwo::More(c.u8()?),
            255 => ByTwo::Less(c.le16()?),
            _ => return Err(K::Parse),
        };
        Ok(TwoIds { a, b, s, z: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.a);
        o.u8(self.b);
        match self.s {
            ByTwo::Same => {}
            ByTwo::More(x) => o.u8(x),
            ByTwo::Less(x) => o.le16(x),
        }
        o.u8(self.z);
    }
}

// ---------------------------------------------------------------- many variants, wide ids
#[derive(DekuRead, DekuWrite, PartialEq, Clone, Copy)]
#[deku(id_type = "u16", endian = "big")]
#[repr(u16)]
pub enum Lots {
    V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12,
    V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23,
    V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34,
    V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45,
    V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56,
    V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67,
    V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78,
    V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89,
    V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 =
    100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 =
    109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 =
    118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 =
    127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 =
    136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 =
    145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 =
    154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159, V160 = 160, V161 = 161, V162 = 162, V163 =
    163, V164 = 164, V165 = 165, V166 = 166, V167 = 167, V168 = 168, V169 = 169, V170 = 170, V171 = 171, V172 =
    172, V173 = 173, V174 = 174, V175 = 175, V176 = 176, V177 = 177, V178 = 178, V179 = 179, V180 = 180, V181 =
    181, V182 = 182, V183 = 183, V184 = 184, V185 = 185, V186 = 186, V187 = 187, V188 = 188, V189 = 189, V190 =
    190, V191 = 191, V192 = 192, V193 = 193, V194 = 194, V195 = 195, V196 = 196, V197 = 197, V198 = 198, V199 =
    199, V200 = 200, V201 = 201, V202 = 202, V203 = 203, V204 = 204, V205 = 205, V206 = 206, V207 = 207, V208 =
    208, V209 = 209, V210 = 210, V211 = 211, V212 = 212, V213 = 213, V214 = 214, V215 = 215, V216 = 216, V217 =
    217, V218 = 218, V219 = 219, V220 = 220, V221 = 221, V222 = 222, V223 = 223, V224 = 224, V225 = 225, V226 =
    226, V227 = 227, V228 = 228, V229 = 229, V230 = 230, V231 = 231, V232 = 232, V233 = 233, V234 = 234, V235 =
    235, V236 = 236, V237 = 237, V238 = 238, V239 = 239, V240 = 240, V241 = 241, V242 = 242, V243 = 243, V244 =
    244, V245 = 245, V246 = 246, V247 = 247, V248 = 248, V249 = 249, V250 = 250, V251 = 251, V252 = 252, V253 =
    253, V254 = 254, V255 = 255, V256 = 256, V257 = 257, V258 = 258, V259 = 259, V260 = 260, V261 = 261, V262 =
    262, V263 = 263, V264 = 264, V265 = 265, V266 = 266, V267 = 267, V268 = 268, V269 = 269, V270 = 270, V271 =
    271, V272 = 272, V273 = 273, V274 = 274, V275 = 275, V276 = 276, V277 = 277, V278 = 278, V279 = 279, V280 =
    280, V281 = 281, V282 = 282, V283 = 283, V284 = 284, V285 = 285, V286 = 286, V287 = 287, V288 = 288, V289 =
    289, V290 = 290, V291 = 291, V292 = 292, V293 = 293, V294 = 294, V295 = 295, V296 = 296, V297 = 297, V298 =
    298, V299 = 299,
}
#[export_name = "h_lots"]
pub extern "C" fn lots() {
    let d: [u8; 2] = bytes();
    let i = u16::from_be_bytes(d);
    match Lots::from_bytes((&d, 0)) {
        Ok((_, v)) => {
            reach!("one of many variants");
            ck!(v as u16 == i, "the variant is the one of the id among many");
            ck!(v.deku_id().map_or(true, |x| x == i), "the id reported is the one of the variant among many");
            let mut o = [0u8; 3];
            ck!(matches!(v.to_slice(&mut o), Ok(2)) && o[..2] == d, "the id written is the one of the variant among many");
        }
        Err(e) => {
            reach!("none of many variants");
            ck!(i >= 300 && kind(&e) == E::Parse, "every declared id of many is accepted");
        }
    }
}
macro_rules! wide_ids { (#[$dv:meta] $($n:ident $t:ident $l:tt $len:tt $a:tt $b:tt;)*) => {$(
    #[$dv]
    #[deku(id_type = $l, endian = "little")]
    #[derive(PartialEq)]
    pub enum $n {
        #[deku(id = $a)]
        A(u8),
        #[deku(id = $b)]
        B,
        #[deku(id_pat = "_")]
        C { id: $t, x: u8 },
    }
    const _: () = {
        #[export_name = concat!("h_wide_", stringify!($n))]
        pub extern "C" fn h() {
            let d: [u8; $len + 1] = bytes();
            let mut r = [0; $len];
            r.copy_from_slice(&d[..$len]);
            let i = $t::from_le_bytes(r);
            let (a, b): ($t, $t) = ($n::A_, $n::B_);
            let x = d[$len];
            let Ok((_, v)) = $n::from_bytes((&d, 0)) else {
                fail!("every wide id is accepted");
                return;
            };
            reach!("a wide id");
            let ok = match v {
                $n::A(y) => i == a && x == y,
                $n::B => i == b,
                $n::C { id, x: y } => i != a && i != b && id == i && x == y,
            };
            ck!(ok, "all of a wide id decides");
            let l = if i == b { $len } else { $len + 1 };
            ck!(matches!(v.deku_id(), Ok(y) if y == i) || (i != a && i != b), "a wide id is reported as it is");
            let mut o = [0u8; $len + 1];
            ck!(matches!(v.to_slice(&mut o), Ok(n) if n == l) && o[..l] == d[..l], "all of a wide id is written");
        }
    };
)*} }
macro_rules! wide_of { ($($n:ident $t:ident $a:expr, $b:expr;)*) => {$(
    impl $n {
        const A_: $t = $a;
        const B_: $t = $b;
    }
)*} }
wide_ids! { #[derive(DekuRead, DekuWrite)]
    IdU32 u32 "u32" 4 "0x80000001" "1";
    IdU64 u64 "u64" 8 "0x8000000000000001" "1";
    IdI64 i64 "i64" 8 "-2" "0x7ffffffffffffffe";
    IdU128 u128 "u128" 16 "0x80000000000000000000000000000001" "1";
    IdI128 i128 "i128" 16 "-2" "0x100000000000000000000000000000";
    IdUsize usize "usize" 8 "0x100000001" "1";
    IdIsize isize "isize" 8 "-0x100000001" "-1";
}
wide_of! {
    IdU32 u32 0x80000001, 1;
    IdU64 u64 0x8000000000000001, 1;
    IdI64 i64 -2, 0x7ffffffffffffffe;
    IdU128 u128 0x80000000000000000000000000000001, 1;
    IdI128 i128 -2, 0x100000000000000000000000000000;
    IdUsize usize 0x100000001, 1;
    IdIsize isize -0x100000001, -1;
}
