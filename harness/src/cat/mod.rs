//! Catalogue of derived types. Each has its reference reading and writing,
//! written from the documentation on `Cur`/`Out` alone.
pub use crate::io::*;
pub use crate::model::*;
pub use crate::sym::*;
pub use deku::ctx::*;
pub use deku::prelude::*;
pub use deku::reader::Reader;
pub use deku::writer::Writer;
pub use deku::DekuSize;

pub const CAP: usize = 40;
pub type O = Out<CAP>;

pub trait Cat: Sized + PartialEq + for<'a> DekuContainerRead<'a> + DekuContainerWrite {
    /// bytes of input that are enough to get past every part of the type
    const MAX: usize;
    /// any value within the bounds that the type can be written from
    fn gen() -> Self;
    /// reference reading
    fn dec(c: &mut Cur) -> Result<Self, K>;
    /// reference writing
    fn enc(&self, o: &mut O);
    /// unused bits of the last byte are its high ones
    const LSB: bool = false;
    /// the shortest input that is tried
    const MIN: usize = Self::MAX;
    /// reads all there is
    const ALL: bool = false;
    /// has bits without meaning, so that bytes are not reproduced
    const PADS: bool = false;
    /// split an input into cases (for speed only; every input stays possible)
    fn shape(_d: &mut [u8]) {}
}
/// symbolic number of n bits
#[inline(always)]
pub fn sy(n: usize) -> u128 {
    match n {
        0 => 0,
        1..=8 => u8_() as u128 & mask(n),
        9..=16 => u16_() as u128 & mask(n),
        17..=32 => u32_() as u128 & mask(n),
        33..=64 => u64_() as u128 & mask(n),
        _ => u128_() & mask(n),
    }
}
/// one of the places around powers of two, and the last ones
pub fn some_place(n: usize) -> usize {
    const S: [usize; 18] = [0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 127, 128, 254, 255];
    let i = pick(0, S.len() + 1);
    if i < S.len() {
        S[i].min(n - 1)
    } else {
        n - 1 - (i - S.len())
    }
}
/// two's complement bits of a signed value
#[inline(always)]
pub fn two(v: i128, n: usize) -> u128 {
    v as u128 & mask(n)
}
/// one case for each value of the contiguous bits `m` of byte i
pub fn split(d: &mut [u8], i: usize, m: u8) {
    if i >= d.len() {
        return;
    }
    let s = m.trailing_zeros();
    let k = (pick(0, (m >> s) as usize) as u8) << s;
    assume(d[i] & m == k);
    d[i] = (d[i] & !m) | k;
}
/// one case for each of the n smallest values of byte i and one for the others
pub fn small(d: &mut [u8], i: usize, n: u8) {
    if i >= d.len() {
        return;
    }
    let k = pick(0, n as usize) as u8;
    if k < n {
        assume(d[i] == k);
        d[i] = k;
    } else {
        assume(d[i] >= n);
    }
}
/// only these values of byte i
pub fn only(d: &mut [u8], i: usize, v: &[u8]) {
    if i < d.len() {
        let k = v[pick(0, v.len() - 1)];
        assume(d[i] == k);
        d[i] = k;
    }
}
/// clear n bits from bit `pos` (Msb0)
pub fn clear(d: &mut [u8], pos: usize, n: usize) {
    for i in pos..pos + n {
        if i / 8 < d.len() {
            d[i / 8] &= !(0x80 >> (i % 8));
        }
    }
}
/// an input of each length that is tried
pub fn input<T: Cat>() -> ([u8; CAP], usize) {
    input_of::<T>(T::MIN, T::MAX)
}
pub fn input_of<T: Cat>(lo: usize, hi: usize) -> ([u8; CAP], usize) {
    let n = pick(lo, hi);
    let mut d = [0u8; CAP];
    for b in d.iter_mut().take(n) {
        *b = u8_();
    }
    T::shape(&mut d[..n]);
    (d, n)
}
/// one harness per type: `each!("h_wr_", wr: A B C);`
#[macro_export]
macro_rules! each {
    ($p:literal, $f:ident: $($n:ident)*) => {$(
        const _: () = {
            #[export_name = concat!($p, stringify!($n))]
            pub extern "C" fn h() { $f::<$n>() }
        };
    )*}
}
macro_rules! groups { ($($(#[$c:meta])* $m:ident: $($n:ident)*;)*) => {
    $($(#[$c])* group!{($) $m $($n)*})*
} }
macro_rules! group { (($d:tt) $m:ident $($n:ident)*) => {
    #[macro_export]
    macro_rules! $m { ($d p:literal, $d f:ident) => { each!($d p, $d f: $($n)*); } }
} }
// the types of the catalogue, by what they need
groups! {
    plain: Ends Native DynBytes Parent Conds Magic Id8 Flat Nets NonZero Asserts;
    // read differently from how they are written
    oneway0: IdDef DiscPat;
    en: IdPat IdBe IdBytes DiscIn IdOut IdStr IdNeg;
    pad: PadBytes PadDyn PadCond;
    fld: Bits BitsLe LsbLe LsbBe DynBits BitParent GenU16 Custom DynEnd;
    enb: IdNib WideIn IdLsb IdFlag;
    padb: PadBits PadLsb PadDynBits;
    oneway: Temp;
    vecs: VecCnt VecBytes VecHuge VecBudget VecMixed VecUntil VecAll VecNest VecCtx Boxes;
    vecb: VecNib VecBits VecBitBudget VecAllNib VecAllWide VecLsb VecUntilBits WrapBits ValBits;
    maps: Maps;
    strs: Strs;
}
macro_rules! mods { ($($(#[$c:meta])* $m:ident)*) => {$(
    $(#[$c])* pub mod $m;
    $(#[$c])* pub use $m::*;
)*} }
mods! {
    plain en val pad wrap
    #[cfg(feature = "cfg_bits_any")] fld
    #[cfg(feature = "cfg_bits_any")] enb
    #[cfg(feature = "cfg_alloc_any")] vecs
    #[cfg(all(feature = "cfg_alloc_any", feature = "cfg_bits_any"))] vecb
}

/// every type that reads back what it wrote, in the configuration at hand
#[macro_export]
macro_rules! twoway {
    ($p:literal, $f:ident) => {
        plain!($p, $f);
        en!($p, $f);
        pad!($p, $f);
        #[cfg(feature = "cfg_bits_any")]
        fld!($p, $f);
        #[cfg(feature = "cfg_bits_any")]
        enb!($p, $f);
        #[cfg(feature = "cfg_bits_any")]
        padb!($p, $f);
        #[cfg(feature = "cfg_alloc_any")]
        vecs!($p, $f);
        #[cfg(all(feature = "cfg_alloc_any", feature = "cfg_bits_any"))]
        vecb!($p, $f);
        #[cfg(feature = "cfg_default")]
        strs!($p, $f);
    };
}
#[macro_export]
macro_rules! every {
    ($p:literal, $f:ident) => {
        twoway!($p, $f);
        oneway0!($p, $f);
        #[cfg(feature = "cfg_std_any")]
        maps!($p, $f);
        #[cfg(feature = "cfg_bits_any")]
        oneway!($p, $f);
    };
}
