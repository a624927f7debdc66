//! Numbers: the contexts they are read and written with, and their reference.
use crate::model::*;
use deku::ctx::*;
use deku::no_std_io::{Read, Seek, Write};
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;
use deku::{DekuReader, DekuWriter};

pub trait Int: Sized + Copy {
    const BITS: usize;
    const SIGNED: bool;
    fn bits(self) -> u128;
    fn from(v: u128) -> Self;
}
macro_rules! int { ($($t:ty, $u:ty, $s:expr);*) => {$(
    impl Int for $t { const BITS: usize = core::mem::size_of::<$t>()*8; const SIGNED: bool = $s;
        #[inline(always)] fn bits(self) -> u128 { <$u>::from_ne_bytes(self.to_ne_bytes()) as u128 }
        #[inline(always)] fn from(v: u128) -> Self { <$t>::from_ne_bytes((v as $u).to_ne_bytes()) } }
)*} }
int!(u8,u8,false; u16,u16,false; u32,u32,false; u64,u64,false; u128,u128,false; usize,usize,false;
     i8,u8,true; i16,u16,true; i32,u32,true; i64,u64,true; i128,u128,true; isize,usize,true;
     f32,u32,false; f64,u64,false);

pub fn endian(be: bool) -> Endian {
    if be { Endian::Big } else { Endian::Little }
}
pub fn order(lsb0: bool) -> Order {
    if lsb0 { Order::Lsb0 } else { Order::Msb0 }
}
/// value of the whole container as the reference says
#[inline(always)]
pub fn want<T: Int>(v: u128, n: usize) -> u128 {
    if T::SIGNED { (sext(v, n) as u128) & mask(T::BITS) } else { v }
}

/// every context a number can be read or written with
pub trait Num: Int
    + for<'a> DekuReader<'a, (Endian, BitSize, Order)> + for<'a> DekuReader<'a, (Endian, BitSize)>
    + for<'a> DekuReader<'a, (BitSize, Order)> + for<'a> DekuReader<'a, BitSize>
    + for<'a> DekuReader<'a, (Endian, ByteSize, Order)> + for<'a> DekuReader<'a, (Endian, ByteSize)>
    + for<'a> DekuReader<'a, ByteSize> + for<'a> DekuReader<'a, (Endian, Order)>
    + for<'a> DekuReader<'a, Endian> + for<'a> DekuReader<'a, Order> + for<'a> DekuReader<'a, ()>
    + DekuWriter<(Endian, BitSize, Order)> + DekuWriter<(Endian, BitSize)>
    + DekuWriter<(BitSize, Order)> + DekuWriter<BitSize>
    + DekuWriter<(Endian, ByteSize, Order)> + DekuWriter<(Endian, ByteSize)>
    + DekuWriter<ByteSize> + DekuWriter<(Endian, Order)>
    + DekuWriter<Endian> + DekuWriter<Order> + DekuWriter<()> {}
macro_rules! num { ($($t:ty),*) => {$( impl Num for $t {} )*} }
num!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Form { EBitO, EBit, BitO, Bit, EByteO, EByte, Byte, EO, E, O, U }
pub use Form::*;
pub const FORMS: [Form; 11] = [EBitO, EBit, BitO, Bit, EByteO, EByte, Byte, EO, E, O, U];
impl Form {
    pub fn bits(self) -> bool { matches!(self, EBitO | EBit | BitO | Bit) }
    pub fn bytes(self) -> bool { matches!(self, EByteO | EByte | Byte) }
    pub fn endian(self) -> bool { matches!(self, EBitO | EBit | EByteO | EByte | EO | E) }
    pub fn order(self) -> bool { matches!(self, EBitO | BitO | EByteO | EO | O) }
}
#[inline(always)]
pub fn rd<T: Num, R: Read + Seek>(r: &mut Reader<R>, f: Form, be: bool, n: usize, lsb0: bool) -> Result<T, DekuError> {
    let (e, o) = (endian(be), order(lsb0));
    match f {
        EBitO => T::from_reader_with_ctx(r, (e, BitSize(n), o)),
        EBit => T::from_reader_with_ctx(r, (e, BitSize(n))),
        BitO => T::from_reader_with_ctx(r, (BitSize(n), o)),
        Bit => T::from_reader_with_ctx(r, BitSize(n)),
        EByteO => T::from_reader_with_ctx(r, (e, ByteSize(n / 8), o)),
        EByte => T::from_reader_with_ctx(r, (e, ByteSize(n / 8))),
        Byte => T::from_reader_with_ctx(r, ByteSize(n / 8)),
        EO => T::from_reader_with_ctx(r, (e, o)),
        E => T::from_reader_with_ctx(r, e),
        O => T::from_reader_with_ctx(r, o),
        U => T::from_reader_with_ctx(r, ()),
    }
}
#[inline(always)]
pub fn wr<T: Num, W: Write + Seek>(v: T, w: &mut Writer<W>, f: Form, be: bool, n: usize, lsb0: bool) -> Result<(), DekuError> {
    let (e, o) = (endian(be), order(lsb0));
    match f {
        EBitO => v.to_writer(w, (e, BitSize(n), o)),
        EBit => v.to_writer(w, (e, BitSize(n))),
        BitO => v.to_writer(w, (BitSize(n), o)),
        Bit => v.to_writer(w, BitSize(n)),
        EByteO => v.to_writer(w, (e, ByteSize(n / 8), o)),
        EByte => v.to_writer(w, (e, ByteSize(n / 8))),
        Byte => v.to_writer(w, ByteSize(n / 8)),
        EO => v.to_writer(w, (e, o)),
        E => v.to_writer(w, e),
        O => v.to_writer(w, o),
        U => v.to_writer(w, ()),
    }
}
