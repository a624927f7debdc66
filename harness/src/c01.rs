//! C01: what an integer field of a given width, byte order and bit order reads.
use crate::io::*;
use crate::model::*;
use crate::sym::*;
use crate::{ck, fail, reach};
use deku::ctx::*;
use deku::prelude::*;
use deku::reader::Reader;
use deku::DekuReader;

const DEEP: bool = cfg!(feature = "thorough");

use crate::num::*;

/// bring the reader to stream bit `pos` (< 8)
#[inline(always)]
fn advance<R: deku::no_std_io::Read + deku::no_std_io::Seek>(r: &mut Reader<R>, pos: usize, lsb0: bool, d: &[u8]) {
    if pos > 0 {
        let v = u8::from_reader_with_ctx(r, (Endian::Big, BitSize(pos), order(lsb0)));
        ck!(matches!(v, Ok(x) if x as u128 == dec(d, 0, pos, true, lsb0)), "leading bits read as the reference says");
    }
}
/// the unread bits of the current byte, in stream order, must still be there
#[inline(always)]
fn after<const N: usize>(r: &mut Reader<&mut Src>, end: usize, lsb0: bool, d: &[u8; N]) {
    ck!(r.bits_read == end, "bits_read counts exactly the bits of the fields");
    let left = (8 - end % 8) % 8;
    if left > 0 {
        let v = u8::from_reader_with_ctx(r, (Endian::Big, BitSize(left), order(lsb0)));
        ck!(matches!(v, Ok(x) if x as u128 == dec(d, end, left, true, lsb0)), "the bits after the field are next in the stream");
    }
    ck!(r.as_mut().pos == end.div_ceil(8), "exactly the bytes the fields touch are taken from the source");
    let v = u8::from_reader_with_ctx(r, ());
    ck!(matches!(v, Ok(x) if x == d[end.div_ceil(8)]), "the byte after the field is next in the stream");
}

#[inline(always)]
fn bitsize<T: Int + for<'a> DekuReader<'a, (Endian, BitSize, Order)> + for<'a> DekuReader<'a, (Endian, BitSize)>, const N: usize>(
    nlo: usize,
    nhi: usize,
    plo: usize,
    phi: usize,
    ordered: bool,
) {
    let d = bytes::<N>();
    let n = pick(nlo, nhi);
    let pos = pick(plo, phi);
    let be = pick(0, 1) == 1;
    let lsb0 = ordered && pick(0, 1) == 1;
    let mut s = Src::new(&d);
    let mut r = Reader::new(&mut s);
    advance(&mut r, pos, lsb0, &d);
    let v = if ordered {
        T::from_reader_with_ctx(&mut r, (endian(be), BitSize(n), order(lsb0)))
    } else {
        T::from_reader_with_ctx(&mut r, (endian(be), BitSize(n)))
    };
    match v {
        Ok(v) => {
            reach!("a bit field was read");
            obs(v.bits() as u64);
            ck!(v.bits() == want::<T>(dec(&d, pos, n, be, lsb0), n), "value of a bit field");
            after(&mut r, pos + n, lsb0, &d);
        }
        Err(_) => fail!("a field that is fully present is read"),
    }
}
macro_rules! bitsize { ($($name:ident $t:ty, $n:expr, $lo:expr, $hi:expr, $plo:expr, $phi:expr, $ord:expr;)*) => {$(
    #[no_mangle] pub extern "C" fn $name() { bitsize::<$t, $n>($lo, $hi, $plo, $phi, $ord) }
)*} }
bitsize! {
    h_u8 u8, 4, 1, 8, 0, 7, true;
    h_u8_noorder u8, 4, 1, 8, 0, 7, false;
    h_u16 u16, 5, 1, 16, 0, 7, true;
    h_u16_noorder u16, 5, 1, 16, 0, 7, false;
    h_u32 u32, 7, 1, 32, 0, 7, true;
    h_u64 u64, 11, 1, 64, 0, 7, true;
    h_i8 i8, 4, 1, 8, 0, 7, true;
    h_i32 i32, 7, 1, 32, 0, 7, true;
    h_u128 u128, 19, 1, 128, 0, 7, true;
}
bitsize! {
    h_usize usize, 11, 1, 64, 0, 7, true;
    h_i16 i16, 5, 1, 16, 0, 7, true;
    h_i64 i64, 11, 1, 64, 0, 7, true;
    h_i128 i128, 19, 1, 128, 0, 7, true;
    h_isize isize, 11, 1, 64, 0, 7, false;
    h_f32 f32, 7, 1, 32, 0, 7, true;
    h_f64 f64, 11, 1, 64, 0, 7, true;
    h_u32_noorder u32, 7, 1, 32, 0, 7, false;
    h_u64_noorder u64, 11, 1, 64, 0, 7, false;
    h_u128_noorder u128, 19, 1, 128, 0, 7, false;
    h_i8_noorder i8, 4, 1, 8, 0, 7, false;
    h_i16_noorder i16, 5, 1, 16, 0, 7, false;
    h_i32_noorder i32, 7, 1, 32, 0, 7, false;
    h_i64_noorder i64, 11, 1, 64, 0, 7, false;
    h_zero_u8 u8, 4, 0, 0, 0, 7, true;
    h_zero_u32 u32, 4, 0, 0, 0, 7, true;
    h_zero_u32_noorder u32, 4, 0, 0, 0, 7, false;
    h_zero_i16 i16, 4, 0, 0, 0, 7, true;
    h_zero_i16_noorder i16, 4, 0, 0, 0, 7, false;
}

/// all the other contexts a number can be read with
#[inline(always)]
fn forms<T: Num, const N: usize>(plo: usize, phi: usize) {
    let d = bytes::<N>();
    let f = FORMS[pick(2, 10)];
    let size = T::BITS / 8;
    let be = f.endian() && pick(0, 1) == 1;
    let lsb0 = f.order() && pick(0, 1) == 1;
    let n = if f.bits() {
        pick(0, T::BITS)
    } else if f.bytes() && size > 1 {
        8 * pick(0, size)
    } else {
        T::BITS
    };
    let pos = pick(plo, phi);
    let mut s = Src::new(&d);
    let mut r = Reader::new(&mut s);
    advance(&mut r, pos, lsb0, &d);
    // no byte order stated: that of the target, which is little endian
    match rd::<T, _>(&mut r, f, be, n, lsb0) {
        Ok(v) => {
            reach!("a number was read without a full context");
            obs(v.bits() as u64);
            ck!(v.bits() == want::<T>(dec(&d, pos, n, be, lsb0), n), "value of a number read without a full context");
            after(&mut r, pos + n, lsb0, &d);
        }
        Err(_) => fail!("a number that is fully present is read"),
    }
}
macro_rules! formsm { ($($name:ident $t:ty, $n:expr, $plo:expr, $phi:expr;)*) => {$(
    #[no_mangle] pub extern "C" fn $name() { forms::<$t, $n>($plo, $phi) }
)*} }
formsm! {
    h_forms_u8 u8, 4, 0, 7;
    h_forms_u16 u16, 5, 0, 7;
    h_forms_u32 u32, 7, 0, 7;
    h_forms_u64 u64, 11, 0, 7;
    h_forms_u128 u128, 19, 0, 7;
    h_forms_usize usize, 11, 0, 7;
    h_forms_i8 i8, 4, 0, 7;
    h_forms_i16 i16, 5, 0, 7;
    h_forms_i32 i32, 7, 0, 7;
    h_forms_i64 i64, 11, 0, 7;
    h_forms_i128 i128, 19, 0, 7;
    h_forms_isize isize, 11, 0, 7;
    h_forms_f32 f32, 7, 0, 7;
    h_forms_f64 f64, 11, 0, 7;
}
/// a width that does not fit the type is refused, whatever the width
#[inline(always)]
fn too_wide<T: Num>() {
    let d = bytes::<24>();
    let f = FORMS[pick(0, 6)];
    assume(f.bits() || T::BITS > 8);
    let be = f.endian() && pick(0, 1) == 1;
    let lsb0 = f.order() && pick(0, 1) == 1;
    let pos = pick(0, 7);
    let mut s = Src::new(&d);
    let mut r = Reader::new(&mut s);
    advance(&mut r, pos, lsb0, &d);
    let n = usize_();
    // a width in bits that is no multiple of 8 cannot be stated in bytes
    assume(n > T::BITS);
    let v: Result<T, DekuError> = if f.bytes() {
        assume(n <= usize::MAX / 8 && n > T::BITS / 8);
        match f {
            EByteO => T::from_reader_with_ctx(&mut r, (endian(be), ByteSize(n), order(lsb0))),
            EByte => T::from_reader_with_ctx(&mut r, (endian(be), ByteSize(n))),
            _ => T::from_reader_with_ctx(&mut r, ByteSize(n)),
        }
    } else {
        rd::<T, _>(&mut r, f, be, n, lsb0)
    };
    reach!("a width larger than the type was asked for");
    ck!(matches!(v, Err(DekuError::Parse(_))), "a width larger than the type is refused");
    ck!(r.bits_read == pos, "a refused width consumes nothing");
}
macro_rules! wide { ($($name:ident $t:ty;)*) => {$( #[no_mangle] pub extern "C" fn $name() { too_wide::<$t>() } )*} }
wide! {
    h_wide_u8 u8; h_wide_u16 u16; h_wide_u32 u32; h_wide_u64 u64; h_wide_u128 u128; h_wide_usize usize;
    h_wide_i8 i8; h_wide_i16 i16; h_wide_i32 i32; h_wide_i64 i64; h_wide_i128 i128; h_wide_isize isize;
    h_wide_f32 f32; h_wide_f64 f64;
}
