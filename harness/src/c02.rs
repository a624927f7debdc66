//! C02: what a number written into a field of a given width, byte order and
//! bit order leaves in the output, and which numbers are refused.
use crate::io::*;
use crate::model::*;
use crate::num::*;
use crate::sym::*;
use crate::{ck, fail, reach};
use deku::ctx::*;
use deku::prelude::*;
use deku::writer::Writer;

const DEEP: bool = cfg!(feature = "thorough");

/// does a field of n bits hold v
#[inline(always)]
fn fits<T: Num>(v: T, n: usize, be: bool, lsb0: bool) -> bool {
    let b = v.bits();
    if T::SIGNED {
        if sext(b & mask(n), n) as u128 & mask(T::BITS) != b || (n == 0 && b != 0) {
            return false;
        }
    }
    let b = b & mask(if T::SIGNED { n } else { T::BITS });
    if be && lsb0 {
        // whole bytes, most significant first; the last holds what is left
        let groups = n.div_ceil(8);
        if b & !mask(groups * 8) != 0 {
            return false;
        }
        n % 8 == 0 || (b & 0xff) < (1 << (n % 8))
    } else {
        b & !mask(n) == 0
    }
}
#[inline(always)]
fn field<T: Num, const N: usize>(forms: core::ops::RangeInclusive<usize>, ns: &[usize], ps: &[usize]) {
    let f = FORMS[pick(*forms.start(), *forms.end())];
    let size = T::BITS / 8;
    let be = if f.endian() { pick(0, 1) == 1 } else { false };
    let lsb0 = f.order() && pick(0, 1) == 1;
    let n = if f.bits() {
        ns[pick(0, ns.len() - 1)]
    } else if f.bytes() && size > 1 {
        8 * pick(0, size)
    } else {
        T::BITS
    };
    let pos = ps[pick(0, ps.len() - 1)];
    let lead = u8_();
    assume(lead as u128 & !mask(pos) == 0);
    let raw = bytes::<16>();
    let v = T::from(u128::from_le_bytes(raw) & mask(T::BITS));
    let fill = bytes::<2>();
    let mut s = Sink::<N>::new();
    let mut w = Writer::new(&mut s);
    if pos > 0 {
        match lead.to_writer(&mut w, (Endian::Big, BitSize(pos), order(lsb0))) {
            Ok(()) => (),
            Err(_) => fail!("a value that fits its bits is written"),
        }
    }
    let r = wr::<T, _>(v, &mut w, f, be, n, lsb0);
    let ok = !f.bits() || fits(v, n, be, lsb0);
    match r {
        Ok(()) => {
            reach!("a number was written");
            ck!(ok, "a number the field cannot hold is refused");
            let end = pos + n;
            let left = (8 - end % 8) % 8;
            if left > 0 {
                let x = fill[0] & mask(left) as u8;
                if x.to_writer(&mut w, (Endian::Big, BitSize(left), order(lsb0))).is_err() {
                    fail!("bits after the field are written");
                }
            }
            ck!(w.bits_written == end + left, "bits_written counts exactly the bits of the fields");
            if fill[1].to_writer(&mut w, ()).is_err() || w.finalize().is_err() {
                fail!("a byte after the field is written");
            }
            let len = (end + left) / 8;
            ck!(s.len == len + 1, "exactly the bytes of the fields are written");
            obs(dec(&s.d, pos, n, be, lsb0) as u64);
            let got = dec(&s.d, pos, n, be, lsb0);
            if f.bits() {
                ck!(want::<T>(got, n) == v.bits(), "the bits of the field are those it reads back from");
            } else {
                ck!(got == v.bits() & mask(n), "the bytes of the field are the low order bytes");
            }
            ck!(pos == 0 || dec(&s.d, 0, pos, true, lsb0) == lead as u128, "the bits before the field are untouched");
            ck!(left == 0 || dec(&s.d, end, left, true, lsb0) == fill[0] as u128 & mask(left), "the bits after the field follow at once");
            ck!(s.d[len] == fill[1], "the byte after the field follows at once");
        }
        Err(e) => {
            reach!("a number was refused");
            ck!(!ok, "a number the field can hold is written");
            ck!(matches!(e, DekuError::InvalidParam(_)), "a number that does not fit is an invalid parameter");
            // nothing of it is in the output
            let left = (8 - pos % 8) % 8;
            if left > 0 {
                let x = fill[0] & mask(left) as u8;
                if x.to_writer(&mut w, (Endian::Big, BitSize(left), order(lsb0))).is_err() {
                    fail!("bits after the field are written");
                }
            }
            ck!(s.len == pos.div_ceil(8), "a refused number emits nothing");
            ck!(pos == 0 || dec(&s.d, 0, pos, true, lsb0) == lead as u128, "the bits before the field are untouched");
            ck!(left == 0 || dec(&s.d, pos, left, true, lsb0) == fill[0] as u128 & mask(left), "a refused number leaves no bits");
        }
    }
}
const fn upto<const N: usize>() -> [usize; N] {
    let mut a = [0; N];
    let mut i = 0;
    while i < N {
        a[i] = i;
        i += 1;
    }
    a
}
const P: [usize; 8] = upto();
const W8: [usize; 9] = upto();
const W16: [usize; 17] = upto();
const W32: [usize; 33] = upto();
const W64: [usize; 65] = upto();
const W128: [usize; 129] = upto();
const SOME64: &[usize] = if DEEP { &W64 } else { &[0, 1, 8, 9, 33, 40, 55, 63, 64] };
const SOME128: &[usize] = if DEEP { &W128 } else { &[1, 8, 64, 65, 104, 121, 127, 128] };
const SOMEP: &[usize] = if DEEP { &P } else { &[0, 3] };
const DEEPP: &[usize] = if DEEP { &[0, 1, 5] } else { &[0, 5] };
macro_rules! f { ($($name:ident $t:ty, $cap:expr, $forms:expr, $ns:expr, $ps:expr;)*) => {$(
    #[no_mangle] pub extern "C" fn $name() { field::<$t, $cap>($forms, $ns, $ps) }
)*} }
f! {
    h_u8 u8, 8, 0..=10, &W8, &P;
    h_i8 i8, 8, 0..=10, &W8, &P;
    h_u16 u16, 8, 0..=10, &W16, &P;
    h_i16 i16, 8, 0..=10, &W16, &P;
    h_u32_ebito u32, 8, 0..=0, &W32, &P;
    h_u32_ebit u32, 8, 1..=1, &W32, &P;
    h_u32_bit u32, 8, 2..=3, &W32, &P;
    h_u32_b u32, 8, 4..=10, &W32, &P;
    h_i32_ebito i32, 8, 0..=0, &W32, &P;
    h_i32_ebit i32, 8, 1..=1, &W32, SOMEP;
    h_i32_bit i32, 8, 2..=3, &W32, SOMEP;
    h_i32_b i32, 8, 4..=10, &W32, &P;
    h_f32 f32, 8, 0..=3, &[0, 1, 12, 31, 32], SOMEP;
    h_f32_b f32, 8, 4..=10, &[], &P;
    h_u64_ebito u64, 12, 0..=0, SOME64, DEEPP;
    h_u64_ebit u64, 12, 1..=3, SOME64, DEEPP;
    h_i64_ebito i64, 12, 0..=0, SOME64, DEEPP;
    h_i64_ebit i64, 12, 1..=3, SOME64, DEEPP;
    h_u64_b u64, 12, 4..=10, &[], &P;
    h_i64_b i64, 12, 4..=10, &[], &P;
    h_f64 f64, 12, 0..=3, &[1, 64], &[0, 3];
    h_f64_b f64, 12, 4..=10, &[], &P;
    h_usize usize, 12, 0..=3, &[7, 33, 64], &[0, 3];
    h_usize_b usize, 12, 4..=10, &[], &P;
    h_isize isize, 12, 0..=3, &[7, 33, 64], &[0, 3];
    h_isize_b isize, 12, 4..=10, &[], &P;
    h_u128_ebito u128, 20, 0..=0, SOME128, DEEPP;
    h_u128_ebit u128, 20, 1..=3, SOME128, DEEPP;
    h_i128_ebito i128, 20, 0..=0, SOME128, DEEPP;
    h_i128_ebit i128, 20, 1..=3, SOME128, DEEPP;
    h_u128_b u128, 20, 4..=10, &[], &P;
    h_i128_b i128, 20, 4..=10, &[], &P;
}

/// a width that does not fit the type is refused, whatever the width
#[inline(always)]
fn too_wide<T: Num>() {
    let f = FORMS[pick(0, 6)];
    assume(f.bits() || T::BITS > 8);
    let be = f.endian() && pick(0, 1) == 1;
    let lsb0 = f.order() && pick(0, 1) == 1;
    let pos = pick(0, 7);
    let raw = bytes::<16>();
    let v = T::from(u128::from_le_bytes(raw) & mask(T::BITS));
    let mut s = Sink::<32>::new();
    let mut w = Writer::new(&mut s);
    if pos > 0 {
        let _ = 0u8.to_writer(&mut w, (Endian::Big, BitSize(pos), order(lsb0)));
    }
    let n = usize_();
    assume(n > T::BITS);
    let r = if f.bytes() {
        match f {
            EByteO => v.to_writer(&mut w, (endian(be), ByteSize(n), order(lsb0))),
            EByte => v.to_writer(&mut w, (endian(be), ByteSize(n))),
            _ => v.to_writer(&mut w, ByteSize(n)),
        }
    } else {
        wr::<T, _>(v, &mut w, f, be, n, lsb0)
    };
    reach!("a width larger than the type was asked for");
    ck!(matches!(r, Err(DekuError::InvalidParam(_))), "a width larger than the type is refused");
    ck!(w.bits_written == 0, "a refused width counts nothing");
    if w.finalize().is_err() {
        fail!("the rest can be written");
    }
    ck!(s.len == pos.div_ceil(8), "a refused width writes nothing");
}
macro_rules! wide { ($($name:ident $t:ty;)*) => {$( #[no_mangle] pub extern "C" fn $name() { too_wide::<$t>() } )*} }
wide! {
    h_wide_u8 u8; h_wide_u16 u16; h_wide_u32 u32; h_wide_u64 u64; h_wide_u128 u128; h_wide_usize usize;
    h_wide_i8 i8; h_wide_i16 i16; h_wide_i32 i32; h_wide_i64 i64; h_wide_i128 i128; h_wide_isize isize;
    h_wide_f32 f32; h_wide_f64 f64;
}
