//! Types of a few hundred bytes, for what happens only far into a stream.
use crate::ops::*;

pub const ROOM: usize = 520;
pub trait Big: Sized + PartialEq + for<'a> DekuContainerRead<'a> + DekuContainerWrite + for<'a> TryFrom<&'a [u8], Error = DekuError> {
    /// number of elements of the vector
    const N: usize;
    /// bytes that a value takes
    const LEN: usize;
    /// put the number of elements into an arbitrary input
    fn count(d: &mut [u8]);
    /// is it what these bytes stand for
    fn is(&self, d: &[u8]) -> bool;
    /// the bits that a value does not use are zero
    fn tidy(_d: &mut [u8]) {}
    /// all but the last field of bits is fixed (a path for every length of a number written otherwise)
    fn plain(_d: &mut [u8]) {}
}
/// any input that is long enough, and what follows it
pub fn input<T: Big>() -> [u8; ROOM] {
    let mut d: [u8; ROOM] = bytes();
    T::count(&mut d);
    T::tidy(&mut d);
    d
}
/// the same, for writing
pub fn value<T: Big>() -> [u8; ROOM] {
    let mut d: [u8; ROOM] = bytes();
    T::plain(&mut d);
    T::count(&mut d);
    T::tidy(&mut d);
    d
}
/// places in a stream of n bytes: beginning, end, and around powers of two
pub fn spot(n: usize) -> usize {
    const S: [usize; 24] =
        [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 127, 128, 129, 200, 255, 256, 257];
    let i = pick(0, S.len() + 7);
    if i < S.len() {
        S[i].min(n)
    } else {
        n - (i - S.len())
    }
}
macro_rules! whole { ($($n:ident $c:literal;)*) => {$(
    /// bytes, numbers and an array
    #[derive(DekuRead, DekuWrite, PartialEq)]
    #[deku(endian = "big")]
    pub struct $n {
        n: u16,
        #[deku(count = "n")]
        v: Vec<u8>,
        #[deku(count = "n / 4")]
        w: Vec<u16>,
        a: [u8; 70],
        b: Box<[u16; 5]>,
        x: u32,
    }
    impl Big for $n {
        const N: usize = $c;
        const LEN: usize = 2 + $c + $c / 4 * 2 + 70 + 10 + 4;
        fn count(d: &mut [u8]) {
            d[..2].copy_from_slice(&($c as u16).to_be_bytes());
        }
        fn is(&self, d: &[u8]) -> bool {
            let mut ok = self.n == $c && self.v.len() == $c && self.w.len() == $c / 4;
            ok = ok && self.v[..] == d[2..2 + $c];
            let mut p = 2 + $c;
            for w in &self.w {
                ok &= *w == u16::from_be_bytes([d[p], d[p + 1]]);
                p += 2;
            }
            ok &= self.a[..] == d[p..p + 70];
            p += 70;
            for w in &self.b[..] {
                ok &= *w == u16::from_be_bytes([d[p], d[p + 1]]);
                p += 2;
            }
            ok && self.x == u32::from_be_bytes([d[p], d[p + 1], d[p + 2], d[p + 3]])
        }
    }
)*} }
whole! { Long70 70; Long270 270; }
macro_rules! within { ($($n:ident $c:literal $o:literal $l:literal;)*) => {$(
    /// the same in the middle of a byte, in one bit order or the other
    #[cfg(feature = "cfg_bits_any")]
    #[derive(DekuRead, DekuWrite, PartialEq)]
    #[deku(endian = "big", bit_order = $o)]
    pub struct $n {
        n: u16,
        #[deku(bits = 3)]
        a: u8,
        #[deku(count = "n")]
        v: Vec<u8>,
        #[deku(bits = 11, count = "n / 4")]
        w: Vec<u16>,
        b: [u8; 40],
        #[deku(pad_bits_before = "2", bits = 6)]
        c: u8,
        x: u32,
    }
    #[cfg(feature = "cfg_bits_any")]
    impl Big for $n {
        const N: usize = $c;
        // a number of elements that is four times a number of which three bits more make whole bytes
        const LEN: usize = 2 + (3 + $c * 8 + $c / 4 * 11 + 320 + 8 + 32) / 8;
        fn count(d: &mut [u8]) {
            d[..2].copy_from_slice(&($c as u16).to_be_bytes());
        }
        fn is(&self, d: &[u8]) -> bool {
            let mut c = Cur::new(d);
            self.is_(&mut c).unwrap_or(false) && c.pos == Self::LEN * 8
        }
        fn tidy(d: &mut [u8]) {
            let p = 16 + 3 + $c * 8 + $c / 4 * 11 + 320;
            for i in p..p + 2 {
                d[i / 8] &= !if $l { 1 << (i % 8) } else { 0x80 >> (i % 8) };
            }
        }
        fn plain(d: &mut [u8]) {
            let p = 16 + 3 + $c * 8;
            for i in p / 8 + 1..(p + ($c / 4 - 1) * 11) / 8 {
                d[i] = i as u8 | 0x24;
            }
            d[2] = 0xa5;
            d[2 + (3 + $c * 8 + $c / 4 * 11) / 8 + 40] = 0x2d;
        }
    }
    #[cfg(feature = "cfg_bits_any")]
    impl $n {
        fn is_(&self, c: &mut Cur) -> Result<bool, K> {
            let mut ok = self.v.len() == $c && self.w.len() == $c / 4;
            ok &= self.n as u128 == c.u(16, true, $l)? && self.a as u128 == c.u(3, true, $l)?;
            for v in &self.v {
                ok &= *v as u128 == c.u(8, true, $l)?;
            }
            for w in &self.w {
                ok &= *w as u128 == c.u(11, true, $l)?;
            }
            for b in &self.b {
                ok &= *b as u128 == c.u(8, true, $l)?;
            }
            c.pad(2)?;
            ok &= self.c as u128 == c.u(6, true, $l)?;
            Ok(ok & (self.x as u128 == c.u(32, true, $l)?))
        }
    }
)*} }
// 3 + 11 * (n / 4) is a whole number of bytes
within! { Cross60 60 "msb" false; Cross252 252 "msb" false; Back60 60 "lsb" true; Back252 252 "lsb" true; }

/// many fields
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(endian = "big")]
pub struct Fields70 {
    f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u16, f10: u8, f11: u8, f12:
    u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u16, f20: u8, f21: u8, f22: u8, f23: u8,
    f24: u8, f25: u8, f26: u8, f27: u8, f28: u8, f29: u16, f30: u8, f31: u8, f32: u8, f33: u8, f34: u8, f35:
    u8, f36: u8, f37: u8, f38: u8, f39: u16, f40: u8, f41: u8, f42: u8, f43: u8, f44: u8, f45: u8, f46: u8,
    f47: u8, f48: u8, f49: u16, f50: u8, f51: u8, f52: u8, f53: u8, f54: u8, f55: u8, f56: u8, f57: u8, f58:
    u8, f59: u16, f60: u8, f61: u8, f62: u8, f63: u8, f64: u8, f65: u8, f66: u8, f67: u8, f68: u8, f69: u16,
}
impl Big for Fields70 {
    const N: usize = 0;
    const LEN: usize = 77;
    fn count(_: &mut [u8]) {}
    fn is(&self, d: &[u8]) -> bool {
        let ok = [
            self.f0 == d[0], self.f1 == d[1], self.f2 == d[2], self.f3 == d[3], self.f4 == d[4], self.f5 == d[5],
            self.f6 == d[6], self.f7 == d[7], self.f8 == d[8], self.f9 == u16::from_be_bytes([d[9], d[10]]), self.f10
            == d[11], self.f11 == d[12], self.f12 == d[13], self.f13 == d[14], self.f14 == d[15], self.f15 == d[16],
            self.f16 == d[17], self.f17 == d[18], self.f18 == d[19], self.f19 == u16::from_be_bytes([d[20], d[21]]),
            self.f20 == d[22], self.f21 == d[23], self.f22 == d[24], self.f23 == d[25], self.f24 == d[26], self.f25
            == d[27], self.f26 == d[28], self.f27 == d[29], self.f28 == d[30], self.f29 == u16::from_be_bytes([d[31],
            d[32]]), self.f30 == d[33], self.f31 == d[34], self.f32 == d[35], self.f33 == d[36], self.f34 == d[37],
            self.f35 == d[38], self.f36 == d[39], self.f37 == d[40], self.f38 == d[41], self.f39 ==
            u16::from_be_bytes([d[42], d[43]]), self.f40 == d[44], self.f41 == d[45], self.f42 == d[46], self.f43 ==
            d[47], self.f44 == d[48], self.f45 == d[49], self.f46 == d[50], self.f47 == d[51], self.f48 == d[52],
            self.f49 == u16::from_be_bytes([d[53], d[54]]), self.f50 == d[55], self.f51 == d[56], self.f52 == d[57],
            self.f53 == d[58], self.f54 == d[59], self.f55 == d[60], self.f56 == d[61], self.f57 == d[62], self.f58
            == d[63], self.f59 == u16::from_be_bytes([d[64], d[65]]), self.f60 == d[66], self.f61 == d[67], self.f62
            == d[68], self.f63 == d[69], self.f64 == d[70], self.f65 == d[71], self.f66 == d[72], self.f67 == d[73],
            self.f68 == d[74], self.f69 == u16::from_be_bytes([d[75], d[76]]),
        ];
        ok.iter().all(|x| *x)
    }
}
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct Tuple70(
    u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8,
    u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8,
    u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8,
);
impl Big for Tuple70 {
    const N: usize = 0;
    const LEN: usize = 70;
    fn count(_: &mut [u8]) {}
    fn is(&self, d: &[u8]) -> bool {
        let mut ok = true;
        ok &= self.0 == d[0];
        ok &= self.1 == d[1];
        ok &= self.2 == d[2];
        ok &= self.3 == d[3];
        ok &= self.4 == d[4];
        ok &= self.5 == d[5];
        ok &= self.6 == d[6];
        ok &= self.7 == d[7];
        ok &= self.8 == d[8];
        ok &= self.9 == d[9];
        ok &= self.10 == d[10];
        ok &= self.11 == d[11];
        ok &= self.12 == d[12];
        ok &= self.13 == d[13];
        ok &= self.14 == d[14];
        ok &= self.15 == d[15];
        ok &= self.16 == d[16];
        ok &= self.17 == d[17];
        ok &= self.18 == d[18];
        ok &= self.19 == d[19];
        ok &= self.20 == d[20];
        ok &= self.21 == d[21];
        ok &= self.22 == d[22];
        ok &= self.23 == d[23];
        ok &= self.24 == d[24];
        ok &= self.25 == d[25];
        ok &= self.26 == d[26];
        ok &= self.27 == d[27];
        ok &= self.28 == d[28];
        ok &= self.29 == d[29];
        ok &= self.30 == d[30];
        ok &= self.31 == d[31];
        ok &= self.32 == d[32];
        ok &= self.33 == d[33];
        ok &= self.34 == d[34];
        ok &= self.35 == d[35];
        ok &= self.36 == d[36];
        ok &= self.37 == d[37];
        ok &= self.38 == d[38];
        ok &= self.39 == d[39];
        ok &= self.40 == d[40];
        ok &= self.41 == d[41];
        ok &= self.42 == d[42];
        ok &= self.43 == d[43];
        ok &= self.44 == d[44];
        ok &= self.45 == d[45];
        ok &= self.46 == d[46];
        ok &= self.47 == d[47];
        ok &= self.48 == d[48];
        ok &= self.49 == d[49];
        ok &= self.50 == d[50];
        ok &= self.51 == d[51];
        ok &= self.52 == d[52];
        ok &= self.53 == d[53];
        ok &= self.54 == d[54];
        ok &= self.55 == d[55];
        ok &= self.56 == d[56];
        ok &= self.57 == d[57];
        ok &= self.58 == d[58];
        ok &= self.59 == d[59];
        ok &= self.60 == d[60];
        ok &= self.61 == d[61];
        ok &= self.62 == d[62];
        ok &= self.63 == d[63];
        ok &= self.64 == d[64];
        ok &= self.65 == d[65];
        ok &= self.66 == d[66];
        ok &= self.67 == d[67];
        ok &= self.68 == d[68];
        ok &= self.69 == d[69];
        ok
    }
}
/// long arrays
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(endian = "little")]
pub struct Arrays {
    a: [u8; 257],
    b: [[u16; 3]; 33],
    c: u8,
}
impl Big for Arrays {
    const N: usize = 0;
    const LEN: usize = 257 + 198 + 1;
    fn count(_: &mut [u8]) {}
    fn is(&self, d: &[u8]) -> bool {
        let mut ok = self.a[..] == d[..257] && self.c == d[455];
        for (i, b) in self.b.iter().flatten().enumerate() {
            ok &= *b == u16::from_le_bytes([d[257 + 2 * i], d[258 + 2 * i]]);
        }
        ok
    }
}

#[macro_export]
macro_rules! big {
    ($p:literal, $f:ident) => {
        big! { @ $p $f Long70 Long270 Fields70 Tuple70 Arrays }
        #[cfg(feature = "cfg_bits_any")]
        big! { @ $p $f Cross60 Cross252 Back60 Back252 }
    };
    (@ $p:literal $f:ident $($t:ident)*) => {$(
        const _: () = {
            #[export_name = concat!($p, stringify!($t))]
            pub extern "C" fn h() { $f::<$crate::big::$t>() }
        };
    )*};
}
