//! What the generic harnesses share.
pub use crate::cat::*;
pub use deku::no_std_io::{Read, Seek, Write};

/// what kind of failure an error is
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum E {
    Inc,
    Assert,
    Parse,
    Io(deku::no_std_io::ErrorKind),
}
pub fn kind(e: &DekuError) -> E {
    match e {
        DekuError::Incomplete(_) => E::Inc,
        DekuError::Assertion(_) => E::Assert,
        DekuError::Io(k) => E::Io(*k),
        _ => E::Parse,
    }
}
/// the same kind as the reference gives
pub fn same_kind(e: &DekuError, k: K) -> bool {
    kind(e)
        == match k {
            K::Inc => E::Inc,
            K::Assert => E::Assert,
            K::Parse => E::Parse,
        }
}
/// results of two readings of the same bytes
pub fn agree<T: PartialEq>(a: &Result<T, DekuError>, b: &Result<T, DekuError>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => kind(a) == kind(b),
        _ => false,
    }
}
pub const WIDE: usize = CAP + 3;
/// bytes with an input of T behind k other bits
pub struct Stream {
    pub d: [u8; WIDE],
    pub n: usize,
}
/// `d` behind k arbitrary bits and in front of at least `tail` arbitrary bytes
pub fn behind(d: &[u8], k: usize, lsb: bool, tail: usize) -> Stream {
    let mut s = [0; WIDE];
    let n = d.len() + tail + (k != 0) as usize;
    if k == 0 {
        s[..d.len()].copy_from_slice(d);
        for b in &mut s[d.len()..n] {
            *b = u8_();
        }
        return Stream { d: s, n };
    }
    let first = u8_();
    let last = u8_();
    for i in 0..d.len() + 1 {
        let a = if i == 0 { first } else { d[i - 1] };
        let b = if i == d.len() { last } else { d[i] };
        s[i] = if i == 0 {
            if lsb {
                (a & (0xff >> (8 - k))) | b << k
            } else {
                (a & !(0xff >> k)) | b >> k
            }
        } else if lsb {
            a >> (8 - k) | b << k
        } else {
            a << (8 - k) | b >> k
        };
    }
    for b in &mut s[d.len() + 1..n] {
        *b = u8_();
    }
    Stream { d: s, n }
}
/// an input of T at bit k, and what follows it if T does not read all
pub fn stream<T: Cat>(k: usize, tail: usize) -> Stream {
    let (d, n) = input::<T>();
    if T::ALL {
        let mut s = [0; WIDE];
        s[..n].copy_from_slice(&d[..n]);
        return Stream { d: s, n };
    }
    behind(&d[..n], k, T::LSB, tail)
}
/// bit offsets that the configuration has
pub fn offset() -> usize {
    if cfg!(feature = "cfg_bits_any") {
        pick(0, 7)
    } else {
        0
    }
}
/// take k bits
pub fn take<R: Read + Seek>(r: &mut Reader<R>, k: usize, lsb: bool) -> Result<(), DekuError> {
    #[cfg(feature = "cfg_bits_any")]
    if k != 0 {
        let o = if lsb { Order::Lsb0 } else { Order::Msb0 };
        u8::from_reader_with_ctx(r, (Endian::Big, BitSize(k), o))?;
    }
    Ok(())
}
/// put k bits
pub fn put<W: Write + Seek>(w: &mut Writer<W>, v: u8, k: usize, lsb: bool) -> Result<(), DekuError> {
    #[cfg(feature = "cfg_bits_any")]
    if k != 0 {
        let o = if lsb { Order::Lsb0 } else { Order::Msb0 };
        v.to_writer(w, (Endian::Big, BitSize(k), o))?;
    }
    Ok(())
}
