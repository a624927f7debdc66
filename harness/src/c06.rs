//! C06: untrusted input never crashes, hangs or exhausts memory.
//!
//! That no path panics, overflows, accesses memory out of bounds, exceeds the
//! step limit or makes an allocation above the limit is decided by the engine.
use crate::ops::*;
use crate::*;

/// any bytes of any length
fn any<T: Cat>() {
    let (d, n) = input_of::<T>(0, T::MAX + 1);
    let mut src = Src::new(&d[..n]);
    let mut r = Reader::new(&mut src);
    let live = heap();
    let got = T::from_reader_with_ctx(&mut r, ());
    obs(r.bits_read as u64);
    match got {
        Ok(_) => reach!("some input is accepted"),
        Err(_) => {
            reach!("some input is refused");
            ck!(true, "returns");
        }
    }
}
/// starting anywhere in a slice
fn off<T: Cat>() {
    let k = offset();
    let s = stream::<T>(k, 0);
    if let Ok(((rest, o), _)) = T::from_bytes((&s.d[..s.n], k)) {
        obs(rest.len() as u64);
        obs(o as u64);
    }
}
every!("h_any_", any);
every!("h_off_", off);

/// a quantity of 64 bits that the input states
fn huge<T: for<'a> DekuContainerRead<'a>>(lo: u64) {
    let n = pick(0, 12);
    let mut d = [0u8; 12];
    for b in d.iter_mut().take(n) {
        *b = u8_();
    }
    if n >= 8 {
        // small quantities one by one, and all others from `lo`
        let q = u64::from_le_bytes([d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]]);
        let k = pick(0, 9) as u64;
        if k < 9 {
            assume(q == k);
            d[..8].copy_from_slice(&k.to_le_bytes());
        } else {
            assume(q >= lo);
        }
    }
    let mut src = Src::new(&d[..n]);
    let mut r = Reader::new(&mut src);
    let got = T::from_reader_with_ctx(&mut r, ());
    obs(got.is_ok() as u64);
    match got {
        Ok(_) => reach!("a stated quantity is accepted"),
        Err(_) => reach!("a stated quantity is refused"),
    }
}
macro_rules! stated {
    ($d:meta, $q:ident, $lo:expr; $($(#[$c:meta])* $n:ident: [$($a:tt)*] {$($t:tt)*};)*) => {$(
        $(#[$c])*
        const _: () = {
            #[$d]
            struct $n {
                #[deku(endian = "little")]
                $q: u64,
                #[deku($($a)*)]
                v: $($t)*,
            }
            #[export_name = concat!("h_huge_", stringify!($n))]
            pub extern "C" fn h() { huge::<$n>($lo) }
        };
    )*}
}
#[derive(DekuRead, PartialEq, Eq, Hash, Clone)]
struct Pair {
    a: u8,
    #[deku(cond = "*a == 1")]
    b: Option<u8>,
}
stated! { derive(DekuRead), n, 9;
    Bytes: [bytes = "*n as usize"] {u32};
    #[cfg(feature = "cfg_bits_any")] BitsN: [bits = "*n as usize"] {u32};
    BytesI16: [bytes = "*n as usize"] {i16};
    BytesBe: [bytes = "*n as usize", endian = "big"] {i32};
    BytesI64: [bytes = "*n as usize"] {i64};
    BytesU128: [bytes = "*n as usize", endian = "big"] {u128};
    #[cfg(feature = "cfg_bits_any")] BytesLsb: [bytes = "*n as usize", bit_order = "lsb", endian = "little"] {i32};
    #[cfg(feature = "cfg_bits_any")] BytesLsbBe: [bytes = "*n as usize", bit_order = "lsb", endian = "big"] {u64};
    #[cfg(feature = "cfg_bits_any")] BytesMid: [bytes = "*n as usize", pad_bits_before = "3"] {i32};
    #[cfg(feature = "cfg_bits_any")] BitsI32: [bits = "*n as usize"] {i32};
    #[cfg(feature = "cfg_bits_any")] BitsBe: [bits = "*n as usize", endian = "big"] {i64};
    #[cfg(feature = "cfg_bits_any")] BitsLsb: [bits = "*n as usize", bit_order = "lsb"] {u32};
    #[cfg(feature = "cfg_bits_any")] BitsLsbBe: [bits = "*n as usize", bit_order = "lsb", endian = "big"] {i16};
    #[cfg(feature = "cfg_bits_any")] BitsMsb: [bits = "*n as usize", bit_order = "msb", endian = "big"] {u16};
    #[cfg(feature = "cfg_bits_any")] BitsMid: [bits = "*n as usize", pad_bits_before = "5"] {u64};
    #[cfg(feature = "cfg_bits_any")] BitsBool: [bits = "*n as usize"] {bool};
    #[cfg(feature = "cfg_bits_any")] PadBits: [pad_bits_before = "*n"] {u8};
    #[cfg(feature = "cfg_bits_any")] PadBytes: [pad_bytes_before = "*n"] {u8};
    #[cfg(feature = "cfg_bits_any")] PadBoth: [pad_bytes_after = "*n as usize", pad_bits_after = "*n as usize"] {u8};
    #[cfg(feature = "cfg_bits_any")] PadByte: [pad_bytes_after = "*n as u8"] {u8};
    #[cfg(feature = "cfg_bits_any")] PadNeg: [pad_bytes_after = "*n as i64", pad_bits_before = "1"] {u8};
    SeekStart: [seek_from_start = "*n"] {u8};
    SeekStartNeg: [seek_from_start = "*n as i64"] {u8};
    SeekEnd: [seek_from_end = "*n"] {u8};
    SeekEndNeg: [seek_from_end = "*n as i64"] {u8};
    SeekCur: [seek_from_current = "*n"] {u8};
    SeekCurNeg: [seek_from_current = "*n as i64"] {u8};
}
#[cfg(feature = "cfg_alloc_any")]
stated! { derive(DekuRead), n, 1 << 16;
    CntU8: [count = "n"] {Vec<u8>};
    CntU32: [count = "n"] {Vec<u32>};
    CntPair: [count = "n"] {Vec<Pair>};
    CntBox: [count = "n"] {Box<[u8]>};
    CntBoxPair: [count = "n"] {Box<[Pair]>};
    CntArc: [count = "n"] {std::sync::Arc<[u8]>};
    CntArray: [count = "n"] {Vec<[u8; 3]>};
    CntTuple: [count = "n"] {Vec<(u8, u16)>};
    CntVec: [count = "n", ctx = "Limit::from(2usize), ()"] {Vec<Vec<u8>>};
}
stated! { derive(DekuRead), n, 9;
    BytesU8: [bytes_read = "*n as usize"] {Vec<u8>};
    BytesU16: [bytes_read = "*n as usize"] {Vec<u16>};
    BytesPair: [bytes_read = "*n as usize"] {Vec<Pair>};
    BytesBox: [bytes_read = "*n as usize"] {Box<[Pair]>};
    UntilN: [until = "|x: &u8| *x as u64 == *n"] {Vec<u8>};
}
#[cfg(all(feature = "cfg_alloc_any", feature = "cfg_bits_any"))]
stated! { derive(DekuRead), n, 1 << 16;
    CntBits: [count = "n", bits = 3] {Vec<u8>};
    CntBytes: [count = "n", bytes = 3] {Vec<u32>};
}
stated! { derive(DekuRead), n, 9;
    BitsU8: [bits_read = "*n as usize"] {Vec<u8>};
    BitsBits: [bits_read = "*n as usize", bits = 3] {Vec<u8>};
    BitsPair: [bits_read = "*n as usize"] {Vec<Pair>};
    ExactN: [ctx = "ReadExact(*n as usize)"] {Vec<u8>};
}
#[cfg(feature = "cfg_std_any")]
stated! { derive(DekuRead), n, 1 << 16;
    Str: [bytes = "*n as usize"] {std::ffi::CString};
    CntMap: [count = "n"] {std::collections::HashMap<u8, u8, BH>};
    CntSet: [count = "n"] {std::collections::HashSet<u16, BH>};
}
stated! { derive(DekuRead), n, 9;
    BytesMap: [bytes_read = "*n as usize"] {std::collections::HashMap<u8, u16, BH>};
    BytesSet: [bytes_read = "*n as usize"] {std::collections::HashSet<Pair, BH>};
}
#[cfg(all(feature = "cfg_std_any", feature = "cfg_bits_any"))]
stated! { derive(DekuRead), n, 9;
    BitsMap: [bits_read = "*n as usize"] {std::collections::HashMap<u8, u16, BH>};
    BitsSet: [bits_read = "*n as usize", bits = 5] {std::collections::HashSet<u8, BH>};
}
