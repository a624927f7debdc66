//! C15: all ways to read or write a value agree.
use crate::ops::*;
use crate::*;
use deku::no_std_io::Cursor;

/// slice, source, cursor, reader
fn reads<T: Cat>() {
    let k = if T::LSB { 0 } else { offset() };
    let s = stream::<T>(k, 0);
    let n = if pick(0, 1) == 0 { s.n } else { s.n * 2 / 3 };
    let d = &s.d[..n];
    let a = T::from_bytes((d, k));
    let mut src = Src::new(d);
    let b = T::from_reader((&mut src, k));
    let mut cur = Cursor::new(d);
    let c = T::from_reader((&mut cur, k));
    let mut cur = Cursor::new(d);
    let mut r = Reader::new(&mut cur);
    let e = r.skip_bits(k, Order::Msb0).and_then(|_| T::from_reader_with_ctx(&mut r, ()));
    let bits = r.bits_read;
    ck!(agree(&b, &c), "a source and a cursor agree");
    match (&a, &b, &e) {
        (Ok(((rest, off), x)), Ok((n, y)), Ok(z)) => {
            reach!("a value is read");
            obs(*n as u64);
            ck!(x == y, "slice and source give the same value");
            ck!(x == z, "slice and reader give the same value");
            ck!(*n == bits, "source and reader consume the same");
            ck!((d.len() - rest.len()) * 8 + off == bits, "slice and reader consume the same");
        }
        (Err(x), Err(y), Err(z)) => {
            reach!("an input is refused");
            ck!(kind(x) == kind(y) && kind(x) == kind(z), "the same kind of failure");
        }
        _ => fail!("the ways to read agree whether there is a value"),
    }
}
/// conversion from a slice
fn conv<T: Cat + for<'a> TryFrom<&'a [u8], Error = DekuError>>() {
    let (d, n) = input_of::<T>(T::MIN, T::MAX + 1);
    let a = T::from_bytes((&d[..n], 0));
    let b = T::try_from(&d[..n]);
    match (a, b) {
        (Ok(((rest, off), x)), Ok(y)) => {
            reach!("a value is converted");
            ck!(x == y, "conversion and slice give the same value");
            ck!(rest.len() == (off != 0) as usize, "conversion leaves no bytes over");
        }
        (Ok(((rest, off), _)), Err(e)) => {
            reach!("a conversion is refused");
            obs(rest.len() as u64);
            ck!(!rest.is_empty(), "conversion fails only when bytes are left over");
            ck!(kind(&e) == E::Parse, "bytes left over are a parse error");
        }
        (Err(e), Err(f)) => ck!(kind(&e) == kind(&f), "conversion fails the way a slice does"),
        (Err(_), Ok(_)) => fail!("conversion accepts what a slice does"),
    }
}
/// a conversion of a type that moves about
macro_rules! moves {
    ($d:meta, $q:ident; $($n:ident: [$($a:tt)*] [$($b:tt)*])*) => {$(
        const _: () = {
            #[$d]
            #[derive(PartialEq)]
            struct $n {
                $q: i8,
                $($a)*
                v: u8,
                $($b)*
                w: [u8; 0],
            }
            #[export_name = concat!("h_moves_", stringify!($n))]
            pub extern "C" fn h() {
                let d: [u8; 5] = bytes();
                let n = pick(0, 5);
                let a = $n::from_bytes((&d[..n], 0));
                let b = $n::try_from(&d[..n]);
                let mut src = Src::new(&d[..n]);
                let c = $n::from_reader((&mut src, 0));
                match (a, b, c) {
                    (Ok(((rest, off), x)), Ok(y), Ok((m, z))) => {
                        reach!("a value is converted");
                        ck!(x == y && x == z, "conversion, slice and source give the same value");
                        ck!(rest.is_empty() && off == 0 && m == 8 * n, "conversion leaves no bytes over");
                    }
                    (Ok(((rest, _), x)), Err(e), Ok((m, z))) => {
                        ck!(x == z, "slice and source give the same value");
                        ck!(!rest.is_empty() && m == 8 * (n - rest.len()), "conversion fails only when bytes are left over");
                        ck!(kind(&e) == E::Parse, "bytes left over are a parse error");
                    }
                    (Err(e), Err(f), Ok((m, _))) => {
                        // a place behind the end is not part of the slice
                        ck!(m > 8 * n, "a slice holds what is read from it");
                        ck!(kind(&e) == E::Inc && kind(&f) == E::Inc, "a place behind the end is missing");
                    }
                    (Err(e), Err(f), Err(g)) => {
                        ck!(kind(&e) == kind(&f) && kind(&e) == kind(&g), "conversion fails the way a slice and a source do")
                    }
                    _ => fail!("conversion, slice and source agree"),
                }
            }
        };
    )*}
}
moves! { derive(DekuRead), n;
    Start: [#[deku(seek_from_start = "*n as u8")]] []
    Cur: [#[deku(seek_from_current = "*n")]] []
    End: [#[deku(seek_from_end = "*n")]] []
    Past: [] [#[deku(seek_from_start = "*n as u8")]]
    PastCur: [] [#[deku(seek_from_current = "*n")]]
    PastEnd: [] [#[deku(seek_from_end = "*n")]]
}
every!("h_reads_", reads);
every!("h_conv_", conv);

#[cfg(feature = "cfg_alloc_any")]
fn writes<T: Cat + TryInto<Vec<u8>, Error = DekuError>>() {
    let v = T::gen();
    let mut s = Sink::<WIDE>::new();
    let mut w = Writer::new(&mut s);
    let want = v.to_writer(&mut w, ()).and_then(|_| w.finalize());
    let n = w.bits_written;
    let bytes = v.to_bytes();
    let mut buf = [0u8; WIDE];
    let slice = v.to_slice(&mut buf);
    #[cfg(feature = "cfg_bits_any")]
    let bits = v.to_bits();
    let into: Result<Vec<u8>, DekuError> = v.try_into();
    if want.is_err() {
        fail!("a valid value is written");
        return;
    }
    reach!("a value is written");
    obs(n as u64);
    let len = s.len;
    ck!(matches!(&bytes, Ok(b) if b[..] == s.d[..len]), "a vector holds what is written");
    ck!(matches!(&into, Ok(b) if b[..] == s.d[..len]), "a conversion holds what is written");
    ck!(matches!(slice, Ok(l) if l == len) && buf == s.d, "a slice holds what is written");
    #[cfg(feature = "cfg_bits_any")]
    match bits {
        Ok(b) => {
            ck!(b.len().div_ceil(8) == len, "a bit vector is as long as what is written");
            let whole = b.len() / 8;
            // the last byte may be cut short
            let raw = b.as_raw_slice();
            let mut i = 0;
            while i < whole {
                ck!(raw[i] == s.d[i], "a bit vector holds what is written");
                i += 1;
            }
            if whole < len && !T::LSB {
                let m = !(0xffu8 >> (b.len() % 8));
                ck!(raw[whole] & m == s.d[whole], "a bit vector ends with what is written");
            }
        }
        Err(_) => fail!("a bit vector is written"),
    }
}
#[cfg(feature = "cfg_alloc_any")]
every!("h_writes_", writes);

// ---------------------------------------------------------------- long values
#[cfg(feature = "cfg_alloc_any")]
fn long<T: crate::big::Big>() {
    let d = crate::big::value::<T>();
    let l = T::LEN + pick(0, 1);
    let mut cur = Cursor::new(&d[..l]);
    let (Ok((_, v)), Ok((n, w))) = (T::from_bytes((&d[..l], 0)), T::from_reader((&mut cur, 0))) else {
        fail!("a long value is read from a slice and from a reader");
        return;
    };
    reach!("a long value");
    ck!(v == w && n == T::LEN * 8, "slice and reader give the same long value");
    match T::try_from(&d[..l]) {
        Ok(x) => ck!(l == T::LEN && x == v, "conversion gives the same long value"),
        Err(e) => ck!(l != T::LEN && kind(&e) == E::Parse, "bytes left over are a parse error"),
    }
    let mut s = Sink::<{ crate::big::ROOM }>::new();
    let ok = {
        let mut w = Writer::new(&mut s);
        v.to_writer(&mut w, ()).is_ok() && w.finalize().is_ok()
    };
    ck!(ok && s.len == T::LEN, "a writer takes a long value");
    ck!(matches!(v.to_bytes(), Ok(b) if b[..] == s.d[..T::LEN]), "vector and writer give the same long value");
    let mut buf = [0u8; crate::big::ROOM];
    ck!(matches!(v.to_slice(&mut buf), Ok(n) if n == T::LEN) && buf[..T::LEN] == s.d[..T::LEN], "slice and writer give the same long value");
    #[cfg(feature = "cfg_bits_any")]
    ck!(matches!(v.to_bits(), Ok(b) if b.len() == T::LEN * 8 && b.as_raw_slice() == &s.d[..T::LEN]), "bit vector and writer give the same long value");
}
#[cfg(feature = "cfg_alloc_any")]
big!("h_long_", long);
