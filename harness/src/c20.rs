//! C20: behaviour does not depend on the enabled features. Every configuration
//! is compared with the same reference.
use crate::ops::*;
use crate::*;
use deku::no_std_io::SeekFrom;

/// read from any bytes, whole or cut anywhere
fn reads<T: Cat>() {
    let k = if cfg!(feature = "cfg_bits_any") { pick(0, 1) * 5 } else { 0 };
    let s = stream::<T>(k, pick(0, 1));
    let n = if pick(0, 1) == 0 { s.n } else { pick(0, s.n) };
    if n * 8 < k {
        return;
    }
    let d = &s.d[..n];
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, T::LSB).is_err() {
        return;
    }
    let got = T::from_reader_with_ctx(&mut r, ());
    let mut c = Cur::at(d, k);
    let want = T::dec(&mut c);
    obs(got.is_ok() as u64);
    match (&got, &want) {
        (Ok(g), Ok(w)) => {
            reach!("a value is read");
            ck!(g == w, "the value read is the same");
            ck!(r.bits_read == c.pos, "the bits consumed are the same");
            let left = c.len - c.pos;
            if left >= 8 {
                let next = u8::from_reader_with_ctx(&mut r, if T::LSB { Order::Lsb0 } else { Order::Msb0 });
                ck!(matches!(next, Ok(x) if c.u(8, true, T::LSB) == Ok(x as u128)), "what follows is the same");
            } else {
                let byte = u8::from_reader_with_ctx(&mut r, ());
                ck!(byte.is_err(), "what follows is the same");
            }
        }
        (Err(e), Err(w)) => {
            reach!("an input is refused");
            ck!(same_kind(e, *w), "the failure is the same");
        }
        (Ok(_), Err(_)) => fail!("the same inputs are refused"),
        (Err(_), Ok(_)) => fail!("the same inputs are accepted"),
    }
    if T::LSB && k != 0 {
        return;
    }
    // the same from a slice and from a reader
    let (a, b) = (T::from_bytes((d, k)), T::from_reader((&mut Src::new(d), k)));
    match want {
        Ok(w) => {
            let end = Cur::at(d, k);
            let mut end = end;
            let _ = T::dec(&mut end);
            let p = end.pos;
            ck!(
                matches!(&a, Ok(((rest, off), v)) if *v == w && rest.len() == n - p / 8 && *off == p % 8),
                "the remainder of a slice is the same"
            );
            ck!(matches!(&b, Ok((m, v)) if *v == w && *m == p), "the amount read is the same");
        }
        Err(w) => {
            ck!(matches!(&a, Err(e) if same_kind(e, w)), "a slice is refused the same way");
            ck!(matches!(&b, Err(e) if same_kind(e, w)), "a source is refused the same way");
        }
    }
}
/// write any value, with enough room or less
fn writes<T: Cat>() {
    let k = if cfg!(feature = "cfg_bits_any") { pick(0, 1) * 5 } else { 0 };
    let x = u8_() & mask(k) as u8;
    let v = T::gen();
    let mut s = Sink::<CAP>::new();
    let mut w = Writer::new(&mut s);
    let ok = put(&mut w, x, k, T::LSB).and_then(|_| v.to_writer(&mut w, ())).and_then(|_| w.finalize()).is_ok();
    let mut o = O::new();
    o.put(x as u128, k, true, T::LSB);
    v.enc(&mut o);
    obs(s.len as u64);
    reach!("a value is written");
    ck!(ok, "the same values are accepted");
    ck!(s.len == o.bytes() && s.d == o.d, "the bytes written are the same");
    // slices of every length
    let mut o = O::new();
    v.enc(&mut o);
    let len = o.bytes();
    let room = pick(0, 2);
    let room = [len, len.saturating_sub(1), len + 1][room];
    let mut buf = [0u8; CAP];
    let got = v.to_slice(&mut buf[..room.min(CAP)]);
    if room >= len {
        ck!(matches!(got, Ok(l) if l == len), "a value is written to a slice that has room");
        ck!(buf == o.d, "the bytes in the slice are the same");
    } else {
        ck!(matches!(got, Err(DekuError::Io(_))), "a slice without room is refused the same way");
    }
    #[cfg(feature = "cfg_alloc_any")]
    ck!(matches!(v.to_bytes(), Ok(b) if b[..] == o.d[..len]), "the bytes in the vector are the same");
}
every!("h_reads_", reads);
every!("h_writes_", writes);

/// numbers in every context that needs no bits
trait Whole:
    Sized
    + for<'a> DekuReader<'a, (Endian, ByteSize, Order)>
    + for<'a> DekuReader<'a, (Endian, ByteSize)>
    + for<'a> DekuReader<'a, ByteSize>
    + for<'a> DekuReader<'a, (Endian, Order)>
    + for<'a> DekuReader<'a, Endian>
    + for<'a> DekuReader<'a, Order>
    + for<'a> DekuReader<'a, ()>
    + DekuWriter<(Endian, ByteSize, Order)>
    + DekuWriter<(Endian, ByteSize)>
    + DekuWriter<ByteSize>
    + DekuWriter<(Endian, Order)>
    + DekuWriter<Endian>
    + DekuWriter<Order>
    + DekuWriter<()>
{
    const N: usize;
    const SIGNED: bool;
    fn bits(&self) -> u128;
    fn any() -> Self;
}
macro_rules! whole { ($($t:ty, $u:ty, $s:expr;)*) => {$(
    impl Whole for $t {
        const N: usize = core::mem::size_of::<$t>();
        const SIGNED: bool = $s;
        fn bits(&self) -> u128 { <$u>::from_ne_bytes(self.to_ne_bytes()) as u128 }
        fn any() -> Self { <$t>::from_ne_bytes(bytes()) }
    }
    const _: () = {
        #[export_name = concat!("h_num_", stringify!($t))]
        pub extern "C" fn h() { number::<$t>() }
    };
)*} }
whole! {
    u8, u8, false;
    u16, u16, false;
    u32, u32, false;
    u64, u64, false;
    u128, u128, false;
    usize, usize, false;
    i8, u8, true;
    i16, u16, true;
    i32, u32, true;
    i64, u64, true;
    i128, u128, true;
    isize, usize, true;
    f32, u32, false;
    f64, u64, false;
}
fn number<T: Whole>() {
    let f = pick(0, 6);
    let be = pick(0, 1) == 1;
    let lsb = pick(0, 1) == 1;
    let e = if be { Endian::Big } else { Endian::Little };
    let o = if lsb { Order::Lsb0 } else { Order::Msb0 };
    // a width on a type of one byte is ignored
    let n = if f < 3 && T::N > 1 { pick(0, T::N + 1) } else { T::N };
    let big = be && f != 2 && f != 5 && f != 6;
    let lsb = lsb && matches!(f, 0 | 3 | 5);
    if pick(0, 1) == 0 {
        let d: [u8; 18] = bytes();
        let len = pick(0, 2);
        let len = [n + 1, n, n.saturating_sub(1)][len];
        let peek = pick(0, 1) == 1;
        let mut src = Src::new(&d[..len]);
        let mut r = Reader::new(&mut src);
        if peek {
            ck!(r.end() == (len == 0), "the end is the same");
        }
        let v: Result<T, _> = match f {
            0 => T::from_reader_with_ctx(&mut r, (e, ByteSize(n), o)),
            1 => T::from_reader_with_ctx(&mut r, (e, ByteSize(n))),
            2 => T::from_reader_with_ctx(&mut r, ByteSize(n)),
            3 => T::from_reader_with_ctx(&mut r, (e, o)),
            4 => T::from_reader_with_ctx(&mut r, e),
            5 => T::from_reader_with_ctx(&mut r, o),
            _ => T::from_reader_with_ctx(&mut r, ()),
        };
        obs(v.is_ok() as u64);
        match v {
            Ok(v) => {
                reach!("a number is read");
                ck!(n <= T::N && len >= n, "a number is refused in the same cases");
                let mut w = dec(&d, 0, n * 8, big, lsb);
                if T::SIGNED {
                    w = sext(w, n * 8) as u128 & mask(T::N * 8);
                }
                ck!(v.bits() == w, "the number read is the same");
                ck!(r.bits_read == n * 8, "the bytes consumed are the same");
                ck!(r.end() == (len == n), "the end after it is the same");
            }
            Err(e) => {
                reach!("a number is not read");
                ck!(n > T::N || len < n, "a number is accepted in the same cases");
                ck!(kind(&e) == if n > T::N { E::Parse } else { E::Inc }, "a number is refused the same way");
            }
        }
    } else {
        let v = T::any();
        let mut s = Sink::<CAP>::new();
        let mut w = Writer::new(&mut s);
        let r = match f {
            0 => v.to_writer(&mut w, (e, ByteSize(n), o)),
            1 => v.to_writer(&mut w, (e, ByteSize(n))),
            2 => v.to_writer(&mut w, ByteSize(n)),
            3 => v.to_writer(&mut w, (e, o)),
            4 => v.to_writer(&mut w, e),
            5 => v.to_writer(&mut w, o),
            _ => v.to_writer(&mut w, ()),
        };
        obs(r.is_ok() as u64);
        match r {
            Ok(()) => {
                reach!("a number is written");
                ck!(n <= T::N, "a number is refused in the same cases");
                ck!(w.bits_written == n * 8, "the bytes written are counted the same");
                ck!(w.finalize().is_ok() && s.len == n, "as many bytes are written");
                ck!(dec(&s.d, 0, n * 8, big, lsb) == v.bits() & mask(n * 8), "the bytes of a number are the same");
            }
            Err(e) => {
                reach!("a number is not written");
                ck!(n > T::N, "a number is accepted in the same cases");
                ck!(kind(&e) == E::Parse, "a number is refused the same way");
            }
        }
    }
}

/// the parts of the reader and the writer that are there in every configuration
const L: usize = 6;
fn place(p: usize, len: usize) -> (SeekFrom, Option<usize>) {
    let a = pick(0, 8) as i64 - 4;
    let (s, b) = match pick(0, 2) {
        0 => (SeekFrom::Start((a + 4) as u64), 4),
        1 => (SeekFrom::Current(a), p),
        _ => (SeekFrom::End(a), len),
    };
    let t = b as i64 + a;
    (s, if t < 0 { None } else { Some(t as usize) })
}
#[export_name = "h_reader"]
pub extern "C" fn reader() {
    let d: [u8; L] = bytes();
    let n = if pick(0, 1) == 0 { L } else { 2 };
    let mut src = Src::new(&d[..n]);
    let mut r = Reader::new(&mut src);
    // where the reference is
    let mut p = 0usize;
    let left = |p: usize| n.saturating_sub(p);
    let ops = if cfg!(feature = "thorough") { 4 } else { 3 };
    for _ in 0..ops {
        match pick(0, 6) {
            0 => {
                let m = pick(0, 3);
                let mut b = [0u8; 3];
                let got = r.read_bytes(m, &mut b, Order::Msb0);
                ck!(got.is_ok() == (m <= left(p)), "bytes are read in the same cases");
                if let Err(e) = got {
                    ck!(kind(&e) == E::Inc, "bytes that are not there are missing data");
                    return;
                }
                for i in 0..m {
                    ck!(b[i] == d[p + i], "the bytes read are the same");
                }
                p += m;
            }
            1 => {
                let mut b = [0u8; 2];
                let got = r.read_bytes_const(&mut b, Order::Lsb0);
                ck!(got.is_ok() == (2 <= left(p)), "bytes are read in the same cases");
                if got.is_err() {
                    return;
                }
                ck!(b[0] == d[p] && b[1] == d[p + 1], "the bytes read are the same");
                p += 2;
            }
            2 => {
                let mut b = [0u8; 1];
                let got = r.read_bytes_const_into(&mut b, Order::Msb0);
                ck!(got.is_ok() == (1 <= left(p)), "bytes are read in the same cases");
                if got.is_err() {
                    return;
                }
                ck!(b[0] == d[p], "the bytes read are the same");
                p += 1;
            }
            3 => {
                let m = pick(0, 2);
                let got = r.skip_bits(8 * m, Order::Msb0);
                ck!(got.is_ok() == (m <= left(p)), "bytes are skipped in the same cases");
                if let Err(e) = got {
                    ck!(kind(&e) == E::Inc, "bytes that are not there are missing data");
                    return;
                }
                p += m;
            }
            4 => {
                ck!(r.end() == (left(p) == 0), "the end is the same");
            }
            5 => {
                let (s, t) = place(p, n);
                let got = r.seek(s);
                ck!(got.is_ok() == t.is_some(), "a place is refused in the same cases");
                let Some(t) = t else { return };
                ck!(matches!(got, Ok(x) if x as usize == t), "the place is the same");
                p = t;
            }
            _ => {
                #[cfg(feature = "cfg_alloc_any")]
                {
                    let rest = r.rest();
                    // nothing, or a byte looked at for the end
                    ck!(rest.is_empty() || rest.len() == 8, "bits are held in the same cases");
                    for i in 0..rest.len() {
                        ck!(rest[i] as u8 == bit(&d, p * 8 + i, false), "the bits held are the same");
                    }
                    return;
                }
            }
        }
        ck!(r.bits_read == p * 8, "the bits read are counted the same");
    }
    reach!("the reader is used");
    obs(p as u64);
    if p <= n {
        ck!(r.end() == (p == n), "the end is the same");
        let mut b = [0u8; L];
        if r.read_bytes(n - p, &mut b, Order::Msb0).is_err() {
            fail!("the rest is read");
        }
        for i in p..n {
            ck!(b[i - p] == d[i], "the rest is the same");
        }
    }
}
#[export_name = "h_writer"]
pub extern "C" fn writer() {
    let d: [u8; L] = bytes();
    let mut s = Sink::<8>::new();
    let mut w = Writer::new(&mut s);
    let mut o = [0u8; 8];
    let (mut p, mut len, mut all) = (0usize, 0usize, 0usize);
    let ops = if cfg!(feature = "thorough") { 4 } else { 3 };
    for i in 0..ops {
        match pick(0, 2) {
            0 => {
                let m = pick(0, 3);
                let ok = m == 0 || p + m <= 8;
                let got = w.write_bytes(&d[i..][..m]);
                ck!(got.is_ok() == ok, "bytes are written in the same cases");
                if let Err(e) = got {
                    ck!(matches!(kind(&e), E::Io(_)), "lack of room is the same failure");
                    return;
                }
                for j in 0..m {
                    o[p + j] = d[i + j];
                }
                p += m;
                all += m;
                if m > 0 {
                    len = len.max(p);
                }
            }
            1 => {
                let (to, t) = place(p, len);
                let got = w.seek(to);
                ck!(got.is_ok() == t.is_some(), "a place is refused in the same cases");
                let Some(t) = t else { return };
                ck!(matches!(got, Ok(x) if x as usize == t), "the place is the same");
                p = t;
            }
            _ => ck!(w.finalize().is_ok(), "writing ends"),
        }
        ck!(w.bits_written == all * 8, "the bits written are counted the same");
    }
    reach!("the writer is used");
    ck!(w.finalize().is_ok(), "writing ends");
    obs(s.len as u64);
    ck!(s.len == len && s.d == o, "the bytes written are the same");
}
/// static sizes
#[export_name = "h_sizes"]
pub extern "C" fn sizes() {
    ck!(
        PadBytes::SIZE_BITS == 14 * 8 && PadBytes::SIZE_BYTES == Some(14) && <(u8, [u16; 3], bool)>::SIZE_BITS == 64,
        "static sizes are the same"
    );
}

// ---------------------------------------------------------------- long values
#[cfg(feature = "cfg_alloc_any")]
fn long<T: crate::big::Big>() {
    let d = crate::big::value::<T>();
    let l = crate::big::spot(T::LEN + 1);
    match (T::from_bytes((&d[..l], 0)), l >= T::LEN) {
        (Ok(((rest, off), v)), true) => {
            reach!("a long value is read");
            ck!(v.is(&d), "a long value is what its bytes stand for");
            ck!(off == 0 && rest.len() == l - T::LEN, "what a long value leaves over is exact");
            let mut buf = [0u8; crate::big::ROOM];
            ck!(matches!(v.to_slice(&mut buf), Ok(n) if n == T::LEN) && buf[..T::LEN] == d[..T::LEN], "a long value is written to a slice");
            ck!(matches!(v.to_bytes(), Ok(b) if b[..] == d[..T::LEN]), "a long value is written");
        }
        (Err(e), false) => {
            reach!("a long value is cut");
            ck!(kind(&e) == E::Inc, "missing data is reported as such");
        }
        _ => fail!("a long value is read when all of it is there"),
    }
}
#[cfg(feature = "cfg_alloc_any")]
big!("h_long_", long);
