//! C05: consumption is accounted for exactly.
use crate::ops::*;
use crate::*;

/// k bits, a value, and what follows it
fn at<T: Cat>() {
    let k = offset();
    let s = stream::<T>(k, 1);
    let d = &s.d[..s.n];
    if s.n * 8 < k {
        return;
    }
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, T::LSB).is_err() {
        fail!("the bits before the value are read");
        return;
    }
    let got = T::from_reader_with_ctx(&mut r, ());
    let mut c = Cur::at(d, k);
    let want = T::dec(&mut c);
    let (Ok(v), Ok(x)) = (got, want) else { return };
    reach!("a value was read");
    obs(r.bits_read as u64);
    ck!(v == x, "the value is the one at that offset");
    ck!(r.bits_read == c.pos, "the running bit count is exact");
    #[cfg(feature = "cfg_alloc_any")]
    if cfg!(feature = "cfg_bits_any") {
        let rest = r.rest();
        // what the reader holds is the rest of the byte it is in, or a byte looked at for the end
        ck!(rest.len() == (8 - c.pos % 8) % 8, "as many bits are held as are left in the byte");
        let mut i = 0;
        while i < rest.len() {
            // the last ones of the stream are the upper ones in least significant bit order
            let b = if T::LSB { d[c.pos / 8] >> (7 - i) & 1 } else { bit(d, c.pos + i, false) };
            ck!(rest[i] as u8 == b, "the bits held are the next ones");
            i += 1;
        }
    }
    // looking for the end changes nothing
    if !T::ALL && c.pos % 8 == 0 && pick(0, 1) == 1 {
        let end = r.end();
        ck!(end == (c.pos == c.len), "the end is where there is nothing left");
        ck!(r.bits_read == c.pos, "looking for the end takes nothing");
        #[cfg(all(feature = "cfg_alloc_any", feature = "cfg_bits_any"))]
        if !end {
            let rest = r.rest();
            let mut i = 0;
            while i < rest.len() {
                ck!(i < 8 && rest[i] as u8 == bit(d, c.pos + i, false), "the byte that was looked at is still there");
                i += 1;
            }
            ck!(rest.len() == 8, "the byte that was looked at is still there");
        }
    }
    // what follows
    let left = d.len() * 8 - c.pos;
    if left >= 8 && cfg!(feature = "cfg_bits_any") {
        let want = c.u(8, true, T::LSB).unwrap_or(0);
        let got = next8(&mut r, T::LSB);
        ck!(matches!(got, Ok(x) if x as u128 == want), "the next value is read from where this one ended");
        ck!(r.bits_read == c.pos, "the running bit count is exact");
    } else if left > 0 && left < 8 {
        let got = next8(&mut r, T::LSB);
        ck!(got.is_err(), "there is no more than the stream holds");
    }
}
#[cfg(feature = "cfg_bits_any")]
fn next8<R: Read + Seek>(r: &mut Reader<R>, lsb: bool) -> Result<u8, DekuError> {
    u8::from_reader_with_ctx(r, if lsb { Order::Lsb0 } else { Order::Msb0 })
}
#[cfg(not(feature = "cfg_bits_any"))]
fn next8<R: Read + Seek>(r: &mut Reader<R>, _: bool) -> Result<u8, DekuError> {
    u8::from_reader_with_ctx(r, ())
}
/// an offset in bits, at times beyond the first byte, and an input there
fn far<T: Cat>() -> ([u8; WIDE + 2], usize, usize) {
    let k = match (cfg!(feature = "cfg_bits_any"), T::LSB) {
        (true, false) => [0, 1, 2, 3, 4, 5, 6, 7, 9, 16][pick(0, 9)],
        (true, true) => [0, 8, 16][pick(0, 2)],
        _ => [0, 8][pick(0, 1)],
    };
    let s = stream::<T>(k % 8, 0);
    let mut d = [0u8; WIDE + 2];
    for b in d.iter_mut().take(k / 8) {
        *b = u8_();
    }
    d[k / 8..][..s.n].copy_from_slice(&s.d[..s.n]);
    (d, k / 8 + s.n, k)
}
/// what is left of a slice
fn left<T: Cat>() {
    let (d, n, k) = far::<T>();
    let d = &d[..n];
    if n * 8 < k {
        return;
    }
    let got = T::from_bytes((d, k));
    let mut c = Cur::at(d, k);
    let want = T::dec(&mut c);
    let (Ok(((rest, off), v)), Ok(x)) = (got, want) else { return };
    reach!("a value was read from a slice");
    obs(rest.len() as u64);
    ck!(v == x, "the value is the one at that offset of the slice");
    ck!(off == c.pos % 8, "the bit offset is where the value ended");
    ck!(
        rest.len() == d.len() - c.pos / 8 && core::ptr::eq(rest, &d[c.pos / 8..]),
        "the remainder starts at the byte where the value ended"
    );
}
/// a source that is somewhere in its middle
fn mid<T: Cat>() {
    let lead = 1;
    let (b, n, k) = far::<T>();
    if n * 8 < k {
        return;
    }
    let mut d = [0u8; WIDE + 3];
    d[lead..lead + n].copy_from_slice(&b[..n]);
    let mut src = Src::new(&d[..lead + n]);
    src.pos = lead;
    let got = T::from_reader((&mut src, k));
    let mut c = Cur::at(&b[..n], k);
    let want = T::dec(&mut c);
    let (Ok((bits, v)), Ok(x)) = (got, want) else { return };
    reach!("a value was read from a source");
    obs(bits as u64);
    ck!(v == x, "the value is the one at that offset of the source");
    ck!(bits == c.pos, "the number of bits read is exact");
    ck!(T::ALL || src.pos == lead + c.pos.div_ceil(8), "no more bytes are taken than the value needs");
}
every!("h_at_", at);
every!("h_left_", left);
every!("h_mid_", mid);

// ---------------------------------------------------------------- long values
#[cfg(feature = "cfg_alloc_any")]
fn long<T: crate::big::Big>() {
    let d = crate::big::input::<T>();
    let t = T::LEN + pick(0, 2);
    let Ok(((rest, off), v)) = T::from_bytes((&d[..t], 0)) else {
        fail!("a long value is read");
        return;
    };
    ck!(off == 0 && rest.len() == t - T::LEN && *rest == d[T::LEN..t], "what a long value leaves over is exact");
    let mut src = Src::new(&d);
    let mut r = Reader::new(&mut src);
    let Ok(w) = T::from_reader_with_ctx(&mut r, ()) else {
        fail!("a long value is read");
        return;
    };
    reach!("a long value");
    ck!(v == w, "slice and reader give the same long value");
    ck!(r.bits_read == T::LEN * 8, "the running bit count is exact behind a long value");
    ck!(matches!(u8::from_reader_with_ctx(&mut r, ()), Ok(x) if x == d[T::LEN]), "what follows a long value is right behind it");
    drop(r);
    ck!(src.pos == T::LEN + 1, "a long value takes its bytes");
}
#[cfg(feature = "cfg_alloc_any")]
big!("h_long_", long);

// ---------------------------------------------------------------- what is given back
/// the source comes back as far as it was read, with a byte looked at for the end taken from it
#[export_name = "h_inner"]
pub extern "C" fn inner() {
    let d: [u8; 6] = bytes();
    let mut r = Reader::new(Src::new(&d));
    let n = pick(0, 6);
    for i in 0..n {
        ck!(matches!(u8::from_reader_with_ctx(&mut r, ()), Ok(x) if x == d[i]), "bytes are read one after the other");
    }
    let peek = pick(0, 1) == 1 && !r.end();
    ck!(r.bits_read == 8 * n, "looking for the end takes nothing");
    reach!("a source is given back");
    if pick(0, 1) == 0 {
        let at = r.as_mut().pos;
        ck!(at == n + peek as usize, "a source is seen as far as it was read");
        // and goes on from there
        ck!(r.end() == (n == 6), "the end is where there is nothing left");
        if n < 6 {
            ck!(matches!(u8::from_reader_with_ctx(&mut r, ()), Ok(x) if x == d[n]), "looking at a source changes nothing");
        }
    } else {
        let s = r.into_inner();
        ck!(s.pos == n + peek as usize, "a source is given back as far as it was read");
    }
}

/// values far into a slice, at any bit
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuRead, PartialEq)]
#[deku(endian = "big")]
pub struct Far {
    #[deku(bits = 3)]
    a: u8,
    #[deku(bits = 9)]
    b: u16,
    c: u8,
}
#[cfg(feature = "cfg_bits_any")]
#[export_name = "h_faroff"]
pub extern "C" fn faroff() {
    let d: [u8; 300] = bytes();
    let k = [0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 290, 295][pick(0, 18)] * 8 + pick(0, 7);
    let mut c = Cur::at(&d, k);
    let (a, b, x) = (c.u(3, true, false), c.u(9, true, false), c.u(8, true, false));
    let (Ok(a), Ok(b), Ok(x)) = (a, b, x) else { return };
    let Ok(((rest, off), v)) = Far::from_bytes((&d, k)) else {
        fail!("a value far into a slice is read");
        return;
    };
    reach!("a value far into a slice");
    ck!(v.a as u128 == a && v.b as u128 == b && v.c as u128 == x, "a value far into a slice is the one that is there");
    ck!(off == c.pos % 8 && *rest == d[c.pos / 8..], "what is left far into a slice is exact");
    let mut src = Src::new(&d);
    let Ok((n, w)) = Far::from_reader((&mut src, k)) else {
        fail!("a value far into a source is read");
        return;
    };
    ck!(n == c.pos && w == v, "a value far into a source is the same");
    ck!(src.pos == c.pos.div_ceil(8), "no more of a source is taken");
}
