//! C03: writing and reading derived types are inverse.
use crate::cat::*;
use crate::*;

/// value to bytes to value
fn wr<T: Cat>() {
    let v = T::gen();
    let mut s = Sink::<CAP>::new();
    let mut w = Writer::new(&mut s);
    if v.to_writer(&mut w, ()).is_err() || w.finalize().is_err() {
        fail!("a valid value is written");
        return;
    }
    reach!("a value was written");
    let len = s.len;
    let mut src = Src::new(&s.d[..len]);
    let mut r = Reader::new(&mut src);
    match T::from_reader_with_ctx(&mut r, ()) {
        Ok(x) => {
            reach!("a written value was read");
            obs(len as u64);
            ck!(x == v, "the value read is the one written");
            ck!(r.bits_read.div_ceil(8) == len, "all that was written is read");
        }
        Err(_) => fail!("what was written can be read"),
    }
}
/// bytes to value to bytes
fn rw<T: Cat>() {
    let (mut d, n) = input::<T>();
    let mut src = Src::new(&d[..n]);
    let mut r = Reader::new(&mut src);
    let Ok(v) = T::from_reader_with_ctx(&mut r, ()) else {
        reach!("bytes that are not accepted");
        return;
    };
    reach!("bytes that are accepted");
    let n = r.bits_read;
    let mut s = Sink::<CAP>::new();
    let mut w = Writer::new(&mut s);
    if v.to_writer(&mut w, ()).is_err() || w.finalize().is_err() {
        fail!("an accepted value can be written");
        return;
    }
    let len = n.div_ceil(8);
    if T::PADS {
        // the bits skipped are written as zeroes
        let Ok(w) = T::dec(&mut Cur::new(&d[..T::MAX])) else { return };
        let mut o = O::new();
        w.enc(&mut o);
        d = o.d;
    }
    ck!(s.len == len, "as many bytes are written as were consumed");
    if s.len != len {
        return;
    }
    let mut i = 0;
    while i < len {
        let mut want = d[i];
        if i + 1 == len && n % 8 != 0 {
            want &= if T::LSB { 0xff >> (8 - n % 8) } else { 0xff << (8 - n % 8) };
        }
        obs(s.d[i] as u64);
        ck!(s.d[i] == want, "the bytes written are those consumed");
        i += 1;
    }
}
every!("h_wr_", wr);
twoway!("h_rw_", rw);

// ---------------------------------------------------------------- long values
#[cfg(feature = "cfg_alloc_any")]
fn long<T: crate::big::Big>() {
    let d = crate::big::value::<T>();
    let Ok((_, v)) = T::from_bytes((&d[..T::LEN], 0)) else {
        fail!("a long value is read");
        return;
    };
    reach!("a long value");
    ck!(v.is(&d), "a long value is what its bytes stand for");
    let Ok(b) = v.to_bytes() else {
        fail!("a long value is written");
        return;
    };
    ck!(b[..] == d[..T::LEN], "a long value is written as the bytes it was read from");
}
#[cfg(feature = "cfg_alloc_any")]
big!("h_long_", long);
