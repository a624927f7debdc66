//! C14: unseekable streams give the same results as seekable ones.
use crate::ops::*;
use crate::*;
use deku::noseek::NoSeek;

fn run<T: Cat, R: Read + Seek>(src: R, k: usize) -> (Result<T, DekuError>, usize) {
    let mut r = Reader::new(src);
    if let Err(e) = take(&mut r, k, T::LSB) {
        return (Err(e), r.bits_read);
    }
    let v = T::from_reader_with_ctx(&mut r, ());
    (v, r.bits_read)
}
/// a source without `Seek`
struct Pipe<'a, 'b>(&'a mut Src<'b>);
impl Read for Pipe<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> deku::no_std_io::Result<usize> {
        self.0.read(buf)
    }
}
struct Drain<'a, const N: usize>(&'a mut Sink<N>);
impl<const N: usize> Write for Drain<'_, N> {
    fn write(&mut self, buf: &[u8]) -> deku::no_std_io::Result<usize> {
        self.0.write(buf)
    }
    fn flush(&mut self) -> deku::no_std_io::Result<()> {
        Ok(())
    }
}
fn read<T: Cat>() {
    let k = offset();
    let s = stream::<T>(k, 0);
    let n = if pick(0, 1) == 0 { s.n } else { s.n / 2 };
    let d = &s.d[..n];
    let mut a = Src::new(d);
    let want = run::<T, _>(&mut a, k);
    let mut b = Src::new(d);
    let got = run::<T, _>(NoSeek::new(Pipe(&mut b)), k);
    obs(got.1 as u64);
    match &want.0 {
        Ok(_) => reach!("a value is read"),
        Err(_) => reach!("an input is refused"),
    }
    ck!(agree(&got.0, &want.0), "the same value or the same kind of failure");
    ck!(want.0.is_err() || got.1 == want.1 && a.pos == b.pos, "the same consumption");
}
/// through the entry point that takes a bit offset
fn entry<T: Cat>() {
    let k = if T::LSB { 0 } else { offset() };
    let s = stream::<T>(k, 0);
    let d = &s.d[..s.n];
    let mut a = Src::new(d);
    let want = T::from_reader((&mut a, k));
    let mut b = Src::new(d);
    let mut p = NoSeek::new(Pipe(&mut b));
    let got = T::from_reader((&mut p, k));
    ck!(agree(&got, &want), "the same value or the same kind of failure");
    ck!(want.is_err() || a.pos == b.pos, "the same consumption");
}
fn write<T: Cat>() {
    let k = offset();
    let v = T::gen();
    let x = if k == 0 { 0 } else { u8_() & (0xff >> (8 - k)) };
    let mut a = Sink::<WIDE>::new();
    let mut w = Writer::new(&mut a);
    let want = put(&mut w, x, k, T::LSB).and_then(|_| v.to_writer(&mut w, ())).and_then(|_| w.finalize());
    let n = w.bits_written;
    let mut b = Sink::<WIDE>::new();
    let mut w = Writer::new(NoSeek::new(Drain(&mut b)));
    let got = put(&mut w, x, k, T::LSB).and_then(|_| v.to_writer(&mut w, ())).and_then(|_| w.finalize());
    let m = w.bits_written;
    drop(w);
    reach!("a value is written");
    obs(m as u64);
    ck!(agree(&got, &want) && n == m, "the same outcome");
    ck!(a.len == b.len && a.d == b.d, "the same bytes");
}
every!("h_read_", read);
every!("h_entry_", entry);
every!("h_write_", write);

/// asking where a reader is, after the end was looked for
#[export_name = "h_place"]
pub extern "C" fn h_place() {
    fn go<R: Read + Seek>(src: R, n: usize, look: bool) -> (Result<u64, ()>, Result<u8, E>) {
        let mut r = Reader::new(src);
        let mut i = 0;
        while i < n {
            if u8::from_reader_with_ctx(&mut r, ()).is_err() {
                return (Err(()), Err(E::Inc));
            }
            i += 1;
        }
        if look {
            r.end();
        }
        let at = r.seek(SeekFrom::Current(0)).map_err(|_| ());
        (at, u8::from_reader_with_ctx(&mut r, ()).map_err(|e| kind(&e)))
    }
    let d: [u8; 3] = bytes();
    let (n, look) = (pick(0, 3), pick(0, 1) == 1);
    let a = go(Src::new(&d), n, look);
    let mut b = Src::new(&d);
    let b = go(NoSeek::new(Pipe(&mut b)), n, look);
    reach!("the place is asked for");
    obs(n as u64);
    ck!(a.0 == Ok(n as u64), "the place is where the next byte is read from");
    ck!(a.0 == b.0, "the place is known without seeking");
    ck!(a.1 == b.1 && (n == 3 || a.1 == Ok(d[n % 3])), "asking for the place moves nothing");
}

macro_rules! seeks {
    ($d:meta, $q:ident; $($n:ident: [$($a:tt)*])*) => {$(
        const _: () = {
            #[$d]
            #[derive(PartialEq)]
            struct $n {
                $q: i8,
                $($a)*
                v: u8,
            }
            /// a seek that leaves the place it is at must fail; one that stays may succeed
            #[export_name = concat!("h_seek_", stringify!($n))]
            pub extern "C" fn h() {
                let d: [u8; 3] = bytes();
                let mut a = Src::new(&d);
                let want = $n::from_reader_with_ctx(&mut Reader::new(&mut a), ());
                let mut b = Src::new(&d);
                let got = $n::from_reader_with_ctx(&mut Reader::new(NoSeek::new(Pipe(&mut b))), ());
                match got {
                    Ok(v) => {
                        reach!("a seek that does not move");
                        ck!(matches!(want, Ok(w) if w == v), "a seek without effect gives the same value");
                        ck!(b.pos == 2, "a seek without effect stays in place");
                    }
                    Err(e) => {
                        reach!("a seek is refused");
                        ck!(matches!(kind(&e), E::Io(_)), "a seek on an unseekable stream is an I/O error");
                    }
                }
                // what is written
                let v = $n { $q: i8_(), v: u8_() };
                let mut a = Sink::<300>::new();
                let mut w = Writer::new(&mut a);
                let want = v.to_writer(&mut w, ()).and_then(|_| w.finalize());
                let mut b = Sink::<300>::new();
                let mut w = Writer::new(NoSeek::new(Drain(&mut b)));
                let got = v.to_writer(&mut w, ()).and_then(|_| w.finalize());
                drop(w);
                match got {
                    Ok(_) => ck!(want.is_ok() && a.len == b.len && a.d == b.d, "a seek without effect writes the same"),
                    Err(e) => ck!(matches!(kind(&e), E::Io(_)), "a seek on an unseekable sink is an I/O error"),
                }
            }
        };
    )*}
}
seeks! { derive(DekuRead, DekuWrite), n;
    Start: [#[deku(seek_from_start = "*n as u8")]]
    Cur: [#[deku(seek_from_current = "*n")]]
    End: [#[deku(seek_from_end = "*n")]]
    Rewind: [#[deku(seek_rewind)]]
}

/// a source and sink that moves at most two bytes at a time
struct Two<'a> {
    d: &'a mut [u8],
    pos: usize,
}
impl Read for Two<'_> {
    fn read(&mut self, buf: &mut [u8]) -> deku::no_std_io::Result<usize> {
        let n = buf.len().min(2).min(self.d.len() - self.pos);
        buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Two<'_> {
    fn write(&mut self, buf: &[u8]) -> deku::no_std_io::Result<usize> {
        let n = buf.len().min(2).min(self.d.len() - self.pos);
        self.d[self.pos..self.pos + n].copy_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> deku::no_std_io::Result<()> {
        Ok(())
    }
}
use deku::no_std_io::SeekFrom;
/// the wrapper knows where it is, and only a seek to there succeeds
fn place<T>(s: &mut NoSeek<T>, pos: usize) {
    let p = pos as u64;
    ck!(matches!(s.stream_position(), Ok(x) if x == p), "the position is what went through");
    ck!(matches!(s.seek(SeekFrom::Current(0)), Ok(x) if x == p), "a seek to where it is succeeds");
    let n = u64_();
    let got = s.seek(SeekFrom::Start(n));
    ck!(matches!(got, Ok(x) if x == n && n == p) || got.is_err() && n != p, "only a seek to where it is succeeds");
    let n = u64_() as i64;
    assume(n != 0);
    ck!(s.seek(SeekFrom::Current(n)).is_err(), "a seek on an unseekable stream is refused");
    ck!(s.seek(SeekFrom::End(u64_() as i64)).is_err(), "a seek on an unseekable stream is refused");
    ck!(matches!(s.stream_position(), Ok(x) if x == p), "a refused seek stays in place");
}
#[export_name = "h_place_read"]
pub extern "C" fn place_read() {
    let d: [u8; 7] = bytes();
    let mut e = d;
    let mut s = NoSeek::new(Two { d: &mut e, pos: 0 });
    let mut pos = 0;
    let mut i = 0;
    while i < 3 {
        let n = pick(0, 3);
        let mut b = [0u8; 3];
        if pick(0, 1) == 0 {
            match s.read(&mut b[..n]) {
                Ok(m) => {
                    reach!("a read through the wrapper");
                    ck!(m == n.min(2).min(7 - pos) && b[..m] == d[pos..pos + m], "a read gives what the source gives");
                    pos += m;
                }
                Err(_) => fail!("a read through the wrapper works"),
            }
        } else {
            match s.read_exact(&mut b[..n]) {
                Ok(()) => {
                    ck!(pos + n <= 7 && b[..n] == d[pos..pos + n], "an exact read gives what the source gives");
                    pos += n;
                }
                Err(e) => {
                    reach!("an exact read fails");
                    ck!(pos + n > 7 && e.kind() == deku::no_std_io::ErrorKind::UnexpectedEof, "an exact read fails at the end");
                    return;
                }
            }
        }
        place(&mut s, pos);
        i += 1;
    }
    ck!(s.get_ref().pos == pos && s.get_mut().pos == pos && s.into_inner().pos == pos, "the stream inside is where the wrapper is");
}
#[export_name = "h_place_write"]
pub extern "C" fn place_write() {
    let d: [u8; 3] = bytes();
    let mut e = [0u8; 7];
    let mut f = [0u8; 7];
    let mut s = NoSeek::new(Two { d: &mut e, pos: 0 });
    let mut pos = 0;
    let mut i = 0;
    while i < 3 {
        let n = pick(0, 3);
        if pick(0, 1) == 0 {
            match s.write(&d[..n]) {
                Ok(m) => {
                    reach!("a write through the wrapper");
                    ck!(m == n.min(2).min(7 - pos), "a write puts what the sink takes");
                    f[pos..pos + m].copy_from_slice(&d[..m]);
                    pos += m;
                }
                Err(_) => fail!("a write through the wrapper works"),
            }
        } else {
            match s.write_all(&d[..n]) {
                Ok(()) => {
                    ck!(pos + n <= 7, "a whole write fits");
                    f[pos..pos + n].copy_from_slice(&d[..n]);
                    pos += n;
                }
                Err(_) => {
                    reach!("a whole write fails");
                    ck!(pos + n > 7, "a whole write fails for lack of room");
                    return;
                }
            }
        }
        ck!(s.flush().is_ok(), "a flush goes through");
        place(&mut s, pos);
        i += 1;
    }
    drop(s);
    ck!(e == f, "the bytes are the ones written");
}
#[cfg(feature = "cfg_std_any")]
#[export_name = "h_place_more"]
pub extern "C" fn place_more() {
    let mut d: [u8; 7] = bytes();
    let e = d;
    let mut s = NoSeek::new(Two { d: &mut d, pos: 0 });
    let n = pick(0, 3);
    let mut b = [0u8; 3];
    let (x, y) = b.split_at_mut(1);
    let got = s.read_vectored(&mut [std::io::IoSliceMut::new(x), std::io::IoSliceMut::new(&mut y[..n.saturating_sub(1)])]);
    let Ok(m) = got else {
        fail!("a vectored read works");
        return;
    };
    ck!(b[..m] == e[..m], "a vectored read gives what the source gives");
    place(&mut s, m);
    let had = pick(0, 2);
    let mut v = vec![9u8; had];
    ck!(matches!(s.read_to_end(&mut v), Ok(k) if k == 7 - m), "a read to the end takes the rest");
    ck!(v.len() == had + 7 - m && v[had..] == e[m..], "a read to the end gives what the source gives");
    place(&mut s, 7);
    drop(s);
    let mut o = [0u8; 7];
    let mut s = NoSeek::new(Two { d: &mut o, pos: 0 });
    let got = s.write_vectored(&[std::io::IoSlice::new(&e[..n]), std::io::IoSlice::new(&e[3..])]);
    let Ok(m) = got else {
        fail!("a vectored write works");
        return;
    };
    place(&mut s, m);
    ck!(m <= 2, "a vectored write puts what the sink takes");
    drop(s);
    reach!("vectored");
    if n > 0 {
        ck!(o[..m] == e[..m], "the bytes are the ones written");
    }
}

#[cfg(feature = "cfg_std_any")]
#[export_name = "h_place_text"]
pub extern "C" fn place_text() {
    // one character of two bytes, the rest of one
    let mut d: [u8; 5] = bytes();
    let at = pick(0, 3);
    let mut i = 0;
    while i < 5 {
        if i == at {
            assume(d[i] >= 0xc2 && d[i] < 0xe0);
        } else if i == at + 1 {
            assume(d[i] >= 0x80 && d[i] < 0xc0);
        } else {
            assume(d[i] < 0x80);
        }
        i += 1;
    }
    let e = d;
    let mut s = NoSeek::new(Two { d: &mut d, pos: 0 });
    let mut b = [0u8; 5];
    let m = pick(0, 1) * at;
    if s.read_exact(&mut b[..m]).is_err() {
        fail!("a whole read works");
    }
    let had = pick(0, 1);
    let mut t = String::new();
    if had == 1 {
        t.push('\u{e9}');
    }
    let had = t.len();
    reach!("text");
    ck!(matches!(s.read_to_string(&mut t), Ok(k) if k == 5 - m), "a read of text takes the rest");
    ck!(t.len() == had + 5 - m && t.as_bytes()[had..] == e[m..], "a read of text gives what the source gives");
    place(&mut s, 5);
}

// ---------------------------------------------------------------- long values
#[cfg(feature = "cfg_alloc_any")]
fn long<T: crate::big::Big>() {
    let d = crate::big::value::<T>();
    let l = if pick(0, 1) == 0 { T::LEN + 1 } else { T::LEN / 2 };
    let mut a = Src::new(&d[..l]);
    let want = {
        let mut r = Reader::new(&mut a);
        let v = T::from_reader_with_ctx(&mut r, ());
        (v, r.bits_read)
    };
    let mut b = Src::new(&d[..l]);
    let got = {
        let mut r = Reader::new(NoSeek::new(Pipe(&mut b)));
        let v = T::from_reader_with_ctx(&mut r, ());
        (v, r.bits_read)
    };
    ck!(agree(&got.0, &want.0), "the same long value or the same kind of failure");
    ck!(want.0.is_err() || got.1 == want.1 && a.pos == b.pos, "the same consumption of a long value");
    let Ok(v) = got.0 else { return };
    reach!("a long value");
    let mut s = Sink::<{ crate::big::ROOM }>::new();
    let ok = {
        let mut w = Writer::new(NoSeek::new(Drain(&mut s)));
        v.to_writer(&mut w, ()).is_ok() && w.finalize().is_ok()
    };
    ck!(ok && s.len == T::LEN && s.d[..T::LEN] == d[..T::LEN], "a long value is written through the wrapper");
}
#[cfg(feature = "cfg_alloc_any")]
big!("h_long_", long);

// ---------------------------------------------------------------- more than is set aside at once
#[cfg(feature = "cfg_alloc_any")]
macro_rules! huge { ($d:meta; $($n:ident $h:literal [$($a:tt)*];)*) => {$(
    #[$d]
    pub struct $n {
        _lead: u8,
        #[deku(endian = "little")]
        _n: u32,
        $($a)*
        v: Vec<u8>,
        c: u8,
    }
    const _: () = {
        #[export_name = $h]
        pub extern "C" fn h() {
            const K: usize = 65536;
            let n = [K - 1, K, K + 1, 2 * K, 2 * K + 3][pick(0, 4)];
            let mut d = [0u8; 2 * K + 16];
            d[1..5].copy_from_slice(&(n as u32).to_le_bytes());
            let mut i = 0;
            while i < n {
                d[5 + i] = i as u8 ^ 0x5a;
                i += 251;
            }
            d[5 + n - 1] = u8_();
            d[5 + n] = u8_();
            let less = pick(0, 2);
            let d = &d[..5 + n + 2 - less];
            let mut a = Src::new(d);
            let mut b = Src::new(d);
            let (want, i) = {
                let mut r = Reader::new(&mut a);
                let v = $n::from_reader_with_ctx(&mut r, ());
                (v, r.bits_read)
            };
            let (got, j) = {
                let mut r = Reader::new(NoSeek::new(Pipe(&mut b)));
                let v = $n::from_reader_with_ctx(&mut r, ());
                (v, r.bits_read)
            };
            match (got, want) {
                (Ok(g), Ok(w)) => {
                    reach!("very much is read from a pipe");
                    ck!(g.v.len() == n && g.v == w.v && g.c == w.c, "very much is the same from a pipe");
                    ck!(i == j && a.pos == b.pos && b.pos == 6 + n, "very much takes the same from a pipe");
                }
                (Err(g), Err(w)) => ck!(kind(&g) == kind(&w) && less == 2, "very much fails in the same way from a pipe"),
                _ => fail!("a pipe changes whether very much is read"),
            }
        }
    };
)*} }
#[cfg(feature = "cfg_alloc_any")]
huge! {derive(DekuRead);
    HugeCount "h_huge_count" [#[deku(count = "_n")]];
}
