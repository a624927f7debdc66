//! C08: input faults surface; short and interrupted reads do no harm.
use crate::ops::*;
use crate::*;
use deku::no_std_io::ErrorKind;

const NONE: Fault = Fault { at: usize::MAX, kind: None, pieces: 0, intr: usize::MAX, busy: 0 };
fn run<T: Cat>(src: &mut BadSrc, k: usize) -> (Result<T, DekuError>, usize) {
    let mut r = Reader::new(src);
    if let Err(e) = take(&mut r, k, T::LSB) {
        return (Err(e), r.bits_read);
    }
    let v = T::from_reader_with_ctx(&mut r, ());
    (v, r.bits_read)
}
fn off() -> usize {
    if cfg!(feature = "cfg_bits_any") {
        pick(0, 1) * 5
    } else {
        0
    }
}
/// a fault at any byte
fn fault<T: Cat>() {
    let k = off();
    let s = stream::<T>(k, 0);
    let d = &s.d[..s.n];
    let mut good = BadSrc::new(d, NONE);
    let (want, _) = run::<T>(&mut good, k);
    let at = pick(0, s.n);
    let kd = KINDS[(at + T::MAX) % KINDS.len()];
    let mut bad = BadSrc::new(d, Fault { at, kind: Some(kd), ..NONE });
    let (got, _) = run::<T>(&mut bad, k);
    obs(at as u64);
    if at < good.want {
        reach!("the fault is met");
        match got {
            Ok(_) => fail!("no value comes from a source that failed"),
            Err(e) => ck!(kind(&e) == E::Io(kd), "the error of the source surfaces with its kind"),
        }
    } else {
        reach!("the fault is behind what is read");
        ck!(agree(&got, &want), "what is not asked for does not matter");
    }
}
/// small pieces
fn pieces<T: Cat>() {
    let k = off();
    let s = stream::<T>(k, 0);
    let d = &s.d[..s.n];
    let mut good = BadSrc::new(d, NONE);
    let (want, n) = run::<T>(&mut good, k);
    let mut bad = BadSrc::new(d, Fault { pieces: 3, ..NONE });
    let (got, m) = run::<T>(&mut bad, k);
    obs(m as u64);
    ck!(agree(&got, &want) && n == m, "pieces give what the whole gives");
    ck!(good.pos == bad.pos, "pieces take as much as the whole");
}
/// an interruption of any call
fn intr<T: Cat>() {
    let k = off();
    let s = stream::<T>(k, 0);
    let d = &s.d[..s.n];
    let mut good = BadSrc::new(d, NONE);
    let (want, n) = run::<T>(&mut good, k);
    let i = pick(0, good.calls);
    let f = if i < good.calls { Fault { intr: i, ..NONE } } else { Fault { busy: 3, ..NONE } };
    let mut bad = BadSrc::new(d, f);
    let (got, m) = run::<T>(&mut bad, k);
    obs(m as u64);
    ck!(agree(&got, &want) && n == m, "an interruption changes nothing");
    ck!(good.pos == bad.pos, "an interruption loses nothing");
}
every!("h_fault_", fault);
every!("h_pieces_", pieces);
every!("h_intr_", intr);

// ---------------------------------------------------------------- long values
#[cfg(feature = "cfg_alloc_any")]
fn long<T: crate::big::Big>() {
    let d = crate::big::input::<T>();
    let mut good = BadSrc::new(&d, NONE);
    let want = {
        let mut r = Reader::new(&mut good);
        let v = T::from_reader_with_ctx(&mut r, ());
        (v, r.bits_read)
    };
    ck!(good.pos == T::LEN && want.0.is_ok(), "a long value is read");
    let how = pick(0, 3);
    let f = match how {
        0 => Fault { at: crate::big::spot(T::LEN), kind: Some(ErrorKind::ConnectionReset), ..NONE },
        1 => Fault { pieces: 3, ..NONE },
        2 => Fault { intr: crate::big::spot(good.calls), ..NONE },
        _ => Fault { busy: 70, ..NONE },
    };
    let mut bad = BadSrc::new(&d, f);
    let got = {
        let mut r = Reader::new(&mut bad);
        let v = T::from_reader_with_ctx(&mut r, ());
        (v, r.bits_read)
    };
    if f.at < T::LEN {
        reach!("the fault is met in a long value");
        match got.0 {
            Ok(_) => fail!("no value comes from a source that failed"),
            Err(e) => ck!(kind(&e) == E::Io(ErrorKind::ConnectionReset), "the error of the source surfaces with its kind"),
        }
    } else {
        reach!("a long value in pieces");
        ck!(agree(&got.0, &want.0) && got.1 == want.1, "pieces and interruptions do a long value no harm");
        ck!(good.pos == bad.pos, "a long value in pieces takes as much as the whole");
    }
}
#[cfg(feature = "cfg_alloc_any")]
big!("h_long_", long);

// ---------------------------------------------------------------- between the two kinds of errors
/// an I/O error stays what it is on its way through deku's errors and back
#[export_name = "h_convert"]
pub extern "C" fn convert() {
    use deku::no_std_io::Error;
    let k = [
        ErrorKind::Other,
        ErrorKind::NotFound,
        ErrorKind::PermissionDenied,
        ErrorKind::ConnectionReset,
        ErrorKind::BrokenPipe,
        ErrorKind::InvalidInput,
        ErrorKind::InvalidData,
        ErrorKind::TimedOut,
        ErrorKind::WriteZero,
        ErrorKind::Interrupted,
        ErrorKind::UnexpectedEof,
    ][pick(0, 10)];
    reach!("an error of a source");
    let e = DekuError::from(Error::from(k));
    ck!(matches!(e, DekuError::Io(x) if x == k), "an I/O error becomes one of the same kind");
    let b = Error::from(e);
    ck!(b.kind() == k, "an I/O error is given back with its kind");
    let n = usize_();
    let b = Error::from(DekuError::Incomplete(deku::error::NeedSize::new(n)));
    ck!(b.kind() == ErrorKind::UnexpectedEof, "missing data is the end of a source");
}

// ---------------------------------------------------------------- seeks that fail
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(seek_from_start = "1")]
pub struct Seeks {
    a: u8,
    #[deku(seek_from_current = "1")]
    b: u8,
    #[deku(seek_from_end = "-2")]
    c: u8,
    #[deku(seek_from_start = "*a & 3")]
    d: u8,
    #[deku(seek_rewind)]
    e: u8,
    f: [Rewinds; 2],
    g: Forth,
}
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(seek_rewind)]
pub struct Rewinds {
    a: u8,
}
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(seek_from_current = "1")]
pub struct Forth {
    a: u8,
    b: Back,
}
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(seek_from_end = "-1")]
pub struct Back {
    a: u8,
}
struct Jumpy<'a> {
    s: BadSrc<'a>,
    seeks: usize,
    bad: usize,
    kind: ErrorKind,
}
impl Read for Jumpy<'_> {
    fn read(&mut self, b: &mut [u8]) -> deku::no_std_io::Result<usize> {
        self.s.read(b)
    }
}
impl Seek for Jumpy<'_> {
    fn seek(&mut self, to: deku::no_std_io::SeekFrom) -> deku::no_std_io::Result<u64> {
        self.seeks += 1;
        if self.seeks == self.bad {
            return Err(self.kind.into());
        }
        self.s.seek(to)
    }
}
#[export_name = "h_seek"]
pub extern "C" fn seek() {
    let d: [u8; 6] = bytes();
    let mut good = Jumpy { s: BadSrc::new(&d, NONE), seeks: 0, bad: 0, kind: ErrorKind::Other };
    let want = Seeks::from_reader_with_ctx(&mut Reader::new(&mut good), ());
    ck!(want.is_ok(), "a source that can seek is read");
    let bad = pick(1, good.seeks + 1);
    let kd = KINDS[pick(0, KINDS.len() - 1)];
    let mut src = Jumpy { s: BadSrc::new(&d, NONE), seeks: 0, bad, kind: kd };
    let got = Seeks::from_reader_with_ctx(&mut Reader::new(&mut src), ());
    obs(bad as u64);
    if bad > good.seeks {
        ck!(agree(&got, &want), "the same source gives the same");
        return;
    }
    reach!("a seek fails");
    match got {
        Ok(_) => fail!("no value comes from a source that failed to seek"),
        Err(e) => ck!(kind(&e) == E::Io(kd), "the error of the seek surfaces with its kind"),
    }
}
/// the operations of a reader themselves
#[export_name = "h_direct"]
pub extern "C" fn direct_() {
    let k = off() + if cfg!(feature = "cfg_bits_any") { pick(0, 1) } else { 0 };
    let lsb = pick(0, 1) == 1;
    let what = pick(0, 11);
    let d: [u8; 6] = bytes();
    let go = |s: &mut BadSrc| {
        let mut r = Reader::new(s);
        if let Err(e) = take(&mut r, k, lsb) {
            return (Err(e), 0, 0);
        }
        let (v, n) = direct(&mut r, what, lsb);
        (v, n, r.bits_read)
    };
    let mut good = BadSrc::new(&d, NONE);
    let (want, n, m) = go(&mut good);
    ck!(want.is_ok() && m == k + n, "an operation takes what it is asked for");
    let f = match pick(0, 2) {
        0 => Fault { at: pick(0, 6), kind: Some(KINDS[pick(0, KINDS.len() - 1)]), ..NONE },
        1 => Fault { pieces: 2, ..NONE },
        _ => Fault { busy: 20, ..NONE },
    };
    let mut bad = BadSrc::new(&d, f);
    let (got, _, l) = go(&mut bad);
    obs(l as u64);
    match f.kind {
        Some(kd) if f.at < (k + n).div_ceil(8) => {
            reach!("an operation meets a fault");
            match got {
                Ok(_) => fail!("an operation on a source that failed fails"),
                Err(e) => ck!(kind(&e) == E::Io(kd), "the error of the source surfaces from an operation with its kind"),
            }
        }
        _ => {
            reach!("an operation meets no fault");
            ck!(got.is_ok() && l == m && bad.pos == good.pos, "pieces and interruptions do an operation no harm");
        }
    }
}
