//! C09: output faults and lack of room surface; no short write is lost.
use crate::ops::*;
use crate::*;
use deku::no_std_io::ErrorKind;

const NONE: Fault = Fault { at: usize::MAX, kind: None, pieces: 0, intr: usize::MAX, busy: 0 };
fn run<T: Cat>(v: &T, s: &mut BadSink<WIDE>, k: usize, b: u8) -> Result<(), DekuError> {
    let mut w = Writer::new(s);
    put(&mut w, b, k, T::LSB)?;
    v.to_writer(&mut w, ())?;
    w.finalize()
}
fn off() -> (usize, u8) {
    if cfg!(feature = "cfg_bits_any") {
        let k = pick(0, 1) * 5;
        (k, if k == 0 { 0 } else { u8_() & 0x1f })
    } else {
        (0, 0)
    }
}
/// a fault at any byte, as an error or by taking no more
fn fault<T: Cat>() {
    let (k, b) = off();
    let v = T::gen();
    let mut good = BadSink::new(NONE, false);
    if run(&v, &mut good, k, b).is_err() {
        return;
    }
    let at = pick(0, good.pos);
    let kd = match pick(0, 2) {
        0 => None,
        i => Some(KINDS[(at + i * 5) % KINDS.len()]),
    };
    let mut bad = BadSink::new(Fault { at, kind: kd, ..NONE }, true);
    let got = run(&v, &mut bad, k, b);
    obs(at as u64);
    if at < good.pos {
        reach!("the sink fails");
        match got {
            Ok(_) => fail!("a write that failed is not reported as success"),
            Err(e) => ck!(
                kind(&e) == E::Io(kd.unwrap_or(ErrorKind::WriteZero)),
                "the error of the sink surfaces with its kind"
            ),
        }
    } else {
        reach!("the sink has just enough room");
        ck!(got.is_ok() && bad.d == good.d, "what fits is written");
    }
}
/// small pieces and an interruption
fn pieces<T: Cat>() {
    let (k, b) = off();
    let v = T::gen();
    let mut good = BadSink::new(NONE, false);
    let want = run(&v, &mut good, k, b);
    let i = pick(0, 3);
    let f = if i < 3 { Fault { pieces: 3, intr: i, ..NONE } } else { Fault { busy: 3, ..NONE } };
    let mut bad = BadSink::new(f, false);
    let got = run(&v, &mut bad, k, b);
    obs(bad.pos as u64);
    ck!(agree(&got, &want), "pieces and interruptions do not change the outcome");
    ck!(got.is_err() || bad.pos == good.pos && bad.d == good.d, "the sink holds all of it");
}
/// slices of any size
fn slice<T: Cat>() {
    let v = T::gen();
    let mut good = BadSink::new(NONE, false);
    if run(&v, &mut good, 0, 0).is_err() {
        return;
    }
    let n = pick(0, good.pos + 1);
    let mut buf = [0u8; WIDE];
    let got = v.to_slice(&mut buf[..n]);
    obs(n as u64);
    if n < good.pos {
        reach!("the slice is too small");
        match got {
            Ok(_) => fail!("a write that did not fit is not reported as success"),
            Err(e) => ck!(matches!(kind(&e), E::Io(_)), "lack of room is an I/O error"),
        }
    } else {
        reach!("the slice is large enough");
        ck!(matches!(got, Ok(l) if l == good.pos), "the number of bytes written is reported");
        ck!(buf == good.d, "the slice holds all of it");
    }
}
every!("h_fault_", fault);
every!("h_pieces_", pieces);
every!("h_slice_", slice);

// ---------------------------------------------------------------- long values
#[cfg(feature = "cfg_alloc_any")]
fn long<T: crate::big::Big>() {
    const ROOM: usize = crate::big::ROOM;
    fn run<T: DekuWriter>(v: &T, s: &mut BadSink<ROOM>) -> Result<(), DekuError> {
        let mut w = Writer::new(s);
        v.to_writer(&mut w, ())?;
        w.finalize()
    }
    let d = crate::big::value::<T>();
    let Ok((_, v)) = T::from_bytes((&d[..T::LEN], 0)) else { return };
    let how = pick(0, 4);
    if how == 3 {
        let n = crate::big::spot(T::LEN + 1);
        let mut buf = [0u8; ROOM];
        let got = v.to_slice(&mut buf[..n]);
        if n < T::LEN {
            reach!("the slice is too small for a long value");
            match got {
                Ok(_) => fail!("a write that did not fit is not reported as success"),
                Err(e) => ck!(matches!(kind(&e), E::Io(_)), "lack of room is an I/O error"),
            }
        } else {
            reach!("the slice is large enough for a long value");
            ck!(matches!(got, Ok(l) if l == T::LEN), "the number of bytes written is reported");
            ck!(buf[..T::LEN] == d[..T::LEN], "the slice holds all of a long value");
        }
        return;
    }
    let f = match how {
        0 => Fault { at: crate::big::spot(T::LEN), kind: [None, Some(ErrorKind::BrokenPipe)][pick(0, 1)], ..NONE },
        1 => Fault { pieces: 3, ..NONE },
        2 => Fault { intr: crate::big::spot(T::LEN), ..NONE },
        _ => Fault { busy: 70, ..NONE },
    };
    let mut bad = BadSink::new(f, how == 0);
    let got = run(&v, &mut bad);
    if f.at < T::LEN {
        reach!("the sink fails in a long value");
        match got {
            Ok(_) => fail!("a write that failed is not reported as success"),
            Err(e) => ck!(
                kind(&e) == E::Io(f.kind.unwrap_or(ErrorKind::WriteZero)),
                "the error of the sink surfaces with its kind"
            ),
        }
    } else {
        reach!("a long value is taken in pieces");
        ck!(got.is_ok() && bad.pos == T::LEN && bad.d[..T::LEN] == d[..T::LEN], "the sink holds all of a long value");
    }
}
#[cfg(feature = "cfg_alloc_any")]
big!("h_long_", long);

// ---------------------------------------------------------------- seeks that fail
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(seek_from_start = "1")]
pub struct Seeks {
    a: u8,
    #[deku(seek_from_current = "1")]
    b: u8,
    #[deku(seek_from_end = "-2")]
    c: u8,
    #[deku(seek_from_start = "*a & 3")]
    d: u8,
    #[deku(seek_rewind)]
    e: u8,
    f: [Rewinds; 2],
    g: Forth,
}
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(seek_rewind)]
pub struct Rewinds {
    a: u8,
}
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(seek_from_current = "1")]
pub struct Forth {
    a: u8,
    b: Back,
}
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(seek_from_end = "-1")]
pub struct Back {
    a: u8,
}
struct Jumpy {
    s: BadSink<8>,
    seeks: usize,
    bad: usize,
    kind: ErrorKind,
}
impl Write for Jumpy {
    fn write(&mut self, b: &[u8]) -> deku::no_std_io::Result<usize> {
        self.s.write(b)
    }
    fn flush(&mut self) -> deku::no_std_io::Result<()> {
        Ok(())
    }
}
impl Seek for Jumpy {
    fn seek(&mut self, to: deku::no_std_io::SeekFrom) -> deku::no_std_io::Result<u64> {
        self.seeks += 1;
        if self.seeks == self.bad {
            return Err(self.kind.into());
        }
        self.s.seek(to)
    }
}
#[export_name = "h_seek"]
pub extern "C" fn seek() {
    let v = Seeks { a: u8_(), b: u8_(), c: u8_(), d: u8_(), e: u8_(), f: [Rewinds { a: u8_() }, Rewinds { a: u8_() }], g: Forth { a: u8_(), b: Back { a: u8_() } } };
    let mut good = Jumpy { s: BadSink::new(NONE, false), seeks: 0, bad: 0, kind: ErrorKind::Other };
    let want = {
        let mut w = Writer::new(&mut good);
        v.to_writer(&mut w, ()).and_then(|_| w.finalize())
    };
    ck!(want.is_ok(), "a sink that can seek is written");
    let bad = pick(1, good.seeks + 1);
    let kd = KINDS[pick(0, KINDS.len() - 1)];
    let mut s = Jumpy { s: BadSink::new(NONE, false), seeks: 0, bad, kind: kd };
    let got = {
        let mut w = Writer::new(&mut s);
        v.to_writer(&mut w, ()).and_then(|_| w.finalize())
    };
    obs(bad as u64);
    if bad > good.seeks {
        ck!(got.is_ok() && s.s.d == good.s.d, "the same sink takes the same");
        return;
    }
    reach!("a seek fails");
    match got {
        Ok(_) => fail!("a write that failed to seek is not reported as success"),
        Err(e) => ck!(kind(&e) == E::Io(kd), "the error of the seek surfaces with its kind"),
    }
}
/// the operations of a writer themselves
#[cfg(feature = "cfg_bits_any")]
#[export_name = "h_direct"]
pub extern "C" fn direct_() {
    use deku::bitvec::{BitSlice, Msb0};
    let k = pick(0, 7);
    let lsb = pick(0, 1) == 1;
    let o = if lsb { Order::Lsb0 } else { Order::Msb0 };
    let what = pick(0, 5);
    let d: [u8; 4] = bytes();
    let first = if k == 0 { 0 } else { u8_() & (0xff >> (8 - k)) };
    let go = |s: &mut BadSink<8>| {
        let mut w = Writer::new(s);
        if k > 0 {
            first.to_writer(&mut w, (BitSize(k), o))?;
        }
        let b = BitSlice::<u8, Msb0>::from_slice(&d);
        match what {
            0 => w.write_bytes(&d[..1])?,
            1 => w.write_bytes(&d)?,
            2 => w.write_bits_order(&b[..5], o)?,
            3 => w.write_bits_order(&b[..27], o)?,
            4 => w.write_bits_order(b, o)?,
            _ => w.write_bits_order(&b[..16], o)?,
        }
        w.finalize()
    };
    if lsb && what < 2 && k > 0 {
        // whole bytes are written in the other order
        return;
    }
    let mut good = BadSink::new(NONE, false);
    ck!(go(&mut good).is_ok(), "an operation writes what it is asked for");
    let f = match pick(0, 3) {
        0 => Fault { at: pick(0, 5), kind: Some(KINDS[pick(0, KINDS.len() - 1)]), ..NONE },
        1 => Fault { at: pick(0, 5), ..NONE },
        2 => Fault { pieces: 2, ..NONE },
        _ => Fault { busy: 20, ..NONE },
    };
    let mut bad = BadSink::new(f, f.at < 8);
    let got = go(&mut bad);
    obs(bad.pos as u64);
    if f.at < good.pos {
        reach!("an operation meets a fault");
        match got {
            Ok(_) => fail!("an operation that failed is not reported as success"),
            Err(e) => ck!(
                kind(&e) == E::Io(f.kind.unwrap_or(ErrorKind::WriteZero)),
                "the error of the sink surfaces from an operation with its kind"
            ),
        }
    } else {
        reach!("an operation meets no fault");
        ck!(got.is_ok() && bad.pos == good.pos && bad.d == good.d, "the sink holds all that an operation writes");
    }
}
