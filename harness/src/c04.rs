//! C04: successive fields are consecutive slices of one bit stream.
use crate::num::{endian, order};
use crate::ops::*;
use deku::bitvec::*;
use deku::reader::ReaderRet;

const N: usize = 12;
/// stream bits from `pos` as the bits of a slice
fn same_bits(b: &BitSlice<u8, Msb0>, d: &[u8], pos: usize, n: usize, lsb: bool) -> bool {
    if b.len() != n {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < n {
        let w = if lsb { bit(d, pos + n - 1 - i, true) } else { bit(d, pos + i, false) };
        ok &= b[i] as u8 == w;
        i += 1;
    }
    ok
}
fn same_bytes(b: &[u8], d: &[u8], pos: usize, lsb: bool) -> bool {
    let mut ok = true;
    for (i, x) in b.iter().enumerate() {
        ok &= *x as u128 == dec(d, pos + 8 * i, 8, true, lsb);
    }
    ok
}
struct R<'a, 'b> {
    r: Reader<&'a mut Src<'b>>,
    d: &'b [u8],
    pos: usize,
    lsb: bool,
    peeked: bool,
}
impl R<'_, '_> {
    /// what an operation that occupies n bits must do
    fn done(&mut self, n: usize, same: bool) {
        if self.pos + n > self.d.len() * 8 {
            assume(false);
        }
        self.pos += n;
        if n > 0 {
            self.peeked = false;
        }
        ck!(same, "an operation sees its piece of the stream");
        ck!(self.r.bits_read == self.pos, "the running bit count is exact");
    }
    fn read_bits(&mut self, n: usize) {
        match self.r.read_bits(n, order(self.lsb)) {
            Ok(Some(b)) => {
                let s = same_bits(&b, self.d, self.pos, n, self.lsb);
                self.done(n, s)
            }
            _ => fail!("bits that are there are read"),
        }
    }
    fn read_bytes(&mut self, n: usize) {
        self.read_bytes_to(n, &mut [0u8; 4])
    }
    fn read_bytes_to(&mut self, n: usize, buf: &mut [u8]) {
        match self.r.read_bytes(n, buf, order(self.lsb)) {
            Ok(ReaderRet::Bytes) => {
                let s = same_bytes(&buf[..n], self.d, self.pos, self.lsb);
                self.done(8 * n, s)
            }
            Ok(ReaderRet::Bits(Some(b))) => {
                let s = same_bits(&b, self.d, self.pos, 8 * n, self.lsb);
                self.done(8 * n, s)
            }
            _ => fail!("bytes that are there are read"),
        }
    }
    fn array<const M: usize>(&mut self, into: bool) {
        let mut buf = [0u8; M];
        let got = if into {
            self.r.read_bytes_const_into(&mut buf, order(self.lsb)).is_ok()
        } else {
            matches!(self.r.read_bytes_const(&mut buf, order(self.lsb)), Ok(ReaderRet::Bytes))
        };
        ck!(got, "a byte array that is there is read");
        let s = same_bytes(&buf, self.d, self.pos, self.lsb);
        self.done(8 * M, s)
    }
    fn skip(&mut self, n: usize) {
        ck!(self.r.skip_bits(n, order(self.lsb)).is_ok(), "bits that are there are skipped");
        self.done(n, true)
    }
    fn int(&mut self, n: usize, be: bool) {
        let v = u32::from_reader_with_ctx(&mut self.r, (endian(be), BitSize(n), order(self.lsb)));
        let s = matches!(v, Ok(v) if v as u128 == dec(self.d, self.pos, n, be, self.lsb));
        self.done(n, s)
    }
    fn whole(&mut self, be: bool) {
        let v = u16::from_reader_with_ctx(&mut self.r, (endian(be), order(self.lsb)));
        let s = matches!(v, Ok(v) if v as u128 == dec(self.d, self.pos, 16, be, self.lsb));
        self.done(16, s)
    }
    fn flag(&mut self) {
        let want = dec(self.d, self.pos, 1, true, self.lsb);
        let v = bool::from_reader_with_ctx(&mut self.r, (BitSize(1), order(self.lsb)));
        let s = matches!(v, Ok(v) if v as u128 == want);
        self.done(1, s)
    }
    fn end(&mut self) {
        let e = self.r.end();
        ck!(e == (self.pos == self.d.len() * 8), "the end is where the data ends");
        if self.pos % 8 == 0 && !e {
            self.peeked = true;
        }
        self.done(0, true)
    }
    /// any operation of one kind
    fn op(&mut self, k: usize, max: usize) {
        match k {
            0 => self.read_bits(pick(0, max)),
            1 => self.read_bytes(pick(0, 3)),
            2 => match pick(0, 3) {
                0 => self.array::<1>(false),
                1 => self.array::<2>(false),
                2 => self.array::<1>(true),
                _ => self.array::<3>(true),
            },
            3 => self.skip(pick(0, max)),
            4 => {
                let n = pick(1, max);
                self.int(n, true)
            }
            5 => {
                let n = pick(1, max);
                self.int(n, false)
            }
            6 => self.whole(pick(0, 1) == 1),
            7 => self.flag(),
            _ => self.end(),
        }
    }
    /// a few operations that tell states apart
    fn probe(&mut self) {
        match pick(0, 7) {
            0 => self.read_bits(5),
            1 => self.read_bits(11),
            2 => self.read_bytes(2),
            3 => self.array::<2>(false),
            4 => self.skip(9),
            5 => self.int(13, true),
            6 => self.int(3, false),
            _ => self.end(),
        }
    }
    /// the order may change between bytes
    fn turn(&mut self) {
        if self.pos % 8 == 0 && pick(0, 1) == 1 {
            self.lsb = !self.lsb;
        }
    }
}
const W: usize = if cfg!(feature = "thorough") { 26 } else { 18 };
fn reads(a: usize, lsb: bool) {
    let d: [u8; N] = bytes();
    let mut src = Src::new(&d);
    {
        let mut r = R { r: Reader::new(&mut src), d: &d, pos: 0, lsb, peeked: false };
        r.op(a, if cfg!(feature = "thorough") { 17 } else { 9 });
        if cfg!(feature = "thorough") {
            r.turn();
            r.flag_or_byte();
        }
        r.turn();
        r.op(pick(0, 8), W);
        r.turn();
        r.probe();
        r.turn();
        // the rest of the stream
        let left = (N * 8 - r.pos).min(19);
        r.read_bits(left);
        reach!("a sequence of reads");
        obs(r.pos as u64);
        let (pos, peeked) = (r.pos, r.peeked);
        drop(r);
        ck!(src.pos == pos.div_ceil(8) + peeked as usize, "only the bytes needed are taken");
    }
}
impl R<'_, '_> {
    fn flag_or_byte(&mut self) {
        match pick(0, 2) {
            0 => {}
            1 => self.flag(),
            _ => self.read_bytes(1),
        }
    }
}

/// a sequence of writes against their concatenation
struct T<'a, const Z: usize> {
    w: Writer<&'a mut Sink<Z>>,
    o: Out<Z>,
    lsb: bool,
}
impl<const Z: usize> T<'_, Z> {
    fn bits(&mut self, n: usize) {
        self.bits_of(n, &bytes::<4>())
    }
    fn bits_of(&mut self, n: usize, raw: &[u8]) {
        let b = &BitSlice::<u8, Msb0>::from_slice(raw)[..n];
        let mut i = 0;
        while i < n {
            let v = if self.lsb { bit(raw, n - 1 - i, false) } else { bit(raw, i, false) };
            self.o.put(v as u128, 1, true, self.lsb);
            i += 1;
        }
        let r = if !self.lsb && n % 2 == 0 { self.w.write_bits(b) } else { self.w.write_bits_order(b, order(self.lsb)) };
        ck!(r.is_ok(), "bits are written");
    }
    fn bytes(&mut self, n: usize) {
        if self.lsb && self.o.pos % 8 != 0 {
            return self.array();
        }
        self.bytes_of(&bytes::<3>()[..n])
    }
    fn bytes_of(&mut self, raw: &[u8]) {
        for b in raw {
            self.o.put(*b as u128, 8, true, self.lsb);
        }
        ck!(self.w.write_bytes(raw).is_ok(), "bytes are written");
    }
    fn array(&mut self) {
        let raw: [u8; 2] = bytes();
        for b in raw {
            self.o.put(b as u128, 8, true, self.lsb);
        }
        ck!(raw.to_writer(&mut self.w, order(self.lsb)).is_ok(), "a byte array is written");
    }
    fn int(&mut self, n: usize, be: bool) {
        let raw: [u8; 4] = bytes();
        // any number the field can hold
        let v = dec(&raw, 0, n, be, self.lsb) as u32;
        self.o.put(v as u128, n, be, self.lsb);
        ck!(v.to_writer(&mut self.w, (endian(be), BitSize(n), order(self.lsb))).is_ok(), "a number is written");
    }
    fn whole(&mut self, be: bool) {
        let v = u16_();
        self.o.put(v as u128, 16, be, self.lsb);
        ck!(v.to_writer(&mut self.w, (endian(be), order(self.lsb))).is_ok(), "a whole number is written");
    }
    fn flag(&mut self) {
        let v = bool_();
        self.o.put(v as u128, 1, true, self.lsb);
        ck!(v.to_writer(&mut self.w, (BitSize(1), order(self.lsb))).is_ok(), "a flag is written");
    }
    fn op(&mut self, k: usize, max: usize) {
        match k {
            0 => self.bits(pick(0, max)),
            1 => self.bytes(pick(0, 3)),
            2 => self.array(),
            3 => {
                let n = pick(1, max);
                self.int(n, true)
            }
            4 => {
                let n = pick(1, max);
                self.int(n, false)
            }
            5 => self.whole(pick(0, 1) == 1),
            _ => self.flag(),
        }
    }
    fn probe(&mut self) {
        match pick(0, 6) {
            0 => self.bits(5),
            1 => self.bits(11),
            2 => self.bytes(2),
            3 => self.array(),
            4 => self.int(13, true),
            5 => self.int(3, false),
            _ => self.bytes(0),
        }
    }
    fn turn(&mut self) {
        if self.o.pos % 8 == 0 && pick(0, 1) == 1 {
            self.lsb = !self.lsb;
        }
    }
}
fn writes(a: usize, lsb: bool) {
    let mut s = Sink::<16>::new();
    let mut t = T { w: Writer::new(&mut s), o: Out::new(), lsb };
    t.op(a, if cfg!(feature = "thorough") { 17 } else { 9 });
    if cfg!(feature = "thorough") {
        t.turn();
        match pick(0, 2) {
            0 => {}
            1 => t.flag(),
            _ => t.int(8, true),
        }
    }
    t.turn();
    t.op(pick(0, 6), W);
    t.turn();
    t.probe();
    // what has been passed on and what is held back is all of it
    let held = t.w.rest().len();
    ck!(held < 8 && t.w.bits_written + held == t.o.pos, "written and held back bits are all there are");
    ck!(t.w.finalize().is_ok(), "the last byte is completed");
    let o = t.o;
    reach!("a sequence of writes");
    obs(o.pos as u64);
    ck!(t.w.bits_written == o.bytes() * 8, "a whole number of bytes is written");
    ck!(t.w.finalize().is_ok(), "completing again changes nothing");
    ck!(s.len == o.bytes() && s.d == o.d, "the output is the concatenation of the pieces");
}
// ---------------------------------------------------------------- long pieces
const L: usize = 300;
/// one long piece behind a few bits and in front of a few more
fn long_reads(how: usize, lsb: bool) {
    let d: [u8; L] = bytes();
    let mut src = Src::new(&d);
    {
        let mut r = R { r: Reader::new(&mut src), d: &d, pos: 0, lsb, peeked: false };
        match pick(0, 3) {
            0 => {}
            1 => r.end(),
            2 => r.int(3, true),
            _ => r.int(13, true),
        }
        match how {
            0 => r.read_bits([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1025, 2049][pick(0, 13)]),
            1 => r.read_bytes_to([8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257][pick(0, 15)], &mut [0u8; 260]),
            2 => match pick(0, 7) {
                0 => r.array::<16>(false),
                1 => r.array::<17>(true),
                2 => r.array::<33>(false),
                3 => r.array::<64>(true),
                4 => r.array::<65>(false),
                5 => r.array::<129>(true),
                6 => r.array::<256>(false),
                _ => r.array::<257>(true),
            },
            _ => r.skip([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025, 2047, 2048, 2049, 2200][pick(0, 17)]),
        }
        r.probe();
        r.turn();
        r.read_bits(11);
        reach!("a long piece and what follows it");
        let (pos, peeked) = (r.pos, r.peeked);
        drop(r);
        ck!(src.pos == pos.div_ceil(8) + peeked as usize, "only the bytes needed are taken");
    }
}
fn long_writes(how: usize, lsb: bool) {
    let mut s = Sink::<L>::new();
    let mut t = T { w: Writer::new(&mut s), o: Out::new(), lsb };
    match pick(0, 2) {
        0 => {}
        1 => t.int(3, true),
        _ => t.int(13, true),
    }
    let raw: [u8; 260] = bytes();
    match how {
        0 => t.bits_of([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1025, 2049][pick(0, 13)], &raw),
        _ => {
            if t.lsb && t.o.pos % 8 != 0 {
                return;
            }
            t.bytes_of(&raw[..[8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257][pick(0, 15)]])
        }
    }
    t.probe();
    let held = t.w.rest().len();
    ck!(held < 8 && t.w.bits_written + held == t.o.pos, "written and held back bits are all there are");
    ck!(t.w.finalize().is_ok(), "the last byte is completed");
    let o = t.o;
    reach!("a long piece written and what follows it");
    ck!(s.len == o.bytes() && s.d == o.d, "the output is the concatenation of the pieces");
}
macro_rules! h { ($($n:literal $f:ident $a:literal $l:literal;)*) => {$(
    const _: () = {
        #[export_name = $n]
        pub extern "C" fn h() { $f($a, $l) }
    };
)*} }
h! {
    "h_r0m" reads 0 false; "h_r1m" reads 1 false; "h_r2m" reads 2 false; "h_r3m" reads 3 false; "h_r4m" reads 4 false;
    "h_r5m" reads 5 false; "h_r6m" reads 6 false; "h_r7m" reads 7 false; "h_r8m" reads 8 false;
    "h_r0l" reads 0 true; "h_r1l" reads 1 true; "h_r2l" reads 2 true; "h_r3l" reads 3 true; "h_r4l" reads 4 true;
    "h_r5l" reads 5 true; "h_r6l" reads 6 true; "h_r7l" reads 7 true; "h_r8l" reads 8 true;
    "h_w0m" writes 0 false; "h_w1m" writes 1 false; "h_w2m" writes 2 false; "h_w3m" writes 3 false; "h_w4m" writes 4 false;
    "h_w5m" writes 5 false; "h_w6m" writes 6 false;
    "h_w0l" writes 0 true; "h_w1l" writes 1 true; "h_w2l" writes 2 true; "h_w3l" writes 3 true; "h_w4l" writes 4 true;
    "h_w5l" writes 5 true; "h_w6l" writes 6 true;
    "h_longr0m" long_reads 0 false; "h_longr1m" long_reads 1 false; "h_longr2m" long_reads 2 false; "h_longr3m" long_reads 3 false;
    "h_longr0l" long_reads 0 true; "h_longr1l" long_reads 1 true; "h_longr2l" long_reads 2 true; "h_longr3l" long_reads 3 true;
    "h_longw0m" long_writes 0 false; "h_longw1m" long_writes 1 false;
    "h_longw0l" long_writes 0 true; "h_longw1l" long_writes 1 true;
}
