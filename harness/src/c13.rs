//! C13: padding and seek attributes move by exactly what they state.
use crate::ops::*;
use crate::*;

// ---------------------------------------------------------------- padding
/// what is skipped, from every offset
fn skip<T: Cat>() {
    let k = offset();
    let s = stream::<T>(k, pick(0, 1));
    let d = &s.d[..s.n];
    if s.n * 8 < k {
        return;
    }
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, T::LSB).is_err() {
        return;
    }
    let got = T::from_reader_with_ctx(&mut r, ());
    let mut c = Cur::at(d, k);
    let want = T::dec(&mut c);
    obs(r.bits_read as u64);
    match (got, want) {
        (Ok(g), Ok(w)) => {
            reach!("padding is skipped");
            ck!(g == w, "what lies between the padding is read");
            ck!(r.bits_read == c.pos, "as much is skipped as is stated");
        }
        (Err(e), Err(w)) => {
            reach!("padding is missing");
            ck!(same_kind(&e, w), "padding that is not there is missing data");
        }
        (Ok(_), Err(_)) => fail!("padding that is not there is refused"),
        (Err(_), Ok(_)) => fail!("padding that is there is skipped"),
    }
}
/// what is filled in, from every offset
fn fill<T: Cat>() {
    let k = offset();
    let x = if k == 0 { 0 } else { u8_() & (0xff >> (8 - k)) };
    let y = u8_();
    let v = T::gen();
    let mut s = Sink::<CAP>::new();
    let mut w = Writer::new(&mut s);
    let done = put(&mut w, x, k, T::LSB).and_then(|_| v.to_writer(&mut w, ()));
    let bits = w.bits_written;
    let done = done.and_then(|_| tail(&mut w, y, T::LSB)).and_then(|_| w.finalize());
    if done.is_err() {
        fail!("a padded value is written");
        return;
    }
    let mut o = O::new();
    o.put(x as u128, k, true, T::LSB);
    v.enc(&mut o);
    obs(bits as u64);
    reach!("padding is written");
    // bits that still wait for the rest of their byte are not counted
    ck!(bits == o.pos || bits == o.pos / 8 * 8, "the amount written is what is stated");
    o.put(y as u128, 8, true, T::LSB);
    ck!(s.len == o.bytes() && s.d == o.d, "the padding is zero and has the stated length");
}
#[cfg(feature = "cfg_bits_any")]
fn tail<W: Write + Seek>(w: &mut Writer<W>, y: u8, lsb: bool) -> Result<(), DekuError> {
    y.to_writer(w, if lsb { Order::Lsb0 } else { Order::Msb0 })
}
#[cfg(not(feature = "cfg_bits_any"))]
fn tail<W: Write + Seek>(w: &mut Writer<W>, y: u8, _: bool) -> Result<(), DekuError> {
    y.to_writer(w, ())
}
pad!("h_skip_", skip);
pad!("h_fill_", fill);
#[cfg(feature = "cfg_bits_any")]
padb!("h_skip_", skip);
#[cfg(feature = "cfg_bits_any")]
padb!("h_fill_", fill);

// ---------------------------------------------------------------- seeking
#[derive(Clone, Copy)]
enum To {
    Start(i128),
    Cur(i128),
    End(i128),
}
/// input read with seeks
struct In<'a> {
    d: &'a [u8],
    /// in bits
    pos: usize,
}
/// why not
#[derive(PartialEq, Clone, Copy)]
enum Not {
    Seek,
    Inc,
    Parse,
}
impl In<'_> {
    fn seek(&mut self, to: To) -> Result<(), Not> {
        let p = match to {
            To::Start(n) => n,
            // the rest of a byte is left behind
            To::Cur(n) => self.pos.div_ceil(8) as i128 + n,
            To::End(n) => self.d.len() as i128 + n,
        };
        // an amount to move by is a signed number of 64 bits
        if p < 0 || matches!(to, To::Cur(n) | To::End(n) if n > i64::MAX as i128) {
            return Err(Not::Seek);
        }
        self.pos = p.min(1 << 20) as usize * 8;
        Ok(())
    }
    fn u(&mut self, n: usize) -> Result<u128, Not> {
        if self.pos + n > self.d.len() * 8 {
            return Err(Not::Inc);
        }
        let v = dec(self.d, self.pos, n, true, false);
        self.pos += n;
        Ok(v)
    }
    fn u8(&mut self) -> Result<u8, Not> {
        Ok(self.u(8)? as u8)
    }
    fn u16(&mut self) -> Result<u16, Not> {
        Ok(self.u(16)? as u16)
    }
}
const LEN: usize = 12;
/// output written with seeks, over what was there
struct Over {
    d: [u8; LEN],
    len: usize,
    pos: usize,
}
impl Over {
    fn seek(&mut self, to: To) -> Result<(), Not> {
        // the rest of a byte is filled up
        while self.pos % 8 != 0 {
            self.bits(0, 1)?;
        }
        let p = match to {
            To::Start(n) => n,
            To::Cur(n) => (self.pos / 8) as i128 + n,
            To::End(n) => self.len as i128 + n,
        };
        if p < 0 {
            return Err(Not::Seek);
        }
        self.pos = p as usize * 8;
        Ok(())
    }
    fn bits(&mut self, v: u128, n: usize) -> Result<(), Not> {
        let mut i = 0;
        while i < n {
            let (b, k) = (self.pos / 8, self.pos % 8);
            if b >= LEN {
                return Err(Not::Inc);
            }
            // a byte is written as a whole
            if k == 0 {
                self.d[b] = 0;
            }
            if b >= self.len {
                self.len = b + 1;
            }
            self.d[b] |= ((v >> (n - 1 - i)) as u8 & 1) << (7 - k);
            self.pos += 1;
            i += 1;
        }
        Ok(())
    }
    fn u8(&mut self, v: u8) -> Result<(), Not> {
        self.bits(v as u128, 8)
    }
    fn u16(&mut self, v: u16) -> Result<(), Not> {
        self.bits(v as u128, 16)
    }
}
/// a type that seeks, with what that means
trait Jump: Sized + PartialEq + for<'a> DekuContainerRead<'a> + DekuContainerWrite {
    /// bytes of input that are tried
    const IN: usize;
    fn any() -> Self;
    fn rd(i: &mut In) -> Result<Self, Not>;
    fn wr(&self, o: &mut Over) -> Result<(), Not>;
    /// (for speed only)
    fn part(_: &mut [u8]) {}
}
fn not(e: &DekuError) -> Not {
    match kind(e) {
        E::Inc => Not::Inc,
        E::Parse => Not::Parse,
        _ => Not::Seek,
    }
}
fn jump<T: Jump>() {
    let n = pick(0, T::IN);
    let lead = pick(0, 1);
    let mut d: [u8; LEN] = bytes();
    T::part(&mut d[lead..n.max(lead)]);
    if lead > n {
        return;
    }
    let d = &d[..n];
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    let mut i = In { d, pos: 0 };
    if lead == 1 {
        if u8::from_reader_with_ctx(&mut r, ()).is_err() {
            fail!("what comes before is read");
        }
        i.pos = 8;
    }
    let got = T::from_reader_with_ctx(&mut r, ());
    let want = T::rd(&mut i);
    obs(r.bits_read as u64);
    match (got, want) {
        (Ok(g), Ok(w)) => {
            reach!("read after a seek");
            ck!(g == w, "what is read lies where the seek leads");
            ck!(r.bits_read == i.pos, "the position counts from the start");
            drop(r);
            ck!(src.pos == i.pos.div_ceil(8), "the source is left where the value ends");
        }
        (Err(e), Err(w)) => {
            reach!("a seek that leads nowhere");
            ck!(w != Not::Seek || matches!(kind(&e), E::Io(_) | E::Parse), "an impossible seek is refused as one");
            ck!(w != Not::Inc || kind(&e) == E::Inc, "nothing lies behind the end");
        }
        (Ok(_), Err(_)) => fail!("an impossible seek is an error"),
        (Err(_), Ok(_)) => fail!("a possible seek is done"),
    }
}
fn plant<T: Jump>() {
    let v = T::any();
    let d: [u8; LEN] = bytes();
    let len = pick(0, 5);
    let lead = pick(0, 1);
    let mut s = Sink::<LEN>::new();
    let mut o = Over { d: [0; LEN], len, pos: 0 };
    s.d[..len].copy_from_slice(&d[..len]);
    o.d[..len].copy_from_slice(&d[..len]);
    s.len = len;
    let mut w = Writer::new(&mut s);
    if lead == 1 {
        if 0xabu8.to_writer(&mut w, ()).is_err() || o.u8(0xab).is_err() {
            fail!("what comes before is written");
        }
    }
    let got = v.to_writer(&mut w, ()).and_then(|_| w.finalize());
    let want = v.wr(&mut o);
    drop(w);
    match (got, want) {
        (Ok(_), Ok(_)) => {
            reach!("written after a seek");
            obs(s.len as u64);
            ck!(s.len == o.len, "nothing else becomes longer");
            ck!(s.d == o.d, "what is written lies where the seek leads, and only there");
            ck!(s.pos == o.pos.div_ceil(8), "the sink is left where the value ends");
        }
        (Err(e), Err(w)) => {
            reach!("a seek out of the output");
            ck!(matches!(kind(&e), E::Io(_) | E::Parse), "an impossible seek is refused as one when writing");
            ck!(w != Not::Parse, "the model refuses no value");
        }
        (Ok(_), Err(_)) => fail!("an impossible seek is an error when writing"),
        (Err(_), Ok(_)) => fail!("a possible seek is done when writing"),
    }
}
each!("h_jump_", jump: ByStart ByCur ByEnd Rewind All TopStart TopCur TopEnd TopRewind Inner BigStart BigStartNeg BigCur BigEnd BigCurPos BigEndPos Past TopPast TopGap EnumJump Stack);
each!("h_plant_", plant: ByStart ByCur ByEnd Rewind All TopStart TopCur TopEnd TopRewind Inner BigStart BigCur Past TopPast TopGap EnumJump Stack);
#[cfg(feature = "cfg_bits_any")]
each!("h_jump_", jump: Bits1 Bits2);
#[cfg(feature = "cfg_bits_any")]
each!("h_plant_", plant: Bits1 Bits2);

/// a signed amount, for writing
fn amount(lo: i8, hi: i8) -> i8 {
    let k = pick(0, (hi - lo) as usize);
    lo + k as i8
}
/// one case for each of a few amounts
fn near(d: &mut [u8], i: usize) {
    if i >= d.len() {
        return;
    }
    let k = pick(0, 2 * LEN + 1);
    if k <= 2 * LEN {
        let v = (k as i8 - LEN as i8) as u8;
        assume(d[i] == v);
        d[i] = v;
    } else {
        let v = d[i] as i8;
        assume(v > LEN as i8 || v < -(LEN as i8));
        if v < 0 {
            reach!("a seek far before the start");
        }
    }
}
macro_rules! amounts { ($d:meta, $q:ident; $($n:ident [$($a:tt)*] $to:ident;)*) => {$(
    #[$d]
    #[derive(PartialEq)]
    #[deku(endian = "big")]
    pub struct $n {
        $q: i8,
        $($a)*
        b: u16,
        c: u8,
    }
    impl Jump for $n {
        const IN: usize = 6;
        fn any() -> Self {
            $n { $q: amount(-6, 12), b: u16_(), c: u8_() }
        }
        fn part(d: &mut [u8]) {
            near(d, 0)
        }
        fn rd(i: &mut In) -> Result<Self, Not> {
            let a = i.u8()? as i8;
            i.seek(To::$to(a as i128))?;
            Ok($n { $q: a, b: i.u16()?, c: i.u8()? })
        }
        fn wr(&self, o: &mut Over) -> Result<(), Not> {
            o.u8(self.$q as u8)?;
            o.seek(To::$to(self.$q as i128))?;
            o.u16(self.b)?;
            o.u8(self.c)
        }
    }
)*} }
amounts! {derive(DekuRead, DekuWrite), a;
    ByStart [#[deku(seek_from_start = "*a")]] Start;
    ByCur [#[deku(seek_from_current = "*a")]] Cur;
    ByEnd [#[deku(seek_from_end = "*a")]] End;
}
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct Rewind {
    a: u8,
    #[deku(seek_rewind)]
    b: u8,
    c: u8,
    #[deku(seek_rewind, endian = "big")]
    d: u16,
}
impl Jump for Rewind {
    const IN: usize = 4;
    fn any() -> Self {
        Rewind { a: u8_(), b: u8_(), c: u8_(), d: u16_() }
    }
    fn rd(i: &mut In) -> Result<Self, Not> {
        let a = i.u8()?;
        i.seek(To::Start(0))?;
        let b = i.u8()?;
        let c = i.u8()?;
        i.seek(To::Start(0))?;
        Ok(Rewind { a, b, c, d: i.u16()? })
    }
    fn wr(&self, o: &mut Over) -> Result<(), Not> {
        o.u8(self.a)?;
        o.seek(To::Start(0))?;
        o.u8(self.b)?;
        o.u8(self.c)?;
        o.seek(To::Start(0))?;
        o.u16(self.d)
    }
}
/// all of them, and padding and magic at the new place
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct All {
    #[deku(seek_from_start = "2")]
    a: u8,
    #[deku(seek_from_current = "-2i8")]
    b: u8,
    #[deku(seek_from_end = "-1")]
    c: u8,
    #[deku(seek_from_current = "-3", magic = b"m")]
    d: u8,
    #[deku(seek_rewind, pad_bytes_before = "1")]
    e: u8,
}
impl Jump for All {
    const IN: usize = 5;
    fn any() -> Self {
        All { a: u8_(), b: u8_(), c: u8_(), d: u8_(), e: u8_() }
    }
    fn rd(i: &mut In) -> Result<Self, Not> {
        i.seek(To::Start(2))?;
        let a = i.u8()?;
        i.seek(To::Cur(-2))?;
        let b = i.u8()?;
        i.seek(To::End(-1))?;
        let c = i.u8()?;
        i.seek(To::Cur(-3))?;
        if i.u8()? != b'm' {
            return Err(Not::Parse);
        }
        let d = i.u8()?;
        i.seek(To::Start(0))?;
        i.u8()?;
        Ok(All { a, b, c, d, e: i.u8()? })
    }
    fn wr(&self, o: &mut Over) -> Result<(), Not> {
        o.seek(To::Start(2))?;
        o.u8(self.a)?;
        o.seek(To::Cur(-2))?;
        o.u8(self.b)?;
        o.seek(To::End(-1))?;
        o.u8(self.c)?;
        o.seek(To::Cur(-3))?;
        o.u8(b'm')?;
        o.u8(self.d)?;
        o.seek(To::Start(0))?;
        o.u8(0)?;
        o.u8(self.e)
    }
}
/// before a whole struct
macro_rules! tops { ($d:meta; $($n:ident [$($a:tt)*] $to:ident $k:expr;)*) => {$(
    #[$d]
    #[derive(PartialEq)]
    $($a)*
    pub struct $n {
        a: u8,
        #[deku(endian = "big")]
        b: u16,
    }
    impl Jump for $n {
        const IN: usize = 6;
        fn any() -> Self {
            $n { a: u8_(), b: u16_() }
        }
        fn rd(i: &mut In) -> Result<Self, Not> {
            i.seek(To::$to($k))?;
            if i.u8()? != 0xa5 {
                return Err(Not::Parse);
            }
            Ok($n { a: i.u8()?, b: i.u16()? })
        }
        fn wr(&self, o: &mut Over) -> Result<(), Not> {
            o.seek(To::$to($k))?;
            o.u8(0xa5)?;
            o.u8(self.a)?;
            o.u16(self.b)
        }
    }
)*} }
tops! { derive(DekuRead, DekuWrite);
    TopStart [#[deku(magic = b"\xa5", seek_from_start = "1 + 1")]] Start 2;
    TopCur [#[deku(magic = b"\xa5", seek_from_current = "1")]] Cur 1;
    TopEnd [#[deku(magic = b"\xa5", seek_from_end = "-4")]] End -4;
    TopGap [#[deku(magic = b"\xa5", seek_from_end = "2")]] End 2;
}
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(seek_rewind)]
pub struct TopRewind {
    a: u8,
    b: u8,
}
impl Jump for TopRewind {
    const IN: usize = 3;
    fn any() -> Self {
        TopRewind { a: u8_(), b: u8_() }
    }
    fn rd(i: &mut In) -> Result<Self, Not> {
        i.seek(To::Start(0))?;
        Ok(TopRewind { a: i.u8()?, b: i.u8()? })
    }
    fn wr(&self, o: &mut Over) -> Result<(), Not> {
        o.seek(To::Start(0))?;
        o.u8(self.a)?;
        o.u8(self.b)
    }
}
/// behind the end and back
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct Past {
    n: i8,
    #[deku(seek_from_end = "*n")]
    u: (),
    #[deku(seek_from_current = "-2")]
    b: u8,
    #[deku(seek_from_end = "1 + 1")]
    v: (),
    #[deku(seek_from_current = "-3")]
    c: u8,
}
impl Jump for Past {
    const IN: usize = 5;
    fn any() -> Self {
        Past { n: amount(-6, 6), u: (), b: u8_(), v: (), c: u8_() }
    }
    fn part(d: &mut [u8]) {
        near(d, 0)
    }
    fn rd(i: &mut In) -> Result<Self, Not> {
        let n = i.u8()? as i8;
        i.seek(To::End(n as i128))?;
        i.seek(To::Cur(-2))?;
        let b = i.u8()?;
        i.seek(To::End(2))?;
        i.seek(To::Cur(-3))?;
        Ok(Past { n, u: (), b, v: (), c: i.u8()? })
    }
    fn wr(&self, o: &mut Over) -> Result<(), Not> {
        o.u8(self.n as u8)?;
        o.seek(To::End(self.n as i128))?;
        o.seek(To::Cur(-2))?;
        o.u8(self.b)?;
        o.seek(To::End(2))?;
        o.seek(To::Cur(-3))?;
        o.u8(self.c)
    }
}
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(seek_from_end = "2")]
pub struct TopPast {
    u: (),
    #[deku(seek_from_current = "-4")]
    a: u8,
    b: u8,
}
impl Jump for TopPast {
    const IN: usize = 4;
    fn any() -> Self {
        TopPast { u: (), a: u8_(), b: u8_() }
    }
    fn rd(i: &mut In) -> Result<Self, Not> {
        i.seek(To::End(2))?;
        i.seek(To::Cur(-4))?;
        Ok(TopPast { u: (), a: i.u8()?, b: i.u8()? })
    }
    fn wr(&self, o: &mut Over) -> Result<(), Not> {
        o.seek(To::End(2))?;
        o.seek(To::Cur(-4))?;
        o.u8(self.a)?;
        o.u8(self.b)
    }
}
/// in the fields of an enum
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(id_type = "u8")]
pub enum EnumJump {
    #[deku(id = "1")]
    A(#[deku(seek_from_start = "0", pad_bytes_before = "2")] u8, #[deku(seek_from_current = "-1")] u8),
    #[deku(id = "2")]
    B {
        n: i8,
        #[deku(seek_from_current = "*n", pad_bytes_after = "1")]
        a: u8,
        #[deku(seek_from_end = "-1")]
        b: u8,
        #[deku(seek_rewind)]
        c: u8,
    },
    #[deku(id_pat = "_")]
    Z(u8, #[deku(seek_from_current = "1")] u8),
}
impl Jump for EnumJump {
    const IN: usize = 6;
    fn any() -> Self {
        match pick(0, 2) {
            0 => EnumJump::A(u8_(), u8_()),
            1 => EnumJump::B { n: amount(-6, 6), a: u8_(), b: u8_(), c: u8_() },
            _ => EnumJump::Z(u8_(), u8_()),
        }
    }
    fn part(d: &mut [u8]) {
        if d.len() > 1 && d[0] == 2 {
            near(d, 1)
        }
    }
    fn rd(i: &mut In) -> Result<Self, Not> {
        let k = i.u8()?;
        Ok(match k {
            1 => {
                i.seek(To::Start(0))?;
                i.u16()?;
                let a = i.u8()?;
                i.seek(To::Cur(-1))?;
                EnumJump::A(a, i.u8()?)
            }
            2 => {
                let n = i.u8()? as i8;
                i.seek(To::Cur(n as i128))?;
                let a = i.u8()?;
                i.u8()?;
                i.seek(To::End(-1))?;
                let b = i.u8()?;
                i.seek(To::Start(0))?;
                EnumJump::B { n, a, b, c: i.u8()? }
            }
            _ => {
                i.seek(To::Cur(1))?;
                EnumJump::Z(k, i.u8()?)
            }
        })
    }
    fn wr(&self, o: &mut Over) -> Result<(), Not> {
        match self {
            EnumJump::A(a, b) => {
                o.u8(1)?;
                o.seek(To::Start(0))?;
                o.u16(0)?;
                o.u8(*a)?;
                o.seek(To::Cur(-1))?;
                o.u8(*b)
            }
            EnumJump::B { n, a, b, c } => {
                o.u8(2)?;
                o.u8(*n as u8)?;
                o.seek(To::Cur(*n as i128))?;
                o.u8(*a)?;
                o.u8(0)?;
                o.seek(To::End(-1))?;
                o.u8(*b)?;
                o.seek(To::Start(0))?;
                o.u8(*c)
            }
            EnumJump::Z(k, a) => {
                o.u8(*k)?;
                o.seek(To::Cur(1))?;
                o.u8(*a)
            }
        }
    }
}
/// a seek, then what marks the field, then its padding
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct Stack {
    #[deku(pad_bytes_before = "1", magic = b"x", seek_from_current = "1", pad_bytes_after = "2")]
    a: u8,
    #[deku(magic = b"yz", pad_bytes_before = "1")]
    b: u8,
}
impl Jump for Stack {
    const IN: usize = 10;
    fn any() -> Self {
        Stack { a: u8_(), b: u8_() }
    }
    fn rd(i: &mut In) -> Result<Self, Not> {
        i.seek(To::Cur(1))?;
        if i.u8()? != b'x' {
            return Err(Not::Parse);
        }
        i.u8()?;
        let a = i.u8()?;
        i.u16()?;
        if i.u8()? != b'y' || i.u8()? != b'z' {
            return Err(Not::Parse);
        }
        i.u8()?;
        Ok(Stack { a, b: i.u8()? })
    }
    fn wr(&self, o: &mut Over) -> Result<(), Not> {
        o.seek(To::Cur(1))?;
        o.u8(b'x')?;
        o.u8(0)?;
        o.u8(self.a)?;
        o.u16(0)?;
        o.u8(b'y')?;
        o.u8(b'z')?;
        o.u8(0)?;
        o.u8(self.b)
    }
}
/// a struct that seeks inside another, by an amount from outside
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct Inner {
    n: i8,
    #[deku(ctx = "*n")]
    i: In1,
    #[deku(ctx = "1")]
    j: In1,
    c: u8,
}
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(ctx = "n: i8", seek_from_current = "n - 1")]
pub struct In1 {
    b: u8,
}
impl Jump for Inner {
    const IN: usize = 6;
    fn any() -> Self {
        Inner { n: amount(-6, 12), i: In1 { b: u8_() }, j: In1 { b: u8_() }, c: u8_() }
    }
    fn part(d: &mut [u8]) {
        near(d, 0);
        if d.len() > 0 {
            assume(d[0] != 0x80);
        }
    }
    fn rd(i: &mut In) -> Result<Self, Not> {
        let n = i.u8()? as i8;
        i.seek(To::Cur(n as i128 - 1))?;
        let b = i.u8()?;
        i.seek(To::Cur(0))?;
        let j = i.u8()?;
        Ok(Inner { n, i: In1 { b }, j: In1 { b: j }, c: i.u8()? })
    }
    fn wr(&self, o: &mut Over) -> Result<(), Not> {
        o.u8(self.n as u8)?;
        o.seek(To::Cur(self.n as i128 - 1))?;
        o.u8(self.i.b)?;
        o.seek(To::Cur(0))?;
        o.u8(self.j.b)?;
        o.u8(self.c)
    }
}
/// a sink of any size, which keeps track of where it is only
struct Far {
    pos: u64,
    len: u64,
    /// where the last byte was written
    at: u64,
    byte: u8,
}
impl Write for Far {
    fn write(&mut self, buf: &[u8]) -> deku::no_std_io::Result<usize> {
        let n = buf.len() as u64;
        if n == 0 {
            return Ok(0);
        }
        if self.pos > u64::MAX - n {
            return Err(deku::no_std_io::Error::from(deku::no_std_io::ErrorKind::WriteZero));
        }
        self.pos += n;
        self.at = self.pos - 1;
        self.byte = buf[buf.len() - 1];
        self.len = self.len.max(self.pos);
        Ok(buf.len())
    }
    fn flush(&mut self) -> deku::no_std_io::Result<()> {
        Ok(())
    }
}
impl Seek for Far {
    fn seek(&mut self, s: deku::no_std_io::SeekFrom) -> deku::no_std_io::Result<u64> {
        use deku::no_std_io::SeekFrom::*;
        let p = match s {
            Start(n) => n as i128,
            Current(n) => self.pos as i128 + n as i128,
            End(n) => self.len as i128 + n as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(deku::no_std_io::Error::from(deku::no_std_io::ErrorKind::InvalidInput));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
trait Big: Jump {
    fn of(a: u64, b: u8) -> Self;
    fn to(a: u64) -> To;
}
/// a seek by any amount of 64 bits when writing
fn far<T: Big>() {
    let (a, b) = (u64_(), u8_());
    let from = u64_();
    let more = u64_();
    assume(from < 1 << 62 && more < 1 << 62);
    let v = T::of(a, b);
    let mut s = Far { pos: from, len: from + more, at: 0, byte: 0 };
    let mut w = Writer::new(&mut s);
    let got = v.to_writer(&mut w, ()).and_then(|_| w.finalize());
    drop(w);
    let pos = from as i128 + 8;
    let len = pos.max((from + more) as i128);
    let (p, ok) = match T::to(a) {
        To::Start(n) => (n, true),
        To::Cur(n) => (pos + n, n <= i64::MAX as i128),
        To::End(n) => (len + n, n <= i64::MAX as i128),
    };
    // the last byte there is has the number u64::MAX - 1
    let ok = ok && p >= 0 && p < u64::MAX as i128;
    match got {
        Ok(_) => {
            reach!("written after a far seek");
            ck!(ok, "an impossible far seek is an error when writing");
            ck!(s.at as i128 == p && s.byte == b, "what is written lies where the far seek leads");
            ck!(s.pos as i128 == p + 1, "the sink is left behind what was written");
        }
        Err(e) => {
            reach!("a far seek that leads nowhere");
            ck!(!ok, "a possible far seek is done when writing");
            ck!(matches!(kind(&e), E::Io(_) | E::Parse), "an impossible far seek is refused as one when writing");
        }
    }
}
each!("h_far_", far: BigStart BigStartNeg BigCur BigEnd BigCurPos BigEndPos);
/// amounts of 64 bits
macro_rules! big { ($d:meta, $q:ident; $($n:ident $t:ty, [$($a:tt)*] $to:ident;)*) => {$(
    #[$d]
    #[derive(PartialEq)]
    pub struct $n {
        #[deku(endian = "little")]
        $q: $t,
        $($a)*
        b: u8,
    }
    impl Jump for $n {
        const IN: usize = 10;
        fn any() -> Self {
            $n { $q: pick(0, 11) as $t, b: u8_() }
        }
        fn rd(i: &mut In) -> Result<Self, Not> {
            let a = i.u(64)? as u64;
            let a = a.swap_bytes() as $t;
            i.seek(To::$to(a as i128))?;
            Ok($n { $q: a, b: i.u8()? })
        }
        fn wr(&self, o: &mut Over) -> Result<(), Not> {
            o.bits((self.$q as u64).swap_bytes() as u128, 64)?;
            o.seek(To::$to(self.$q as i128))?;
            o.u8(self.b)
        }
    }
    impl Big for $n {
        fn of(a: u64, b: u8) -> Self { $n { $q: a as $t, b } }
        fn to(a: u64) -> To { To::$to(a as $t as i128) }
    }
)*} }
big! { derive(DekuRead, DekuWrite), a;
    BigStart u64, [#[deku(seek_from_start = "*a")]] Start;
    BigStartNeg i64, [#[deku(seek_from_start = "*a")]] Start;
    BigCur i64, [#[deku(seek_from_current = "*a")]] Cur;
    BigEnd i64, [#[deku(seek_from_end = "*a")]] End;
    BigCurPos u64, [#[deku(seek_from_current = "*a")]] Cur;
    BigEndPos u64, [#[deku(seek_from_end = "*a")]] End;
}
/// from inside a byte
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(endian = "big")]
pub struct Bits1 {
    #[deku(bits = 4)]
    n: u8,
    #[deku(seek_from_start = "*n")]
    a: u8,
    #[deku(bits = 3)]
    b: u8,
    #[deku(seek_from_current = "1", bits = 9)]
    c: u16,
    #[deku(seek_from_end = "-1", bits = 2)]
    d: u8,
    #[deku(pad_bits_before = "1")]
    e: u8,
}
#[cfg(feature = "cfg_bits_any")]
impl Jump for Bits1 {
    const IN: usize = 7;
    fn any() -> Self {
        Bits1 { n: pick(0, 15) as u8, a: u8_(), b: sy(3) as u8, c: sy(9) as u16, d: sy(2) as u8, e: u8_() }
    }
    fn part(d: &mut [u8]) {
        split(d, 0, 0xf0)
    }
    fn rd(i: &mut In) -> Result<Self, Not> {
        let n = i.u(4)? as u8;
        i.seek(To::Start(n as i128))?;
        let a = i.u8()?;
        let b = i.u(3)? as u8;
        i.seek(To::Cur(1))?;
        let c = i.u(9)? as u16;
        i.seek(To::End(-1))?;
        let d = i.u(2)? as u8;
        i.u(1)?;
        Ok(Bits1 { n, a, b, c, d, e: i.u8()? })
    }
    fn wr(&self, o: &mut Over) -> Result<(), Not> {
        o.bits(self.n as u128, 4)?;
        o.seek(To::Start(self.n as i128))?;
        o.u8(self.a)?;
        o.bits(self.b as u128, 3)?;
        o.seek(To::Cur(1))?;
        o.bits(self.c as u128, 9)?;
        o.seek(To::End(-1))?;
        o.bits(self.d as u128, 2)?;
        o.bits(0, 1)?;
        o.u8(self.e)
    }
}
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct Bits2 {
    #[deku(bits = 6)]
    n: u8,
    #[deku(seek_from_current = "*n as i8 - 3", bits = 5)]
    a: u8,
    #[deku(seek_rewind, bits = 3)]
    b: u8,
}
#[cfg(feature = "cfg_bits_any")]
impl Jump for Bits2 {
    const IN: usize = 4;
    fn any() -> Self {
        Bits2 { n: pick(0, 15) as u8, a: sy(5) as u8, b: sy(3) as u8 }
    }
    fn part(d: &mut [u8]) {
        split(d, 0, 0xfc)
    }
    fn rd(i: &mut In) -> Result<Self, Not> {
        let n = i.u(6)? as u8;
        i.seek(To::Cur(n as i128 - 3))?;
        let a = i.u(5)? as u8;
        i.seek(To::Start(0))?;
        Ok(Bits2 { n, a, b: i.u(3)? as u8 })
    }
    fn wr(&self, o: &mut Over) -> Result<(), Not> {
        o.bits(self.n as u128, 6)?;
        o.seek(To::Cur(self.n as i128 - 3))?;
        o.bits(self.a as u128, 5)?;
        o.seek(To::Start(0))?;
        o.bits(self.b as u128, 3)
    }
}

// ---------------------------------------------------------------- more padding than is moved at once
const LNGCAP: usize = 1100;
trait Lng: for<'a> DekuReader<'a> + DekuWriter + PartialEq + Sized {
    const BITS: bool;
    const LSB: bool;
    fn any(n: usize) -> Self;
    fn dec(c: &mut Cur) -> Result<Self, K>;
    fn enc(&self, o: &mut Out<LNGCAP>);
}
/// the amount is stated in
fn pads<T: Lng>() -> usize {
    if T::BITS {
        [0, 7, 511, 512, 513, 520, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4097][pick(0, 13)]
    } else {
        [0, 1, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 511, 513][pick(0, 13)]
    }
}
fn lng<T: Lng>() {
    let n = pads::<T>();
    // what is skipped
    let mut d: [u8; LNGCAP] = bytes();
    assume(d[0] == n as u8 && d[1] == (n >> 8) as u8);
    d[0] = n as u8;
    d[1] = (n >> 8) as u8;
    let mut c = Cur::new(&d);
    let want = match T::dec(&mut c) {
        Ok(w) => w,
        Err(_) => return fail!("the input has room"),
    };
    let all = c.pos.div_ceil(8);
    let cut = pick(0, 2);
    let mut src = Src::new(&d[..all + 1 - cut]);
    let mut r = Reader::new(&mut src);
    let got = T::from_reader_with_ctx(&mut r, ());
    obs(r.bits_read as u64);
    match got {
        Ok(g) => {
            reach!("long padding is skipped");
            ck!(cut < 2, "padding that is not there is refused");
            ck!(g == want, "what lies between long padding is read");
            ck!(r.bits_read == c.pos, "as much is skipped as is stated");
        }
        Err(e) => {
            reach!("long padding is missing");
            ck!(cut == 2, "padding that is there is skipped");
            ck!(kind(&e) == E::Inc, "padding that is not there is missing data");
        }
    }
}
fn long_fill<T: Lng>() {
    let n = pads::<T>();
    let v = T::any(n);
    let mut s = Sink::<LNGCAP>::new();
    let mut w = Writer::new(&mut s);
    if v.to_writer(&mut w, ()).and_then(|_| w.finalize()).is_err() {
        fail!("a padded value is written");
        return;
    }
    let mut o = Out::<LNGCAP>::new();
    v.enc(&mut o);
    reach!("long padding is written");
    obs(s.len as u64);
    ck!(s.len == o.bytes() && s.d == o.d, "long padding is zero and has the stated length");
}
macro_rules! lng {
    ($($t:ident)*) => {$(
        const _: () = {
            #[export_name = concat!("h_long_", stringify!($t))]
            pub extern "C" fn h() { lng::<$t>() }
            #[export_name = concat!("h_longfill_", stringify!($t))]
            pub extern "C" fn g() { long_fill::<$t>() }
        };
    )*}
}
lng! { LngBytes }
#[cfg(feature = "cfg_bits_any")]
lng! { LngBits LngMid LngLsb }

#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct LngBytes {
    n: u8,
    m: u8,
    #[deku(pad_bytes_before = "*n as usize + 256 * *m as usize")]
    a: u8,
    #[deku(pad_bytes_after = "*n as usize + 256 * *m as usize", endian = "big")]
    b: u16,
    c: u8,
}
impl Lng for LngBytes {
    const BITS: bool = false;
    const LSB: bool = false;
    fn any(n: usize) -> Self {
        LngBytes { n: n as u8, m: (n >> 8) as u8, a: u8_(), b: u16_(), c: u8_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let (n, m) = (c.u8()?, c.u8()?);
        let p = (n as usize + 256 * m as usize) * 8;
        c.pad(p)?;
        let (a, b) = (c.u8()?, c.be16()?);
        c.pad(p)?;
        Ok(LngBytes { n, m, a, b, c: c.u8()? })
    }
    fn enc(&self, o: &mut Out<LNGCAP>) {
        o.u8(self.n);
        o.u8(self.m);
        o.pad((self.n as usize + 256 * self.m as usize) * 8);
        o.u8(self.a);
        o.be16(self.b);
        o.pad((self.n as usize + 256 * self.m as usize) * 8);
        o.u8(self.c);
    }
}
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(endian = "little")]
pub struct LngBits {
    n: u16,
    #[deku(bits = 3)]
    a: u8,
    #[deku(pad_bits_before = "*n as usize", bits = 5)]
    b: u8,
    #[deku(pad_bits_after = "*n as usize", bits = 6)]
    c: u8,
    #[deku(bits = 2)]
    d: u8,
}
#[cfg(feature = "cfg_bits_any")]
impl Lng for LngBits {
    const BITS: bool = true;
    const LSB: bool = false;
    fn any(n: usize) -> Self {
        LngBits { n: n as u16, a: sy(3) as u8, b: sy(5) as u8, c: sy(6) as u8, d: sy(2) as u8 }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.le16()?;
        let a = c.u(3, true, false)? as u8;
        c.pad(n as usize)?;
        let b = c.u(5, true, false)? as u8;
        let x = c.u(6, true, false)? as u8;
        c.pad(n as usize)?;
        Ok(LngBits { n, a, b, c: x, d: c.u(2, true, false)? as u8 })
    }
    fn enc(&self, o: &mut Out<LNGCAP>) {
        o.le16(self.n);
        o.put(self.a as u128, 3, true, false);
        o.pad(self.n as usize);
        o.put(self.b as u128, 5, true, false);
        o.put(self.c as u128, 6, true, false);
        o.pad(self.n as usize);
        o.put(self.d as u128, 2, true, false);
    }
}
/// bytes from the middle of a byte
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct LngMid {
    n: u8,
    m: u8,
    #[deku(bits = 3, pad_bytes_after = "*n as usize")]
    a: u8,
    #[deku(pad_bytes_before = "*n as usize", bits = 5)]
    b: u8,
}
#[cfg(feature = "cfg_bits_any")]
impl Lng for LngMid {
    const BITS: bool = false;
    const LSB: bool = false;
    fn any(n: usize) -> Self {
        LngMid { n: n as u8, m: 0, a: sy(3) as u8, b: sy(5) as u8 }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let (n, m) = (c.u8()?, c.u8()?);
        let a = c.u(3, true, false)? as u8;
        c.pad(n as usize * 16)?;
        Ok(LngMid { n, m, a, b: c.u(5, true, false)? as u8 })
    }
    fn enc(&self, o: &mut Out<LNGCAP>) {
        o.u8(self.n);
        o.u8(self.m);
        o.put(self.a as u128, 3, true, false);
        o.pad(self.n as usize * 16);
        o.put(self.b as u128, 5, true, false);
    }
}
/// least significant bits first
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(bit_order = "lsb", endian = "little")]
pub struct LngLsb {
    n: u16,
    #[deku(bits = 3)]
    a: u8,
    #[deku(pad_bits_before = "*n as usize", bits = 5)]
    b: u8,
    #[deku(pad_bits_after = "*n as usize", bits = 6)]
    c: u8,
    #[deku(bits = 2)]
    d: u8,
}
#[cfg(feature = "cfg_bits_any")]
impl Lng for LngLsb {
    const BITS: bool = true;
    const LSB: bool = true;
    fn any(n: usize) -> Self {
        LngLsb { n: n as u16, a: sy(3) as u8, b: sy(5) as u8, c: sy(6) as u8, d: sy(2) as u8 }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u(16, false, true)? as u16;
        let a = c.u(3, false, true)? as u8;
        c.pad(n as usize)?;
        let b = c.u(5, false, true)? as u8;
        let x = c.u(6, false, true)? as u8;
        c.pad(n as usize)?;
        Ok(LngLsb { n, a, b, c: x, d: c.u(2, false, true)? as u8 })
    }
    fn enc(&self, o: &mut Out<LNGCAP>) {
        o.put(self.n as u128, 16, false, true);
        o.put(self.a as u128, 3, false, true);
        o.pad(self.n as usize);
        o.put(self.b as u128, 5, false, true);
        o.put(self.c as u128, 6, false, true);
        o.pad(self.n as usize);
        o.put(self.d as u128, 2, false, true);
    }
}

// ---------------------------------------------------------------- seeking after looking for the end
/// elements that move on, read to the end: what is seen of the next element is not read yet
macro_rules! trail { ($d:meta; $($n:ident $e:ident [$($a:tt)*] [$($l:tt)*] [$($f:tt)*] ($q:ident, $m:ident, $v:ident) $gap:expr, $back:expr;)*) => {$(
    #[$d]
    #[derive(PartialEq)]
    $($a)*
    pub struct $e {
        $q: u8,
        $($f)*
        $m: u8,
    }
    #[$d]
    #[derive(PartialEq)]
    pub struct $n {
        $($l)*
        $v: Vec<$e>,
    }
    impl Jump for $n {
        const IN: usize = 6;
        fn any() -> Self {
            let mut $v = Vec::new();
            for _ in 0..pick(0, 2) {
                let $q = u8_();
                let k = pick(0, 1) as u8;
                assume($q & 1 == k);
                $v.push($e { $q, $m: u8_() });
            }
            $n { $v }
        }
        fn part(d: &mut [u8]) {
            let mut i = 0;
            while i < d.len() {
                let k = pick(0, 1) as u8;
                assume(d[i] & 1 == k);
                i += 1;
            }
        }
        fn rd(i: &mut In) -> Result<Self, Not> {
            let mut $v = Vec::new();
            while i.pos < i.d.len() * 8 {
                i.seek(To::Cur($gap))?;
                let $q = i.u8()?;
                i.seek(To::Cur(($q & 1) as i128 - $back))?;
                $v.push($e { $q, $m: i.u8()? });
            }
            Ok($n { $v })
        }
        fn wr(&self, o: &mut Over) -> Result<(), Not> {
            for x in &self.$v {
                o.seek(To::Cur($gap))?;
                o.u8(x.$q)?;
                o.seek(To::Cur((x.$q & 1) as i128 - $back))?;
                o.u8(x.$m)?;
            }
            Ok(())
        }
    }
)*} }
#[cfg(feature = "cfg_alloc_any")]
trail! { derive(DekuRead, DekuWrite);
    TrailOn OnEl [#[deku(seek_from_current = "1")]] [#[deku(read_all)]] [#[deku(seek_from_current = "(*a & 1) as i64 - 0")]] (a, b, v) 1, 0;
    TrailStay StayEl [#[deku(seek_from_current = "0")]] [#[deku(read_all)]] [#[deku(seek_from_current = "(*a & 1) as i64 - 0")]] (a, b, v) 0, 0;
    TrailBack BackEl [#[deku(seek_from_current = "2")]] [#[deku(read_all)]] [#[deku(seek_from_current = "(*a & 1) as i64 - 1")]] (a, b, v) 2, 1;
}
#[cfg(feature = "cfg_alloc_any")]
each!("h_jump_", jump: TrailOn TrailStay TrailBack);
#[cfg(feature = "cfg_alloc_any")]
each!("h_plant_", plant: TrailOn TrailStay TrailBack);
/// the reader itself: look for the end or not, move, ask for the place, read on
#[export_name = "h_seek_reader"]
pub extern "C" fn seek_reader() {
    use deku::no_std_io::SeekFrom;
    let d: [u8; 6] = bytes();
    let n = pick(1, 6);
    let d = &d[..n];
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    let mut p = pick(0, n);
    for i in 0..p {
        match u8::from_reader_with_ctx(&mut r, ()) {
            Ok(v) => ck!(v == d[i], "a byte is read at its place"),
            Err(_) => fail!("a byte that is there is read"),
        }
    }
    let mut i = 0;
    while i < 2 {
        i += 1;
        if pick(0, 1) == 1 {
            ck!(r.end() == (p >= n), "the end is seen where the input ends");
            reach!("the end is looked for before moving");
        }
        let by = pick(0, 2 * n + 2) as i64 - n as i64 - 1;
        let (to, want) = match pick(0, 3) {
            0 => (SeekFrom::Start((by + n as i64 + 1) as u64), by + n as i64 + 1),
            1 => (SeekFrom::Current(by), p as i64 + by),
            2 => (SeekFrom::End(by), n as i64 + by),
            _ => (SeekFrom::Current(0), p as i64),
        };
        match r.seek(to) {
            Ok(q) => {
                ck!(want >= 0 && q == want as u64, "a move leads where it is stated to");
                p = q as usize;
            }
            Err(_) => {
                ck!(want < 0, "a possible move is done");
                return;
            }
        }
        let got = u8::from_reader_with_ctx(&mut r, ());
        if p < n {
            match got {
                Ok(v) => ck!(v == d[p], "what is read after a move lies there"),
                Err(_) => fail!("what is there is read after a move"),
            }
            p += 1;
        } else {
            ck!(got.is_err(), "nothing is read behind the end");
            return;
        }
    }
}

// ---------------------------------------------------------------- amounts that follow from the offset
#[cfg(feature = "cfg_bits_any")]
mod off {
use super::*;
macro_rules! off_bits { ($t:ident, $lsb:literal) => {
    impl Cat for $t {
        const LSB: bool = $lsb;
        const PADS: bool = true;
        const MAX: usize = 15;
        const MIN: usize = 0;
        fn gen() -> Self {
            let n = pick(0, 3) as u8;
            $t {
                n,
                v: if n & 1 == 1 { Some(sy(5) as u8) } else { None },
                w: if n & 2 == 2 { Some(u8_()) } else { None },
                a: sy(3) as u8, b: sy(4) as u8, e: sy(1) as u8, f: u8_(), g: sy(6) as u8, h: u8_(),
            }
        }
        fn shape(d: &mut [u8]) {
            // the first two bits decide
            split(d, 0, if $lsb { 3 } else { 0xc0 })
        }
        fn dec(c: &mut Cur) -> Result<Self, K> {
            let n = c.u(2, true, $lsb)? as u8;
            let v = if n & 1 == 1 { Some(c.u(5, true, $lsb)? as u8) } else { None };
            let w = if n & 2 == 2 { Some(c.u(8, true, $lsb)? as u8) } else { None };
            c.pad(c.pos & 7)?;
            let a = c.u(3, true, $lsb)? as u8;
            c.pad(c.pos % 5)?;
            c.pad((c.pos / 8 & 1) * 8)?;
            let b = c.u(4, true, $lsb)? as u8;
            c.pad(c.pos / 8 % 3 * 8)?;
            c.pad((c.pos / 8 & 3) + 8 * (c.pos & 1))?;
            let e = c.u(1, true, $lsb)? as u8;
            c.pad(c.pos / 8 % 7 + 8 * (c.pos & 1))?;
            let f = c.u(8, true, $lsb)? as u8;
            c.pad(c.pos & 3)?;
            let g = c.u(6, true, $lsb)? as u8;
            c.pad((c.pos & 1) * 8)?;
            Ok($t { n, v, w, a: a, b: b, e: e, f: f, g: g, h: c.u(8, true, $lsb)? as u8 })
        }
        fn enc(&self, o: &mut O) {
            o.put(self.n as u128, 2, true, $lsb);
            if let Some(v) = self.v { o.put(v as u128, 5, true, $lsb) }
            if let Some(v) = self.w { o.put(v as u128, 8, true, $lsb) }
            o.pad(o.pos & 7);
            o.put(self.a as u128, 3, true, $lsb);
            o.pad(o.pos % 5);
            o.pad((o.pos / 8 & 1) * 8);
            o.put(self.b as u128, 4, true, $lsb);
            o.pad(o.pos / 8 % 3 * 8);
            o.pad((o.pos / 8 & 3) + 8 * (o.pos & 1));
            o.put(self.e as u128, 1, true, $lsb);
            o.pad(o.pos / 8 % 7 + 8 * (o.pos & 1));
            o.put(self.f as u128, 8, true, $lsb);
            o.pad(o.pos & 3);
            o.put(self.g as u128, 6, true, $lsb);
            o.pad((o.pos & 1) * 8);
            o.put(self.h as u128, 8, true, $lsb);
        }
    }
} }

#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(bit_order = "msb")]
pub struct OffMsb {
    #[deku(bits = 2)]
    n: u8,
    #[deku(bits = 5, cond = "*n & 1 == 1")]
    v: Option<u8>,
    #[deku(cond = "*n & 2 == 2")]
    w: Option<u8>,
    #[deku(bits = 3, pad_bits_before = "deku::bit_offset & 7", pad_bits_after = "deku::bit_offset % 5")]
    a: u8,
    #[deku(bits = 4, pad_bytes_before = "deku::byte_offset & 1", pad_bytes_after = "deku::byte_offset % 3")]
    b: u8,
    #[deku(bits = 1, pad_bits_before = "deku::byte_offset & 3", pad_bytes_before = "deku::bit_offset & 1")]
    #[deku(pad_bits_after = "deku::byte_offset % 7", pad_bytes_after = "deku::bit_offset & 1")]
    e: u8,
    #[deku(pad_bits_after = "deku::bit_offset & 3")]
    f: u8,
    #[deku(bits = 6, pad_bytes_after = "deku::bit_offset & 1")]
    g: u8,
    h: u8,
}
off_bits!(OffMsb, false);

#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(bit_order = "lsb")]
pub struct OffLsb {
    #[deku(bits = 2)]
    n: u8,
    #[deku(bits = 5, cond = "*n & 1 == 1")]
    v: Option<u8>,
    #[deku(cond = "*n & 2 == 2")]
    w: Option<u8>,
    #[deku(bits = 3, pad_bits_before = "deku::bit_offset & 7", pad_bits_after = "deku::bit_offset % 5")]
    a: u8,
    #[deku(bits = 4, pad_bytes_before = "deku::byte_offset & 1", pad_bytes_after = "deku::byte_offset % 3")]
    b: u8,
    #[deku(bits = 1, pad_bits_before = "deku::byte_offset & 3", pad_bytes_before = "deku::bit_offset & 1")]
    #[deku(pad_bits_after = "deku::byte_offset % 7", pad_bytes_after = "deku::bit_offset & 1")]
    e: u8,
    #[deku(pad_bits_after = "deku::bit_offset & 3")]
    f: u8,
    #[deku(bits = 6, pad_bytes_after = "deku::bit_offset & 1")]
    g: u8,
    h: u8,
}
off_bits!(OffLsb, true);

each!("h_skip_", skip: OffMsb OffLsb);
each!("h_fill_", fill: OffMsb OffLsb);
}
/// without bits
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct OffBytes {
    n: u8,
    #[deku(cond = "*n & 1 == 1")]
    v: Option<u8>,
    #[deku(pad_bytes_before = "deku::byte_offset & 1", pad_bytes_after = "deku::byte_offset % 3")]
    a: u8,
    #[deku(pad_bytes_before = "deku::bit_offset / 8 & 3", pad_bytes_after = "deku::bit_offset / 8 & 1")]
    b: u8,
    #[deku(pad_bytes_after = "deku::byte_offset & 3")]
    e: u8,
    #[deku(pad_bytes_after = "deku::bit_offset / 16 % 3")]
    f: u8,
    g: u8,
}
impl Cat for OffBytes {
    const PADS: bool = true;
    const MAX: usize = 20;
    const MIN: usize = 0;
    fn gen() -> Self {
        let n = u8_();
        OffBytes { n, v: if n & 1 == 1 { Some(u8_()) } else { None }, a: u8_(), b: u8_(), e: u8_(), f: u8_(), g: u8_() }
    }
    fn shape(d: &mut [u8]) {
        split(d, 0, 1)
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        let v = if n & 1 == 1 { Some(c.u8()?) } else { None };
        c.pad((c.pos / 8 & 1) * 8)?;
        let a = c.u8()?;
        c.pad(c.pos / 8 % 3 * 8)?;
        c.pad((c.pos / 8 & 3) * 8)?;
        let b = c.u8()?;
        c.pad((c.pos / 8 & 1) * 8)?;
        let e = c.u8()?;
        c.pad((c.pos / 8 & 3) * 8)?;
        let f = c.u8()?;
        c.pad(c.pos / 16 % 3 * 8)?;
        Ok(OffBytes { n, v, a, b, e, f, g: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.n);
        if let Some(v) = self.v { o.u8(v) }
        o.pad((o.pos / 8 & 1) * 8);
        o.u8(self.a);
        o.pad(o.pos / 8 % 3 * 8);
        o.pad((o.pos / 8 & 3) * 8);
        o.u8(self.b);
        o.pad((o.pos / 8 & 1) * 8);
        o.u8(self.e);
        o.pad((o.pos / 8 & 3) * 8);
        o.u8(self.f);
        o.pad(o.pos / 16 % 3 * 8);
        o.u8(self.g);
    }
}
each!("h_skip_", skip: OffBytes);
each!("h_fill_", fill: OffBytes);
// where to seek follows from the offset
macro_rules! off_seek { ($d:meta, $q:ident, $x:meta; $($n:ident [$($a:tt)*] $to:ident $k:expr;)*) => {$(
    #[$d]
    #[derive(PartialEq)]
    pub struct $n {
        $q: u8,
        #[$x]
        x: Option<u8>,
        $($a)*
        b: u8,
        #[deku(endian = "big")]
        c: u16,
    }
    impl Jump for $n {
        const IN: usize = 8;
        fn any() -> Self {
            let a = u8_();
            $n { $q: a, x: if a & 1 == 1 { Some(u8_()) } else { None }, b: u8_(), c: u16_() }
        }
        fn part(d: &mut [u8]) {
            split(d, 0, 1)
        }
        fn rd(i: &mut In) -> Result<Self, Not> {
            let a = i.u8()?;
            let x = if a & 1 == 1 { Some(i.u8()?) } else { None };
            let k: fn(usize) -> i128 = $k;
            i.seek(To::$to(k(i.pos)))?;
            Ok($n { $q: a, x, b: i.u8()?, c: i.u16()? })
        }
        fn wr(&self, o: &mut Over) -> Result<(), Not> {
            o.u8(self.$q)?;
            if let Some(x) = self.x { o.u8(x)? }
            let k: fn(usize) -> i128 = $k;
            o.seek(To::$to(k(o.pos)))?;
            o.u8(self.b)?;
            o.u16(self.c)
        }
    }
)*} }
off_seek! {derive(DekuRead, DekuWrite), a, deku(cond = "*a & 1 == 1");
    OffStart [#[deku(seek_from_start = "deku::byte_offset * 2")]] Start |p| p as i128 / 8 * 2;
    OffStartBit [#[deku(seek_from_start = "deku::bit_offset / 5")]] Start |p| p as i128 / 5;
    OffCur [#[deku(seek_from_current = "1 - deku::byte_offset as i64")]] Cur |p| 1 - p as i128 / 8;
    OffCurBit [#[deku(seek_from_current = "(deku::bit_offset / 8) as i8 - 3")]] Cur |p| p as i128 / 8 - 3;
    OffEnd [#[deku(seek_from_end = "0 - deku::byte_offset as i64")]] End |p| -(p as i128 / 8);
    OffEndBit [#[deku(seek_from_end = "1i16 - (deku::bit_offset / 8) as i16")]] End |p| 1 - p as i128 / 8;
}
each!("h_jump_", jump: OffStart OffStartBit OffCur OffCurBit OffEnd OffEndBit);
each!("h_plant_", plant: OffStart OffStartBit OffCur OffCurBit OffEnd OffEndBit);
