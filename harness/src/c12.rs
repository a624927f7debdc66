//! C12: invalid content is rejected and valid content accepted.
use crate::num::{endian, order};
use crate::ops::*;
use crate::*;
use core::num::{NonZeroI128, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI8, NonZeroIsize};
use core::num::{NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8, NonZeroUsize};

fn read<T: Cat>() {
    let k = offset();
    let s = stream::<T>(k, 0);
    let d = &s.d[..s.n];
    if s.n * 8 < k {
        return;
    }
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, T::LSB).is_err() {
        return;
    }
    let got = T::from_reader_with_ctx(&mut r, ());
    let mut c = Cur::at(d, k);
    match (got, T::dec(&mut c)) {
        (Ok(g), Ok(w)) => {
            reach!("valid content");
            obs(r.bits_read as u64);
            ck!(g == w && r.bits_read == c.pos, "valid content is read as it is");
        }
        (Err(e), Err(w)) => {
            match w {
                K::Assert => reach!("an assertion does not hold"),
                K::Parse => reach!("content that is not valid"),
                K::Inc => reach!("content that is cut short"),
            }
            ck!(same_kind(&e, w), "the error is the kind of the constraint that is broken");
        }
        (Ok(_), Err(_)) => fail!("invalid content is refused"),
        (Err(_), Ok(_)) => fail!("valid content is accepted"),
    }
}
each!("h_read_", read: NonZero Asserts Magic ValBits Strs MagicEnum AssertEnum AssertVec AssertBits AssertMap MagicLsb AssertFns Guard);

/// values of which some are not valid
trait Loose: Cat {
    fn loose() -> Self;
    fn valid(&self) -> bool;
}
fn write<T: Loose>() {
    let v = T::loose();
    let k = offset();
    let x = if k == 0 { 0 } else { u8_() & (0xff >> (8 - k)) };
    let mut s = Sink::<CAP>::new();
    let mut w = Writer::new(&mut s);
    let got = put(&mut w, x, k, T::LSB).and_then(|_| v.to_writer(&mut w, ())).and_then(|_| w.finalize());
    match got {
        Ok(()) => {
            reach!("a valid value is written");
            let mut o = O::new();
            o.put(x as u128, k, true, T::LSB);
            v.enc(&mut o);
            obs(s.len as u64);
            ck!(v.valid(), "a value that breaks an assertion is not written");
            ck!(s.len == o.bytes() && s.d == o.d, "a valid value is written as it is");
        }
        Err(e) => {
            reach!("an invalid value is not written");
            ck!(!v.valid(), "a valid value is not refused");
            ck!(kind(&e) == E::Assert, "a value that breaks an assertion is an assertion error");
        }
    }
}
each!("h_write_", write: Asserts ValBits AssertEnum AssertVec AssertBits AssertFns Guard);
impl Loose for Asserts {
    fn loose() -> Self {
        let o = bool_();
        Asserts { a: u8_(), b: u8_(), c: u8_(), e: [u8_(), u8_()], f: if o { Some(u8_()) } else { None } }
    }
    fn valid(&self) -> bool {
        self.b > self.a
            && self.b - self.a < 0x40
            && self.c == self.a.wrapping_add(self.b)
            && self.e[0] <= self.e[1]
            && !matches!(self.f, Some(x) if x >= 100)
    }
}
impl Loose for ValBits {
    fn loose() -> Self {
        let mut v = ValBits::gen();
        v.e = u8_();
        v.f = sy(4) as u8;
        v
    }
    fn valid(&self) -> bool {
        self.e == 0xa5 && self.f != 15
    }
}
/// magic in front of an enum
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(magic = b"\x00deku\xff", id_type = "u8")]
pub enum MagicEnum {
    #[deku(id = 0)]
    A,
    #[deku(id = 1)]
    B(#[deku(magic = b"z")] u8, bool),
}
impl Cat for MagicEnum {
    const MAX: usize = 10;
    const MIN: usize = 0;
    fn gen() -> Self {
        if pick(0, 1) == 0 { MagicEnum::A } else { MagicEnum::B(u8_(), bool_()) }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        for m in *b"\x00deku\xff" {
            if c.u8()? != m {
                return Err(K::Parse);
            }
        }
        Ok(match c.u8()? {
            0 => MagicEnum::A,
            1 => {
                if c.u8()? != b'z' {
                    return Err(K::Parse);
                }
                let a = c.u8()?;
                match c.u8()? {
                    0 => MagicEnum::B(a, false),
                    1 => MagicEnum::B(a, true),
                    _ => return Err(K::Parse),
                }
            }
            _ => return Err(K::Parse),
        })
    }
    fn enc(&self, o: &mut O) {
        for m in *b"\x00deku\xff" {
            o.u8(m);
        }
        match self {
            MagicEnum::A => o.u8(0),
            MagicEnum::B(a, b) => {
                o.u8(1);
                o.u8(b'z');
                o.u8(*a);
                o.u8(*b as u8);
            }
        }
    }
}
/// conditions on the fields of variants
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "u8", endian = "big")]
pub enum AssertEnum {
    #[deku(id = 1)]
    A(#[deku(assert = "*field_0 % 3 == 1")] u16),
    #[deku(id = 2)]
    B {
        x: i8,
        #[deku(assert_eq = "-1", cond = "*x < 0")]
        y: i16,
        #[deku(assert = "*x as i16 + *z as i16 != 7")]
        z: u8,
    },
    #[deku(id_pat = "_")]
    C {
        id: u8,
        #[deku(assert = "*w != *id")]
        w: u8,
    },
}
impl Cat for AssertEnum {
    const MAX: usize = 6;
    const MIN: usize = 0;
    fn gen() -> Self {
        let v = Self::loose();
        assume(v.valid());
        v
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let v = match c.u8()? {
            1 => AssertEnum::A(c.be16()?),
            2 => {
                let x = c.u8()? as i8;
                let y = if x < 0 { c.be16()? as i16 } else { 0 };
                if y != -1 {
                    return Err(K::Assert);
                }
                AssertEnum::B { x, y, z: c.u8()? }
            }
            id => AssertEnum::C { id, w: c.u8()? },
        };
        if v.valid() { Ok(v) } else { Err(K::Assert) }
    }
    fn enc(&self, o: &mut O) {
        match self {
            AssertEnum::A(x) => {
                o.u8(1);
                o.be16(*x);
            }
            AssertEnum::B { x, y, z } => {
                o.u8(2);
                o.u8(*x as u8);
                o.be16(*y as u16);
                o.u8(*z);
            }
            AssertEnum::C { id, w } => {
                o.u8(*id);
                o.u8(*w);
            }
        }
    }
}
impl Loose for AssertEnum {
    fn loose() -> Self {
        match pick(0, 2) {
            0 => AssertEnum::A(u16_()),
            1 => AssertEnum::B { x: i8_(), y: i16_(), z: u8_() },
            _ => {
                let id = u8_();
                assume(id != 1 && id != 2);
                AssertEnum::C { id, w: u8_() }
            }
        }
    }
    fn valid(&self) -> bool {
        match self {
            AssertEnum::A(x) => x % 3 == 1,
            AssertEnum::B { x, y, z } => *y == -1 && *x as i16 + *z as i16 != 7,
            AssertEnum::C { id, w } => w != id,
        }
    }
}
/// conditions that depend on a context, on every element
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct AssertVec {
    n: u8,
    #[deku(count = "*n & 3", ctx = "*n", assert = "v.len() < 3")]
    v: Vec<Elem>,
    #[deku(assert_eq = "v.len() as u8")]
    l: u8,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(ctx = "n: u8")]
pub struct Elem {
    #[deku(assert = "*a >= n")]
    a: u8,
}
impl Cat for AssertVec {
    const MAX: usize = 5;
    const MIN: usize = 0;
    fn gen() -> Self {
        let v = Self::loose();
        assume(v.valid());
        v
    }
    fn shape(d: &mut [u8]) {
        split(d, 0, 3)
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        let v = some(c, n as usize & 3, |c| {
            let a = c.u8()?;
            if a >= n { Ok(Elem { a }) } else { Err(K::Assert) }
        })?;
        if v.len() >= 3 {
            return Err(K::Assert);
        }
        let l = c.u8()?;
        if l as usize != v.len() {
            return Err(K::Assert);
        }
        Ok(AssertVec { n, v, l })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.n);
        for x in &self.v {
            o.u8(x.a);
        }
        o.u8(self.l);
    }
}
impl Loose for AssertVec {
    fn loose() -> Self {
        let n = (u8_() & 0xfc) | pick(0, 3) as u8;
        AssertVec { n, v: many(n as usize & 3, || Elem { a: u8_() }), l: u8_() }
    }
    fn valid(&self) -> bool {
        self.v.len() < 3 && self.l as usize == self.v.len() && self.v.iter().all(|e| e.a >= self.n)
    }
}
/// conditions on bit fields, least significant bits first
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(bit_order = "lsb", endian = "little")]
pub struct AssertBits {
    #[deku(bits = 3)]
    a: u8,
    #[deku(bits = 10, assert = "*b > 3 * *a as u16")]
    b: u16,
    #[deku(bits = 1)]
    c: bool,
    #[deku(bits = 5, assert_eq = "-(*a as i8)")]
    d: i8,
    #[deku(bits = 4)]
    e: bool,
    f: bool,
}
impl Cat for AssertBits {
    const LSB: bool = true;
    const MAX: usize = 4;
    const MIN: usize = 0;
    fn gen() -> Self {
        let v = Self::loose();
        assume(v.valid());
        v
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let flag = |v: u128| match v {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(K::Parse),
        };
        let a = c.u(3, false, true)? as u8;
        let b = c.u(10, false, true)? as u16;
        if b <= 3 * a as u16 {
            return Err(K::Assert);
        }
        let cc = flag(c.u(1, false, true)?)?;
        let d = c.i(5, false, true)? as i8;
        if d != -(a as i8) {
            return Err(K::Assert);
        }
        let e = flag(c.u(4, false, true)?)?;
        Ok(AssertBits { a, b, c: cc, d, e, f: flag(c.u(8, false, true)?)? })
    }
    fn enc(&self, o: &mut O) {
        o.put(self.a as u128, 3, false, true);
        o.put(self.b as u128, 10, false, true);
        o.put(self.c as u128, 1, false, true);
        o.put(two(self.d as i128, 5), 5, false, true);
        o.put(self.e as u128, 4, false, true);
        o.put(self.f as u128, 8, false, true);
    }
}
impl Loose for AssertBits {
    fn loose() -> Self {
        let d = sext(sy(5), 5) as i8;
        AssertBits { a: sy(3) as u8, b: sy(10) as u16, c: bool_(), d, e: bool_(), f: bool_() }
    }
    fn valid(&self) -> bool {
        self.b > 3 * self.a as u16 && self.d == -(self.a as i8)
    }
}
/// a condition on what a value is mapped to, and one that is only computed
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct AssertMap {
    #[deku(
        map = "|x: u8| -> Result<_, DekuError> { if x == 0xee { Err(DekuError::Parse(\"\".into())) } else { Ok(!x) } }",
        assert = "*a > 0x10",
        writer = "(!*a).to_writer(deku::writer, ())"
    )]
    a: u8,
    #[deku(skip, default = "*a / 2", assert = "*b != 0x40")]
    b: u8,
    #[deku(assert = "*c >= *b")]
    c: u8,
}
impl Cat for AssertMap {
    const MAX: usize = 2;
    const MIN: usize = 0;
    fn gen() -> Self {
        let a = u8_();
        assume(a > 0x10 && a / 2 != 0x40 && a != !0xee);
        let c = u8_();
        assume(c >= a / 2);
        AssertMap { a, b: a / 2, c }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u8()?;
        if a == 0xee {
            return Err(K::Parse);
        }
        let a = !a;
        if a <= 0x10 {
            return Err(K::Assert);
        }
        let b = a / 2;
        if b == 0x40 {
            return Err(K::Assert);
        }
        let x = c.u8()?;
        if x < b {
            return Err(K::Assert);
        }
        Ok(AssertMap { a, b, c: x })
    }
    fn enc(&self, o: &mut O) {
        o.u8(!self.a);
        o.u8(self.c);
    }
}
/// magic where the least significant bits come first
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(bit_order = "lsb", magic = b"ab")]
pub struct MagicLsb {
    #[deku(bits = 3)]
    a: u8,
    #[deku(bits = 5)]
    b: u8,
    #[deku(magic = b"\x01")]
    c: u8,
}
impl Cat for MagicLsb {
    const LSB: bool = false; // only tried at the start of a byte
    const ALL: bool = true;
    const MAX: usize = 5;
    const MIN: usize = 0;
    fn gen() -> Self {
        MagicLsb { a: sy(3) as u8, b: sy(5) as u8, c: u8_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        if c.pos != 0 {
            assume(false);
        }
        for m in *b"ab" {
            if c.u8()? != m {
                return Err(K::Parse);
            }
        }
        let a = c.u(3, false, true)? as u8;
        let b = c.u(5, false, true)? as u8;
        if c.u8()? != 1 {
            return Err(K::Parse);
        }
        Ok(MagicLsb { a, b, c: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(b'a');
        o.u8(b'b');
        o.put(self.a as u128, 3, false, true);
        o.put(self.b as u128, 5, false, true);
        o.u8(1);
        o.u8(self.c);
    }
}

/// numbers that are not zero, in every context
macro_rules! nonzero { ($($h:literal $t:ty, $p:ty;)*) => {$(
    const _: () = {
        #[export_name = $h]
        pub extern "C" fn h() {
            const B: usize = core::mem::size_of::<$p>() * 8;
            const SIGNED: bool = <$p>::MIN != 0;
            let d: [u8; B / 8 + 1] = bytes();
            let k = offset();
            let be = pick(0, 1) == 1;
            let f = pick(0, 5);
            let lsb = (f == 3 || f == 5) && pick(0, 1) == 1;
            let n = match f {
                2 | 3 => [1, 3, B / 2 + 1, B - 1, B][pick(0, 4)],
                4 | 5 => if B == 8 { 8 } else { 8 * pick(1, B / 8) },
                _ => B,
            };
            let mut src = Src::new(&d);
            let mut r = Reader::new(&mut src);
            if take(&mut r, k, lsb).is_err() {
                return;
            }
            let (e, o) = (endian(be), order(lsb));
            let got = match f {
                0 => <$t>::from_reader_with_ctx(&mut r, ()),
                1 => <$t>::from_reader_with_ctx(&mut r, e),
                2 => <$t>::from_reader_with_ctx(&mut r, (e, BitSize(n))),
                3 => <$t>::from_reader_with_ctx(&mut r, (e, BitSize(n), o)),
                4 => <$t>::from_reader_with_ctx(&mut r, (e, ByteSize(n / 8))),
                _ => <$t>::from_reader_with_ctx(&mut r, (e, ByteSize(n / 8), o)),
            };
            let v = dec(&d, k, n, be && f != 0, lsb);
            let v = if SIGNED { sext(v, n) as $p } else { v as $p };
            match got {
                Ok(x) => {
                    reach!("a number that is not zero");
                    ck!(v != 0 && x.get() == v, "a number that is not zero is read as it is");
                    ck!(r.bits_read == k + n, "a number that is not zero takes exactly its bits");
                }
                Err(e) => {
                    reach!("a zero");
                    ck!(v == 0 && kind(&e) == E::Parse, "only zero is refused where a number must not be zero");
                }
            }
        }
    };
)*} }
nonzero! {
    "h_nz_u8" NonZeroU8, u8; "h_nz_u16" NonZeroU16, u16; "h_nz_u32" NonZeroU32, u32; "h_nz_u64" NonZeroU64, u64;
    "h_nz_u128" NonZeroU128, u128; "h_nz_usize" NonZeroUsize, usize;
    "h_nz_i8" NonZeroI8, i8; "h_nz_i16" NonZeroI16, i16; "h_nz_i32" NonZeroI32, i32; "h_nz_i64" NonZeroI64, i64;
    "h_nz_i128" NonZeroI128, i128; "h_nz_isize" NonZeroIsize, isize;
}
/// flags, in every context
#[export_name = "h_bool"]
pub extern "C" fn flags() {
    let d: [u8; 2] = bytes();
    let k = offset();
    let f = pick(0, 4);
    let lsb = f >= 3 && pick(0, 1) == 1;
    let n = if f == 1 || f == 3 { pick(1, 8) } else { 8 };
    let mut src = Src::new(&d);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, lsb).is_err() {
        return;
    }
    let got = match f {
        0 => bool::from_reader_with_ctx(&mut r, ()),
        1 => bool::from_reader_with_ctx(&mut r, BitSize(n)),
        2 => bool::from_reader_with_ctx(&mut r, Endian::Little),
        3 => bool::from_reader_with_ctx(&mut r, (BitSize(n), order(lsb))),
        _ => bool::from_reader_with_ctx(&mut r, order(lsb)),
    };
    let v = dec(&d, k, n, true, lsb);
    match got {
        Ok(x) => ck!(v < 2 && x == (v == 1), "a flag is zero or one"),
        Err(e) => ck!(v > 1 && kind(&e) == E::Parse, "only what is neither zero nor one is refused as a flag"),
    }
    ck!(r.bits_read == k + n, "a flag takes exactly its bits");
}
/// strings of C, with and without a stated length
#[export_name = "h_cstring"]
pub extern "C" fn cstrings() {
    use std::ffi::CString;
    let d: [u8; 5] = bytes();
    let k = offset();
    let n = pick((k > 0) as usize, 5);
    let d = &d[..n];
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, false).is_err() {
        return;
    }
    let mut c = Cur::at(d, k);
    let m = pick(0, 6);
    let got = if m == 0 {
        CString::from_reader_with_ctx(&mut r, ())
    } else {
        CString::from_reader_with_ctx(&mut r, ByteSize(m - 1))
    };
    let mut v = Vec::new();
    let want = if m == 0 {
        loop {
            match c.u8() {
                Err(_) => break Err(K::Inc),
                Ok(b) => v.push(b),
            }
            if v.last() == Some(&0) {
                break Ok(());
            }
        }
    } else {
        let mut w = Ok(());
        for _ in 1..m {
            match c.u8() {
                Err(_) => {
                    w = Err(K::Inc);
                    break;
                }
                Ok(b) => v.push(b),
            }
        }
        let nul = v.iter().position(|b| *b == 0);
        if w.is_ok() && nul != (m - 1).checked_sub(1) {
            w = Err(K::Parse);
        }
        if m == 1 {
            w = Err(K::Parse);
        }
        w
    };
    match (got, want) {
        (Ok(s), Ok(())) => {
            reach!("a well formed string");
            ck!(s.as_bytes_with_nul() == &v[..], "a string is read as it is");
            ck!(r.bits_read == c.pos, "a string takes its characters and its end");
        }
        (Err(e), Err(w)) => {
            reach!("a string that is not well formed");
            ck!(same_kind(&e, w), "a string without its end or with one inside is refused");
        }
        (Ok(_), Err(_)) => fail!("a string that is not well formed is refused"),
        (Err(_), Ok(_)) => fail!("a string that is well formed is accepted"),
    }
}

/// assertions that what follows relies on
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct Guard {
    #[deku(assert = "*n <= 3", pad_bytes_after = "(3 - *n) as usize")]
    n: u8,
    #[deku(assert = "*m > 0", pad_bytes_before = "(*n / 2) as usize")]
    m: u8,
    #[deku(pad_bytes_before = "(6 / *m / 3) as usize")]
    c: u8,
}
impl Cat for Guard {
    const MAX: usize = 9;
    const MIN: usize = 0;
    fn gen() -> Self {
        Guard { n: pick(0, 3) as u8, m: pick(1, 7) as u8, c: u8_() }
    }
    fn shape(d: &mut [u8]) {
        if d.len() == 0 {
            return;
        }
        let n = pick(0, 4) as u8;
        if n == 4 {
            assume(d[0] > 3);
            return;
        }
        assume(d[0] == n);
        d[0] = n;
        let i = 1 + (3 - n + n / 2) as usize;
        if i < d.len() {
            let m = pick(0, 7) as u8;
            assume(d[i] == m);
            d[i] = m;
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        if n > 3 {
            return Err(K::Assert);
        }
        c.pad((3 - n) as usize * 8)?;
        c.pad((n / 2) as usize * 8)?;
        let m = c.u8()?;
        if m == 0 {
            return Err(K::Assert);
        }
        c.pad((6 / m / 3) as usize * 8)?;
        Ok(Guard { n, m, c: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.n);
        o.pad((3 - self.n) as usize * 8);
        o.pad((self.n / 2) as usize * 8);
        o.u8(self.m);
        o.pad((6 / self.m / 3) as usize * 8);
        o.u8(self.c);
    }
}
impl Loose for Guard {
    fn loose() -> Self {
        Guard { n: pick(0, 5) as u8, m: pick(0, 7) as u8, c: u8_() }
    }
    fn valid(&self) -> bool {
        self.n <= 3 && self.m > 0
    }
}
/// long strings of C, with the end anywhere
#[export_name = "h_cstring_long"]
pub extern "C" fn cstring_long() {
    use std::ffi::CString;
    const CAP: usize = 520;
    let mut d: [u8; CAP] = bytes();
    let z = [16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 519, 520][pick(0, 18)];
    let mut i = 0;
    while i < CAP {
        if i == z {
            assume(d[i] == 0);
            d[i] = 0;
        } else if i < z {
            assume(d[i] != 0);
        }
        i += 1;
    }
    let mut src = Src::new(&d);
    let mut r = Reader::new(&mut src);
    let by = pick(0, 3);
    let got = match by {
        0 => CString::from_reader_with_ctx(&mut r, ()),
        n => CString::from_reader_with_ctx(&mut r, ByteSize(z + n - 1)),
    };
    match got {
        Ok(s) => {
            reach!("a long string");
            ck!(z < CAP && (by == 0 || by == 2), "a long string ends where it is stated to end");
            ck!(s.as_bytes() == &d[..z], "a long string is read as it is");
            ck!(r.bits_read == z * 8 + 8, "a string takes its characters and its end");
        }
        Err(e) => {
            reach!("a long string that is not well formed");
            ck!(z == CAP || by == 1 || by == 3, "a long string that is well formed is accepted");
            let inc = z + match by { 0 => 1, n => n - 1 } > CAP;
            ck!(kind(&e) == if inc { E::Inc } else { E::Parse }, "a long string without its end or with one inside is refused");
        }
    }
}
/// assertions on fields that are read and written by functions
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct AssertFns {
    #[deku(reader = "u8::from_reader_with_ctx(deku::reader, ()).map(|x| x ^ 1)", writer = "(a ^ 1).to_writer(deku::writer, ())", assert = "*a > 9")]
    a: u8,
    #[deku(writer = "b.to_writer(deku::writer, ())", assert_eq = "a.wrapping_add(1)")]
    b: u8,
    #[deku(map = "|x: u8| Ok::<_, DekuError>(x >> 1)", writer = "(c << 1).to_writer(deku::writer, ())", assert = "*c != *b")]
    c: u8,
    #[deku(cond = "*c > 20", writer = "d.to_writer(deku::writer, ())", assert = "*d != Some(0)")]
    d: Option<u8>,
    #[deku(reader = "bool::from_reader_with_ctx(deku::reader, ())", assert_eq = "d.is_some()")]
    e: bool,
}
impl Cat for AssertFns {
    const MAX: usize = 5;
    const MIN: usize = 0;
    fn gen() -> Self {
        AssertFns { a: 20, b: 21, c: 22, d: Some(1), e: true }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let a = c.u8()? ^ 1;
        if a <= 9 {
            return Err(K::Assert);
        }
        let b = c.u8()?;
        if b != a.wrapping_add(1) {
            return Err(K::Assert);
        }
        let x = c.u8()? >> 1;
        if x == b {
            return Err(K::Assert);
        }
        let d = if x > 20 { Some(c.u8()?) } else { None };
        if d == Some(0) {
            return Err(K::Assert);
        }
        let e = match c.u8()? {
            0 => false,
            1 => true,
            _ => return Err(K::Parse),
        };
        if e != d.is_some() {
            return Err(K::Assert);
        }
        Ok(AssertFns { a, b, c: x, d, e })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.a ^ 1);
        o.u8(self.b);
        o.u8(self.c << 1);
        if let Some(d) = self.d {
            o.u8(d);
        }
        o.u8(self.e as u8);
    }
}
impl Loose for AssertFns {
    fn loose() -> Self {
        let o = bool_();
        AssertFns { a: u8_(), b: u8_(), c: u8_() & 0x7f, d: if o { Some(u8_()) } else { None }, e: bool_() }
    }
    fn valid(&self) -> bool {
        self.a > 9 && self.b == self.a.wrapping_add(1) && self.c != self.b && self.d != Some(0) && self.e == self.d.is_some()
    }
}

// ---------------------------------------------------------------- a long magic
macro_rules! long_magic { ($($n:ident $m:literal;)*) => {$(
    #[derive(DekuRead, DekuWrite, PartialEq)]
    #[deku(magic = $m)]
    pub struct $n {
        a: u8,
    }
    const _: () = {
        #[export_name = concat!("h_magic_", stringify!($n))]
        pub extern "C" fn h() {
            const M: &[u8] = $m;
            let mut d: [u8; 300] = bytes();
            // one byte of the magic is arbitrary
            let i = crate::cat::some_place(M.len());
            for j in 0..M.len() {
                if j != i {
                    d[j] = M[j];
                }
            }
            match $n::from_bytes((&d[..M.len() + 1], 0)) {
                Ok(((rest, _), v)) => {
                    reach!("a long magic");
                    ck!(d[i] == M[i], "a long magic is looked at to its end");
                    ck!(v.a == d[M.len()] && rest.is_empty(), "the field is behind a long magic");
                    ck!(matches!(v.to_bytes(), Ok(b) if b[..] == d[..M.len() + 1]), "a long magic is written");
                }
                Err(e) => {
                    reach!("a long magic that is wrong");
                    ck!(d[i] != M[i] && kind(&e) == E::Parse, "a long magic that is right is accepted");
                }
            }
        }
    };
)*} }
long_magic! {
    Magic17 b"0123456789abcdefg";
    Magic65 b"0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef!";
    Magic257 b"0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef!";
}
