//! C16: the declared static size is the size actually serialized.
use crate::ops::*;
use crate::*;

/// a type with a static size
trait Stat: Sized + DekuSize + PartialEq {
    /// what it should be, in bits
    const WANT: usize;
    const LSB: bool = false;
    fn any() -> Self;
    /// bits of this value
    fn bits(&self) -> usize {
        Self::WANT
    }
    fn rd<R: Read + Seek>(r: &mut Reader<R>) -> Result<Self, DekuError>;
    fn wr<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError>;
    /// (for speed only)
    fn part(_: &mut [u8]) {}
}
fn one<W: Write + Seek>(w: &mut Writer<W>, lsb: bool) -> Result<(), DekuError> {
    #[cfg(feature = "cfg_bits_any")]
    return put(w, 1, 1, lsb);
    #[cfg(not(feature = "cfg_bits_any"))]
    return 0x80u8.to_writer(w, ());
}
/// what is written in front of a single one bit
fn out<T: Stat>() {
    let k = offset();
    let v = T::any();
    let mut s = Sink::<CAP>::new();
    let mut w = Writer::new(&mut s);
    if put(&mut w, 0, k, T::LSB).and_then(|_| v.wr(&mut w)).and_then(|_| one(&mut w, T::LSB)).and_then(|_| w.finalize()).is_err() {
        fail!("a value is written");
        return;
    }
    // the last bit that is set
    let n = s.len;
    if n == 0 {
        fail!("something is written");
        return;
    }
    let last = s.d[n - 1];
    let mut i = 0;
    while i < 8 && bit(&[last], 7 - i, T::LSB) == 0 {
        i += 1;
    }
    let bits = n * 8 - i - 1 - k;
    obs(bits as u64);
    ck!(T::SIZE_BITS == T::WANT, "the size is that of the largest value");
    ck!(bits == v.bits(), "a value is written in as many bits as its parts take");
    ck!(bits <= T::SIZE_BITS, "no value exceeds the size");
    ck!(
        T::SIZE_BYTES == if T::WANT % 8 == 0 { Some(T::WANT / 8) } else { None },
        "the size in bytes is given exactly when it is a whole number"
    );
    if bits == T::SIZE_BITS {
        reach!("a value of the full size");
    }
}
/// what is consumed
fn eat<T: Stat>() {
    let k = offset();
    let n = (T::WANT + k).div_ceil(8);
    let mut d: [u8; CAP] = bytes();
    if k == 0 {
        T::part(&mut d[..n]);
    }
    let d = &d[..n];
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, T::LSB).is_err() {
        fail!("the bits before a value are there");
        return;
    }
    match T::rd(&mut r) {
        Ok(v) => {
            reach!("a value is read from a static size");
            obs(r.bits_read as u64);
            ck!(r.bits_read - k == v.bits(), "a value is read from as many bits as its parts take");
            ck!(r.bits_read - k <= T::SIZE_BITS, "no more than the size is consumed");
        }
        Err(e) => ck!(kind(&e) != E::Inc, "the size is enough to read a value"),
    }
}
macro_rules! derived { ($($(#[$c:meta])* $t:ty, $n:literal, $want:expr $(, $bits:expr)?;)*) => {$(
    $(#[$c])*
    impl Stat for $t {
        const WANT: usize = $want;
        const LSB: bool = <$t as Cat>::LSB;
        fn any() -> Self { <$t as Cat>::gen() }
        $(fn bits(&self) -> usize { let f: fn(&$t) -> usize = $bits; f(self) })?
        fn rd<R: Read + Seek>(r: &mut Reader<R>) -> Result<Self, DekuError> { Self::from_reader_with_ctx(r, ()) }
        fn wr<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> { self.to_writer(w, ()) }
        fn part(d: &mut [u8]) { <$t as Cat>::shape(d) }
    }
    $(#[$c])*
    both!($t, $n);
)*} }
macro_rules! both { ($t:ty, $n:literal) => {
    const _: () = {
        #[export_name = concat!("h_out_", $n)]
        pub extern "C" fn o() { out::<$t>() }
        #[export_name = concat!("h_eat_", $n)]
        pub extern "C" fn e() { eat::<$t>() }
    };
} }
derived! {
    Ends, "Ends", 96;
    PadBytes, "PadBytes", 14 * 8;
    Id8, "Id8", 32, |v| match v { Id8::A(_) => 16, Id8::C => 8, _ => 32 };
    IdBytes, "IdBytes", 56, |v| match v { IdBytes::A(_) => 40, IdBytes::B(..) => 56, IdBytes::C(_) => 32 };
    IdNeg, "IdNeg", 32, |v| match v { IdNeg::A(_) => 24, IdNeg::B => 16, IdNeg::C(_) => 32 };
    #[cfg(feature = "cfg_bits_any")] IdNib, "IdNib", 16, |v| match v { IdNib::C => 4, IdNib::D(..) => 6, _ => 16 };
    #[cfg(feature = "cfg_bits_any")] Bits, "Bits", 3 + 1 + 12 + 5 + 11 + 16;
    #[cfg(feature = "cfg_bits_any")] BitsLe, "BitsLe", 3 + 13 + 16 + 20 + 9;
    #[cfg(feature = "cfg_bits_any")] LsbLe, "LsbLe", 4 + 12 + 8 + 3 + 16 + 5;
    #[cfg(feature = "cfg_bits_any")] LsbBe, "LsbBe", 13 + 3 + 16 + 6 + 24;
    #[cfg(feature = "cfg_bits_any")] PadBits, "PadBits", 3 + 2 + 12 + 16 + 9 + 1 + 19 + 8 + 4 + 19;
}
/// types of this property only: no byte order is stated but that of the target
macro_rules! own { ($d:meta; $($n:ident $s:literal = $want:expr, [$($a:tt)*] $any:expr $(, $bits:expr)?;)*) => {$(
    #[$d]
    #[derive(DekuSize, PartialEq)]
    $($a)*
    impl Stat for $n {
        const WANT: usize = $want;
        fn any() -> Self { $any }
        $(fn bits(&self) -> usize { let f: fn(&$n) -> usize = $bits; f(self) })?
        fn rd<R: Read + Seek>(r: &mut Reader<R>) -> Result<Self, DekuError> { Self::from_reader_with_ctx(r, ()) }
        fn wr<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> { self.to_writer(w, ()) }
    }
    both!($n, $s);
)*} }
own! { derive(DekuRead, DekuWrite);
    Unit "Unit" = 0, [pub struct Unit;] Unit;
    Arrays "Arrays" = 8 * (4 + 6 + 3 + 0), [
        pub struct Arrays { a: [u16; 2], b: [[u8; 2]; 3], c: (u8, u16), d: [u32; 0] }]
        Arrays { a: [u16_(), u16_()], b: [[u8_(), u8_()], [u8_(), u8_()], [u8_(), u8_()]], c: (u8_(), u16_()), d: [] };
    ArrBytes "ArrBytes" = 8 * (4 + 3 * 3 + 2 + 1), [
        #[deku(endian = "big")]
        pub struct ArrBytes {
            #[deku(bytes = 4)] a: [u8; 4],
            #[deku(bytes = 3)] b: [u32; 3],
            #[deku(bytes = "2")] c: (u64, u8),
        }]
        ArrBytes {
            a: [u8_(), u8_(), u8_(), u8_()],
            b: [u32_() >> 8, u32_() >> 8, u32_() >> 8],
            c: (u16_() as u64, u8_()),
        };
    Nested "Nested" = 8 * (1 + 4 + 2 * 4 + 2), [
        pub struct Nested { a: bool, b: Id8, c: [Id8; 2], d: Flat2 }]
        Nested { a: bool_(), b: Id8::gen(), c: [Id8::gen(), Id8::gen()], d: Flat2(u8_(), i8_()) },
        |v| 8 + v.b.bits() + v.c[0].bits() + v.c[1].bits() + 16;
    Flat2 "Flat2" = 16, [pub struct Flat2(u8, i8);] Flat2(u8_(), i8_());
    Bytes3 "Bytes3" = 8 * (3 + 2 + 7 + 13 + 4), [
        #[deku(endian = "little")]
        pub struct Bytes3 {
            #[deku(bytes = 3)] a: u32,
            #[deku(bytes = 2)] b: i64,
            #[deku(bytes = 7)] c: u64,
            #[deku(bytes = 13)] d: u128,
            #[deku(bytes = 4)] e: f32,
        }]
        Bytes3 {
            a: u32_() >> 8,
            b: i16_() as i64,
            c: u64_() >> 8,
            d: u128_() >> 24,
            e: 1.5,
        };
    Magics "Magics" = 8 * (2 + 1 + 3 + 1 + 2), [
        #[deku(magic = b"ab")]
        pub struct Magics { a: u8, #[deku(magic = b"cde")] b: u8, #[deku(skip, magic = b"fg")] c: u32 }]
        Magics { a: u8_(), b: u8_(), c: 0 };
    Skipped "Skipped" = 8 * (1 + 2 + 1), [
        pub struct Skipped {
            a: u8,
            #[deku(skip, default = "7")] b: u64,
            #[deku(skip, pad_bytes_after = "2")] c: Vec<u8>,
            d: u8,
        }]
        Skipped { a: u8_(), b: 7, c: Vec::new(), d: u8_() };
    Empty "Empty" = 32, [
        #[deku(id_type = "u32")]
        pub enum Empty { #[deku(id = 1)] A, #[deku(id = 2)] B }]
        if pick(0, 1) == 0 { Empty::A } else { Empty::B };
    ByDisc "ByDisc" = 16, [
        #[deku(id_type = "u16")]
        #[repr(u16)]
        pub enum ByDisc { A = 3, B = 500 }]
        if pick(0, 1) == 0 { ByDisc::A } else { ByDisc::B };
    Storing "Storing" = 8 + 24, [
        #[deku(id_type = "u8")]
        pub enum Storing {
            #[deku(id = 1)] A(#[deku(pad_bytes_before = "1")] u8),
            #[deku(id_pat = "2..=9")] B { id: u8, x: u16, #[deku(magic = b"!")] y: [u8; 0] },
            #[deku(id_pat = "_")] C(u8),
        }]
        match pick(0, 2) {
            0 => Storing::A(u8_()),
            1 => Storing::B { id: pick(2, 9) as u8, x: u16_(), y: [] },
            _ => { let id = u8_(); assume(id == 0 || id > 9); Storing::C(id) }
        },
        |v| match v { Storing::A(_) => 24, Storing::B { .. } => 32, Storing::C(_) => 8 };
    Parts "Parts" = 8 * (1 + 2 + 4), [
        #[deku(magic = b"#", id_type = "u16", id_endian = "big")]
        pub enum Parts {
            #[deku(id = 0x100)] A { a: (u8, u8), b: [u8; 1] },
            #[deku(id = 0x1)] B(Flat2, #[deku(pad_bytes_after = "1")] bool),
            #[deku(id = 0x2)] C(#[deku(skip)] u64, u16),
        }]
        match pick(0, 2) {
            0 => Parts::A { a: (u8_(), u8_()), b: [u8_()] },
            1 => Parts::B(Flat2(u8_(), i8_()), bool_()),
            _ => Parts::C(0, u16_()),
        },
        |v| match v { Parts::A { .. } => 48, Parts::B(..) => 56, Parts::C(..) => 40 };
}
#[cfg(feature = "cfg_bits_any")]
own! { derive(DekuRead, DekuWrite);
    ArrBits "ArrBits" = 9 + 10 + 32 + 6 + 1, [
        #[deku(endian = "big")]
        pub struct ArrBits {
            #[deku(bits = 3)] a: [u8; 3],
            #[deku(bits = 5)] b: (u8, u16),
            #[deku(bytes = 2)] c: [u32; 2],
            #[deku(bits = 1)] d: [[bool; 2]; 3],
            #[deku(bits = "1")] e: u8,
        }]
        ArrBits {
            a: [sy(3) as u8, sy(3) as u8, sy(3) as u8],
            b: (sy(5) as u8, sy(5) as u16),
            c: [u16_() as u32, u16_() as u32],
            d: [[bool_(), bool_()], [bool_(), bool_()], [bool_(), bool_()]],
            e: sy(1) as u8,
        };
    Pads "Pads" = 3 + 8 + 5 + 8 + 2 + 16 + 1 + 4, [
        pub struct Pads {
            #[deku(pad_bits_before = "3", pad_bytes_before = "1", bits = 5)] a: u8,
            #[deku(pad_bytes_after = "2", pad_bits_after = "2")] b: u8,
            #[deku(skip, pad_bits_before = "1")] c: u8,
            #[deku(bits = 4)] d: i8,
        }]
        Pads { a: sy(5) as u8, b: u8_(), c: 0, d: sext(sy(4), 4) as i8 };
    Nib "Nib" = 2 + 9, [
        #[deku(id_type = "u8", bits = 2)]
        pub enum Nib {
            #[deku(id = 0)] A(#[deku(bits = 7)] u8),
            #[deku(id = 1)] B(u8, #[deku(bits = 1)] bool),
            #[deku(id = 2)] C,
            #[deku(id_pat = "_")] D { id: u8, #[deku(bits = 4, pad_bits_before = "2")] x: u8 },
        }]
        match pick(0, 3) {
            0 => Nib::A(sy(7) as u8),
            1 => Nib::B(u8_(), bool_()),
            2 => Nib::C,
            _ => Nib::D { id: 3, x: sy(4) as u8 },
        },
        |v| match v { Nib::A(_) => 9, Nib::B(..) => 11, Nib::C => 2, Nib::D { .. } => 8 };
    LongPads "LongPads" = 3 + 70 + 8 + 67 + 8 + 5 + 9 * 8 + 3 * 8, [
        pub struct LongPads {
            #[deku(bits = 3)] a: bool,
            #[deku(pad_bits_before = "70")] b: u8,
            #[deku(pad_bits_after = "5", pad_bytes_after = "9", pad_bits_before = "67")] c: u8,
            #[deku(bytes = 3)] d: u32,
        }]
        LongPads { a: bool_(), b: u8_(), c: u8_(), d: u32_() >> 8 };
    Bools "Bools" = 3 + 8 + 7 + 8 + 4 * 2 + 1, [
        pub struct Bools {
            #[deku(bits = 3)] a: bool,
            b: bool,
            #[deku(bits = "7")] c: bool,
            #[deku(bytes = 1)] d: bool,
            #[deku(bits = 4)] e: [bool; 2],
            #[deku(bits = 1)] f: bool,
        }]
        Bools { a: bool_(), b: bool_(), c: bool_(), d: bool_(), e: [bool_(), bool_()], f: bool_() };
    InNib "InNib" = 3 + 2 * 11 + 16, [
        pub struct InNib { #[deku(bits = 3)] a: u8, b: [Nib; 2], c: u16 }]
        InNib { a: sy(3) as u8, b: [Nib::any(), Nib::any()], c: u16_() },
        |v| 19 + v.b[0].bits() + v.b[1].bits();
}
/// with parameters
#[derive(DekuRead, DekuWrite, DekuSize, PartialEq)]
pub struct Gen<T, const N: usize>
where
    T: for<'a> DekuReader<'a> + DekuWriter + DekuSize,
{
    a: T,
    b: [u8; N],
    c: (T, u8),
}
macro_rules! gens { ($($t:ty, $s:literal = $want:expr, $any:expr;)*) => {$(
    impl Stat for $t {
        const WANT: usize = $want;
        fn any() -> Self { $any }
        fn rd<R: Read + Seek>(r: &mut Reader<R>) -> Result<Self, DekuError> { Self::from_reader_with_ctx(r, ()) }
        fn wr<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> { self.to_writer(w, ()) }
    }
    both!($t, $s);
)*} }
gens! {
    Gen<u16, 3>, "Gen16" = 8 * (2 + 3 + 3), Gen { a: u16_(), b: bytes(), c: (u16_(), u8_()) };
    Gen<Flat2, 0>, "GenFlat" = 8 * (2 + 3), Gen { a: Flat2(u8_(), i8_()), b: [], c: (Flat2(u8_(), i8_()), u8_()) };
}
/// id passed by the enclosing type
#[derive(DekuRead, DekuWrite, DekuSize, PartialEq)]
#[deku(ctx = "k: u8", id = "k")]
pub enum Given {
    #[deku(id = 0)]
    A(u8),
    #[deku(id_pat = "_")]
    B(u16, u8),
}
impl Stat for Given {
    const WANT: usize = 24;
    fn any() -> Self {
        if pick(0, 1) == 0 { Given::A(u8_()) } else { Given::B(u16_(), u8_()) }
    }
    fn bits(&self) -> usize {
        if matches!(self, Given::A(_)) { 8 } else { 24 }
    }
    fn rd<R: Read + Seek>(r: &mut Reader<R>) -> Result<Self, DekuError> {
        Self::from_reader_with_ctx(r, pick(0, 1) as u8)
    }
    fn wr<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> {
        self.to_writer(w, !matches!(self, Given::A(_)) as u8)
    }
}
both!(Given, "Given");
// what is built in
macro_rules! prims { ($($t:ty, $s:literal = $want:expr, $any:expr;)*) => {$(
    impl Stat for $t {
        const WANT: usize = $want;
        fn any() -> Self { $any }
        fn rd<R: Read + Seek>(r: &mut Reader<R>) -> Result<Self, DekuError> { Self::from_reader_with_ctx(r, ()) }
        fn wr<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> { self.to_writer(w, ()) }
    }
    both!($t, $s);
)*} }
prims! {
    u8, "u8" = 8, u8_(); u16, "u16" = 16, u16_(); u32, "u32" = 32, u32_(); u64, "u64" = 64, u64_(); u128, "u128" = 128, u128_();
    i8, "i8" = 8, i8_(); i16, "i16" = 16, i16_(); i32, "i32" = 32, i32_(); i64, "i64" = 64, i64_(); i128, "i128" = 128, i128_();
    usize, "usize" = 64, usize_(); isize, "isize" = 64, usize_() as isize; bool, "bool" = 8, bool_();
    f32, "f32" = 32, f32::from_bits(u32_()); f64, "f64" = 64, f64::from_bits(u64_());
    [u16; 3], "u16x3" = 48, [u16_(), u16_(), u16_()];
    [(u8, u32); 2], "u8u32x2" = 80, [(u8_(), u32_()), (u8_(), u32_())];
    (u8, [bool; 2], i64), "tuple" = 88, (u8_(), [bool_(), bool_()], i64_());
    (u8,), "tuple1" = 8, (u8_(),);
    (u8, u16, u8, u16, u8, u16, u8, u16, u8, u16, u8), "tuple11" = 8 * 16,
        (u8_(), u16_(), u8_(), u16_(), u8_(), u16_(), u8_(), u16_(), u8_(), u16_(), u8_());
}

// ---------------------------------------------------------------- sizes that do not fit a few bits
#[derive(DekuSize)]
pub struct Vast {
    a: [u64; 100_000],
    b: [[u16; 300]; 70],
    c: ([u8; 65536], u8),
    #[deku(pad_bytes_before = "70000", pad_bytes_after = "1 << 20")]
    d: u8,
}
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuSize)]
pub struct VastBits {
    #[deku(pad_bits_before = "100_001")]
    a: [u32; 0x1000_0000],
    #[deku(bits = 3)]
    b: [u8; 99_999],
}
#[derive(DekuSize)]
#[deku(id_type = "u8")]
pub enum VastEnum {
    #[deku(id = 1)]
    A([u8; 300]),
    #[deku(id = 2)]
    B([u16; 40_000], u8),
    #[deku(id = 3)]
    C([u8; 70_000]),
}
#[export_name = "h_vast"]
pub extern "C" fn vast() {
    reach!("large sizes");
    ck!(<[u8; 1 << 40]>::SIZE_BITS == 1 << 43 && <[u8; 1 << 40]>::SIZE_BYTES == Some(1 << 40), "the size of a large array is exact");
    let b = 800_000 + 42_000 + 65_537 + 70_001 + (1 << 20);
    ck!(Vast::SIZE_BITS == 8 * b && Vast::SIZE_BYTES == Some(b), "the size of a large struct is exact");
    ck!(VastEnum::SIZE_BITS == 8 * 80_002, "the size of a large enum is exact");
    #[cfg(feature = "cfg_bits_any")]
    ck!(VastBits::SIZE_BITS == 100_001 + (1 << 33) + 299_997 && VastBits::SIZE_BYTES.is_none(), "the size of a large struct of bits is exact");
}
