//! C17: field attributes do what they state for every value.
use crate::ops::*;
use crate::*;
use deku::deku_derive;

/// a type whose values are not all read back the way they are written
trait Attr: Sized + PartialEq {
    /// bytes of input that are enough
    const MAX: usize;
    const LSB: bool = false;
    fn any() -> Self;
    fn model(c: &mut Cur) -> Result<Self, K>;
    fn out(&self, o: &mut O);
    /// (for speed only)
    fn part(_: &mut [u8]) {}
    fn rd<R: Read + Seek>(r: &mut Reader<R>) -> Result<Self, DekuError>;
    fn wr<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError>;
}
fn read<T: Attr>() {
    let k = offset();
    let mut d: [u8; CAP] = bytes();
    T::part(&mut d[..T::MAX]);
    let s = behind(&d[..T::MAX], k, T::LSB, 0);
    let d = &s.d[..s.n];
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, T::LSB).is_err() {
        fail!("the bits before a value are there");
        return;
    }
    let got = T::rd(&mut r);
    let mut c = Cur::at(d, k);
    match (got, T::model(&mut c)) {
        (Ok(v), Ok(w)) => {
            reach!("a value is read");
            obs(r.bits_read as u64);
            ck!(v == w, "every field is read as stated");
            ck!(r.bits_read == c.pos, "fields take the bits stated");
        }
        (Err(e), Err(k)) => ck!(same_kind(&e, k), "the kind of failure is as stated"),
        _ => fail!("a value is read exactly when stated"),
    }
}
fn write<T: Attr>() {
    let k = offset();
    let v = T::any();
    let mut s = Sink::<CAP>::new();
    let mut w = Writer::new(&mut s);
    if put(&mut w, 0, k, T::LSB).and_then(|_| v.wr(&mut w)).and_then(|_| w.finalize()).is_err() {
        fail!("a value is written");
        return;
    }
    reach!("a value is written");
    let mut o = O::new();
    o.pad(k);
    v.out(&mut o);
    obs(s.len as u64);
    ck!(s.len == o.bytes(), "fields are written in the bits stated");
    ck!(s.d == o.d, "every field is written as stated");
}
macro_rules! both { ($t:ty, $n:literal) => {
    const _: () = {
        #[export_name = concat!("h_read_", $n)]
        pub extern "C" fn r() { read::<$t>() }
        #[export_name = concat!("h_write_", $n)]
        pub extern "C" fn w() { write::<$t>() }
    };
} }
macro_rules! fromcat { ($($(#[$c:meta])* $t:ident)*) => {$(
    $(#[$c])*
    impl Attr for $t {
        const MAX: usize = <$t as Cat>::MAX;
        const LSB: bool = <$t as Cat>::LSB;
        fn any() -> Self { <$t as Cat>::gen() }
        fn model(c: &mut Cur) -> Result<Self, K> { <$t as Cat>::dec(c) }
        fn out(&self, o: &mut O) { <$t as Cat>::enc(self, o) }
        fn part(d: &mut [u8]) { <$t as Cat>::shape(d) }
        fn rd<R: Read + Seek>(r: &mut Reader<R>) -> Result<Self, DekuError> { Self::from_reader_with_ctx(r, ()) }
        fn wr<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> { self.to_writer(w, ()) }
    }
    $(#[$c])*
    const _: () = {
        #[export_name = concat!("h_read_", stringify!($t))]
        pub extern "C" fn r() { read::<$t>() }
        #[export_name = concat!("h_write_", stringify!($t))]
        pub extern "C" fn w() { write::<$t>() }
    };
)*} }
fromcat! {
    Conds Parent DynBytes
    #[cfg(feature = "cfg_bits_any")] Skips
    #[cfg(feature = "cfg_bits_any")] Custom
    #[cfg(feature = "cfg_bits_any")] Temp
    #[cfg(feature = "cfg_bits_any")] GenU16
    #[cfg(feature = "cfg_bits_any")] DynEnd
    #[cfg(feature = "cfg_bits_any")] DynBits
    #[cfg(feature = "cfg_bits_any")] BitParent
}
macro_rules! attr { ($t:ty, $n:literal, $max:expr $(; lsb $lsb:expr)?, $any:expr, |$c:ident| $dec:expr, |$v:ident, $o:ident| $enc:block $(, $part:expr)?) => {
    impl Attr for $t {
        $(const LSB: bool = $lsb;)?
        const MAX: usize = $max;
        fn any() -> Self { $any }
        fn model($c: &mut Cur) -> Result<Self, K> { $dec }
        fn out(&self, $o: &mut O) { let $v = self; $enc }
        $(fn part(d: &mut [u8]) { let f: fn(&mut [u8]) = $part; f(d) })?
        fn rd<R: Read + Seek>(r: &mut Reader<R>) -> Result<Self, DekuError> { Self::from_reader_with_ctx(r, ()) }
        fn wr<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> { self.to_writer(w, ()) }
    }
    both!($t, $n);
} }
fn some<T>(f: fn() -> T) -> Option<T> {
    if pick(0, 1) == 0 {
        None
    } else {
        Some(f())
    }
}

/// conditions and defaults that see the fields before them
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(endian = "big")]
pub struct CondDef {
    a: u8,
    #[deku(cond = "*a & 1 == 1", default = "Some(*a as u16 ^ 0xff00)")]
    b: Option<u16>,
    #[deku(cond = "b.map_or(false, |b| b > 9)", default = "*a")]
    c: u8,
    #[deku(skip, cond = "*c > 9", default = "c.wrapping_sub(1)")]
    d: u8,
    #[deku(skip(read), cond = "*d < 4", default = "*a ^ *d")]
    e: u8,
    #[deku(skip(write), cond = "*e & 2 == 2")]
    f: u8,
    #[deku(cond = "*f != *e")]
    g: Option<u8>,
    h: u8,
}
attr! { CondDef, "CondDef", 9,
    CondDef { a: u8_(), b: some(u16_), c: u8_(), d: u8_(), e: u8_(), f: u8_(), g: some(u8_), h: u8_() },
    |c| {
        let a = c.u8()?;
        let b = if a & 1 == 1 { Some(c.be16()?) } else { Some(a as u16 ^ 0xff00) };
        let x = if b.map_or(false, |b| b > 9) { c.u8()? } else { a };
        let d = if x > 9 { x.wrapping_sub(1) } else { c.u8()? };
        let e = if d < 4 { a ^ d } else { c.u8()? };
        let f = c.u8()?;
        let g = if f != e { Some(c.u8()?) } else { None };
        Ok(CondDef { a, b, c: x, d, e, f, g, h: c.u8()? })
    },
    |v, o| {
        o.u8(v.a);
        if let Some(b) = v.b { o.be16(b) }
        o.u8(v.c);
        if v.c <= 9 { o.u8(v.d) }
        o.u8(v.e);
        if v.e & 2 == 0 { o.u8(v.f) }
        if let Some(g) = v.g { o.u8(g) }
        o.u8(v.h);
    }
}
/// the type's own default, when none is given
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct Five(u8);
impl Default for Five {
    fn default() -> Self {
        Five(5)
    }
}
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct OwnDef {
    #[deku(skip)]
    z: Five,
    a: u8,
    #[deku(cond = "*a == 5")]
    b: Five,
    #[deku(cond = "b.0 != 5")]
    c: (Five, u8),
    #[deku(skip, cond = "c.0 .0 == *a")]
    d: [Five; 2],
    e: u8,
}
attr! { OwnDef, "OwnDef", 7,
    OwnDef { z: Five(u8_()), a: u8_(), b: Five(u8_()), c: (Five(u8_()), u8_()), d: [Five(u8_()), Five(u8_())], e: u8_() },
    |c| {
        let a = c.u8()?;
        let b = if a == 5 { c.u8()? } else { 5 };
        let x = if b != 5 { (Five(c.u8()?), c.u8()?) } else { (Five(5), 0) };
        let d = if x.0.0 == a { [Five(5), Five(5)] } else { [Five(c.u8()?), Five(c.u8()?)] };
        Ok(OwnDef { z: Five(5), a, b: Five(b), c: x, d, e: c.u8()? })
    },
    |v, o| {
        o.u8(v.a);
        o.u8(v.b.0);
        o.u8(v.c.0.0);
        o.u8(v.c.1);
        if v.c.0.0 != v.a { o.u8(v.d[0].0); o.u8(v.d[1].0) }
        o.u8(v.e);
    }
}
/// fields without names
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(endian = "little")]
pub struct Tuple(
    u8,
    #[deku(cond = "*field_0 > 0x7f")] Option<u16>,
    #[deku(skip, default = "field_1.is_some() as u8")] u8,
    #[deku(map = "|x: u8| -> Result<_, DekuError> { Ok(x ^ *field_0) }", writer = "(field_3 ^ field_0).to_writer(deku::writer, ())")] u8,
    #[deku(endian = "big", cond = "*field_2 == 1", default = "*field_3 as u16")] u16,
);
attr! { Tuple, "Tuple", 6,
    Tuple(u8_(), some(u16_), u8_(), u8_(), u16_()),
    |c| {
        let a = c.u8()?;
        let b = if a > 0x7f { Some(c.le16()?) } else { None };
        let d = c.u8()? ^ a;
        let e = if b.is_some() { c.be16()? } else { d as u16 };
        Ok(Tuple(a, b, b.is_some() as u8, d, e))
    },
    |v, o| {
        o.u8(v.0);
        if let Some(b) = v.1 { o.le16(b) }
        o.u8(v.3 ^ v.0);
        o.be16(v.4);
    }
}
/// the same on the fields of variants
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(id_type = "u8", endian = "big")]
pub enum Variants {
    #[deku(id = 1)]
    A {
        a: u8,
        #[deku(cond = "*a != 0")]
        b: Option<u16>,
        #[deku(skip, default = "*a")]
        c: u8,
        #[deku(skip, cond = "b.is_none()", default = "9")]
        d: u8,
    },
    #[deku(id = 2)]
    B(u8, #[deku(cond = "*field_0 & 4 == 4", default = "Some(2)")] Option<u8>, #[deku(ctx = "*field_0, field_1.unwrap_or(0)")] Two),
    #[deku(id_pat = "3..=5")]
    C { id: u8, #[deku(cond = "*id == 4")] x: Option<u8> },
    #[deku(id = 6)]
    D(#[deku(skip)] u8, u8),
}
/// receives two values
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(ctx = "endian: deku::ctx::Endian, x: u8, y: u8", endian = "endian")]
pub struct Two {
    #[deku(map = "|v: u16| -> Result<_, DekuError> { Ok(v.wrapping_add(x as u16)) }", writer = "a.wrapping_sub(x as u16).to_writer(deku::writer, endian)")]
    a: u16,
    #[deku(cond = "x > y")]
    b: Option<u8>,
}
impl Two {
    fn model(c: &mut Cur, be: bool, x: u8, y: u8) -> Result<Two, K> {
        let a = (c.u(16, be, false)? as u16).wrapping_add(x as u16);
        Ok(Two { a, b: if x > y { Some(c.u8()?) } else { None } })
    }
    fn out(&self, o: &mut O, be: bool, x: u8) {
        o.put(self.a.wrapping_sub(x as u16) as u128, 16, be, false);
        if let Some(b) = self.b { o.u8(b) }
    }
    fn any() -> Two {
        Two { a: u16_(), b: some(u8_) }
    }
}
attr! { Variants, "Variants", 6,
    match pick(0, 3) {
        0 => Variants::A { a: u8_(), b: some(u16_), c: u8_(), d: u8_() },
        1 => Variants::B(u8_(), some(u8_), Two::any()),
        2 => Variants::C { id: pick(3, 5) as u8, x: some(u8_) },
        _ => Variants::D(u8_(), u8_()),
    },
    |c| {
        Ok(match c.u8()? {
            1 => {
                let a = c.u8()?;
                let b = if a != 0 { Some(c.be16()?) } else { None };
                Variants::A { a, b, c: a, d: if b.is_none() { 9 } else { c.u8()? } }
            }
            2 => {
                let a = c.u8()?;
                let b = if a & 4 == 4 { Some(c.u8()?) } else { Some(2) };
                Variants::B(a, b, Two::model(c, true, a, b.unwrap())?)
            }
            id @ 3..=5 => Variants::C { id, x: if id == 4 { Some(c.u8()?) } else { None } },
            6 => Variants::D(0, c.u8()?),
            _ => return Err(K::Parse),
        })
    },
    |v, o| {
        match v {
            Variants::A { a, b, d, .. } => {
                o.u8(1);
                o.u8(*a);
                if let Some(b) = b { o.be16(*b); o.u8(*d) }
            }
            Variants::B(a, b, t) => {
                o.u8(2);
                o.u8(*a);
                if let Some(b) = b { o.u8(*b) }
                t.out(o, true, *a);
            }
            Variants::C { id, x } => {
                o.u8(*id);
                if let Some(x) = x { o.u8(*x) }
            }
            Variants::D(_, b) => { o.u8(6); o.u8(*b) }
        }
    },
    |d| small(d, 0, 7)
}
/// contexts through several levels, in containers, and by default
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(endian = "big")]
pub struct Levels {
    x: u8,
    #[deku(ctx = "*x, !*x")]
    a: [Two; 2],
    #[deku(ctx = "1, *x", endian = "little")]
    b: (Two, Two),
    #[deku(cond = "*x == 7", ctx = "*x, a[0].a as u8")]
    c: Option<Two>,
    #[deku(ctx = "(*x, b.0.a), Pair(*x, 3)")]
    d: Deep,
}
#[derive(Clone, Copy)]
pub struct Pair(u8, u8);
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(ctx = "endian: deku::ctx::Endian, p: (u8, u16), q: Pair", endian = "endian")]
pub struct Deep {
    #[deku(cond = "p.1 < 0x100")]
    a: Option<u8>,
    #[deku(ctx = "q.0, q.1")]
    b: Two,
    #[deku(endian = "little", ctx = "p.0, p.1 as u8")]
    c: Two,
}
attr! { Levels, "Levels", 23,
    Levels {
        x: u8_(),
        a: [Two::any(), Two { a: u16_(), b: None }],
        b: (Two { a: u16_(), b: None }, Two::any()),
        c: some(|| Two { a: u16_(), b: None }),
        d: Deep { a: some(u8_), b: Two::any(), c: Two { a: u16_(), b: None } },
    },
    |c| {
        let x = c.u8()?;
        let a = [Two::model(c, true, x, !x)?, Two::model(c, true, x, !x)?];
        let b = (Two::model(c, false, 1, x)?, Two::model(c, false, 1, x)?);
        let t = if x == 7 { Some(Two::model(c, true, x, a[0].a as u8)?) } else { None };
        let y = b.0.a;
        let d = Deep {
            a: if y < 0x100 { Some(c.u8()?) } else { None },
            b: Two::model(c, true, x, 3)?,
            c: Two::model(c, false, x, y as u8)?,
        };
        Ok(Levels { x, a, b, c: t, d })
    },
    |v, o| {
        o.u8(v.x);
        v.a[0].out(o, true, v.x);
        v.a[1].out(o, true, v.x);
        v.b.0.out(o, false, 1);
        v.b.1.out(o, false, 1);
        if let Some(c) = &v.c { c.out(o, true, v.x) }
        if let Some(a) = v.d.a { o.u8(a) }
        v.d.b.out(o, true, v.x);
        v.d.c.out(o, false, v.x);
    }
}
/// stands alone with its default context
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(ctx = "a: u8, b: u16", ctx_default = "3, 0x1234")]
pub struct ByDefault {
    #[deku(map = "|x: u8| -> Result<_, DekuError> { Ok(x ^ a) }", writer = "(x ^ a).to_writer(deku::writer, ())")]
    x: u8,
    #[deku(cond = "b == 0x1234")]
    y: Option<u8>,
    #[deku(cond = "b != 0x1234")]
    z: Option<u16>,
}
attr! { ByDefault, "ByDefault", 2,
    ByDefault { x: u8_(), y: some(u8_), z: some(u16_) },
    |c| Ok(ByDefault { x: c.u8()? ^ 3, y: Some(c.u8()?), z: None }),
    |v, o| {
        o.u8(v.x ^ 3);
        if let Some(y) = v.y { o.u8(y) }
        if let Some(z) = v.z { o.le16(z) }
    }
}
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct NoDefault {
    k: u8,
    #[deku(ctx = "*k, *k as u16 + 0x1230")]
    v: ByDefault,
    w: ByDefault,
}
attr! { NoDefault, "NoDefault", 6,
    NoDefault {
        k: u8_(),
        v: ByDefault { x: u8_(), y: some(u8_), z: some(u16_) },
        w: ByDefault { x: u8_(), y: some(u8_), z: None },
    },
    |c| {
        let k = c.u8()?;
        let x = c.u8()? ^ k;
        let (y, z) = if k == 4 { (Some(c.u8()?), None) } else { (None, Some(c.le16()?)) };
        Ok(NoDefault { k, v: ByDefault { x, y, z }, w: ByDefault { x: c.u8()? ^ 3, y: Some(c.u8()?), z: None } })
    },
    |v, o| {
        o.u8(v.k);
        o.u8(v.v.x ^ v.k);
        if let Some(y) = v.v.y { o.u8(y) }
        if let Some(z) = v.v.z { o.le16(z) }
        o.u8(v.w.x ^ 3);
        if let Some(y) = v.w.y { o.u8(y) }
    }
}
/// what is read is mapped, and may be refused
#[derive(DekuRead, PartialEq, DekuWrite)]
pub struct Maps2 {
    k: u8,
    #[deku(map = "Maps2::wide", writer = "Maps2::narrow(deku::writer, *a)")]
    a: u32,
    #[deku(map = "|(x, y): (u8, u16)| -> Result<_, DekuError> { if x == *k { Err(DekuError::InvalidParam(\"same\".into())) } else { Ok([x as u16, y]) } }", writer = "(b[0] as u8, b[1]).to_writer(deku::writer, ())")]
    b: [u16; 2],
    #[deku(cond = "*k > 1", map = "|x: u8| -> Result<_, DekuError> { Ok(Some(!x)) }", writer = "c.map(|x| !x).to_writer(deku::writer, ())")]
    c: Option<u8>,
    #[deku(map = "|x: [u8; 2]| Ok::<_, DekuError>((x[1], x[0]))", writer = "[d.1, d.0].to_writer(deku::writer, ())")]
    d: (u8, u8),
}
impl Maps2 {
    fn wide(x: u16) -> Result<u32, DekuError> {
        if x == 0xffff {
            Err(DekuError::Parse("end".into()))
        } else {
            Ok(x as u32 + 1)
        }
    }
    fn narrow<W: Write + Seek>(w: &mut Writer<W>, a: u32) -> Result<(), DekuError> {
        (a.wrapping_sub(1) as u16).to_writer(w, ())
    }
}
attr! { Maps2, "Maps2", 9,
    Maps2 { k: u8_(), a: u16_() as u32 + 1, b: [u8_() as u16, u16_()], c: some(u8_), d: (u8_(), u8_()) },
    |c| {
        let k = c.u8()?;
        let a = c.le16()?;
        if a == 0xffff { return Err(K::Parse) }
        let b = [c.u8()? as u16, c.le16()?];
        if b[0] == k as u16 { return Err(K::Parse) }
        let x = if k > 1 { Some(!c.u8()?) } else { None };
        let d = (c.u8()?, c.u8()?);
        Ok(Maps2 { k, a: a as u32 + 1, b, c: x, d: (d.1, d.0) })
    },
    |v, o| {
        o.u8(v.k);
        o.le16((v.a - 1) as u16);
        o.u8(v.b[0] as u8);
        o.le16(v.b[1]);
        if let Some(c) = v.c { o.u8(!c) }
        o.u8(v.d.1);
        o.u8(v.d.0);
    }
}
/// code of its own, for fields and for a variant
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(id_type = "u8", ctx = "e: u8", ctx_default = "0x40")]
pub enum Own {
    #[deku(id = 1)]
    A(#[deku(reader = "own_read(deku::reader, e)", writer = "own_write(deku::writer, *field_0, e)")] u8, u8),
    #[deku(id = 2, writer = "7u8.to_writer(deku::writer, ()).and_then(|_| field_0.to_writer(deku::writer, ()))")]
    B(u8),
    #[deku(id = 3)]
    C {
        a: u8,
        #[deku(reader = "own_read(deku::reader, *a)", writer = "own_write(deku::writer, *b, *a)", cond = "*a != e")]
        b: u8,
    },
}
fn own_read<R: Read + Seek>(r: &mut Reader<R>, e: u8) -> Result<u8, DekuError> {
    let x = u8::from_reader_with_ctx(r, ())?;
    let y = u8::from_reader_with_ctx(r, ())?;
    if x != y ^ e {
        return Err(DekuError::Assertion("own".into()));
    }
    Ok(x)
}
fn own_write<W: Write + Seek>(w: &mut Writer<W>, x: u8, e: u8) -> Result<(), DekuError> {
    x.to_writer(w, ())?;
    (x ^ e).to_writer(w, ())
}
attr! { Own, "Own", 5,
    match pick(0, 2) {
        0 => Own::A(u8_(), u8_()),
        1 => Own::B(u8_()),
        _ => Own::C { a: u8_(), b: u8_() },
    },
    |c| {
        let own = |c: &mut Cur, e: u8| -> Result<u8, K> {
            let (x, y) = (c.u8()?, c.u8()?);
            if x != y ^ e { Err(K::Assert) } else { Ok(x) }
        };
        Ok(match c.u8()? {
            1 => Own::A(own(c, 0x40)?, c.u8()?),
            2 => Own::B(c.u8()?),
            3 => {
                let a = c.u8()?;
                Own::C { a, b: if a != 0x40 { own(c, a)? } else { 0 } }
            }
            _ => return Err(K::Parse),
        })
    },
    |v, o| {
        match v {
            Own::A(x, y) => { o.u8(1); o.u8(*x); o.u8(*x ^ 0x40); o.u8(*y) }
            // in place of everything, the id too
            Own::B(x) => { o.u8(7); o.u8(*x) }
            Own::C { a, b } => { o.u8(3); o.u8(*a); o.u8(*b); o.u8(*b ^ *a) }
        }
    },
    |d| small(d, 0, 4)
}
/// temporary fields: without names, in variants, without a value to write
#[deku_derive(DekuRead, DekuWrite)]
#[derive(PartialEq)]
#[deku(endian = "big")]
pub struct TempTuple(
    u8,
    #[deku(temp, temp_value = "field_2.is_some() as u8")] u8,
    #[deku(cond = "*field_1 == 1")] Option<u16>,
    #[deku(temp)] u8,
    #[deku(cond = "*field_3 == *field_0", default = "1")] u8,
);
attr! { TempTuple, "TempTuple", 6,
    TempTuple(u8_(), some(u16_), u8_()),
    |c| {
        let a = c.u8()?;
        let t = c.u8()?;
        let b = if t == 1 { Some(c.be16()?) } else { None };
        let u = c.u8()?;
        Ok(TempTuple(a, b, if u == a { c.u8()? } else { 1 }))
    },
    |v, o| {
        o.u8(v.0);
        o.u8(v.1.is_some() as u8);
        if let Some(b) = v.1 { o.be16(b) }
        o.u8(v.2);
    }
}
#[deku_derive(DekuRead, DekuWrite)]
#[derive(PartialEq)]
#[deku(id_type = "u8")]
pub enum TempEnum {
    #[deku(id = 1)]
    A {
        #[deku(temp, temp_value = "b.is_some() as u8 + c")]
        t: u8,
        #[deku(cond = "*t & 1 == 1")]
        b: Option<u8>,
        c: u8,
        #[deku(temp, endian = "big", temp_value = "*c as u16 * 2")]
        u: u16,
    },
    #[deku(id = 2)]
    B(#[deku(temp, temp_value = "!field_1")] u8, #[deku(map = "|x: u8| -> Result<_, DekuError> { Ok(x.wrapping_add(*field_0)) }")] u8),
    #[deku(id = 3)]
    C(#[deku(temp)] u8, u8),
}
attr! { TempEnum, "TempEnum", 6,
    match pick(0, 2) {
        0 => { let c = u8_(); assume(c < 255); TempEnum::A { b: some(u8_), c } }
        1 => TempEnum::B(u8_()),
        _ => TempEnum::C(u8_()),
    },
    |c| {
        Ok(match c.u8()? {
            1 => {
                let t = c.u8()?;
                let b = if t & 1 == 1 { Some(c.u8()?) } else { None };
                let x = c.u8()?;
                c.be16()?;
                TempEnum::A { b, c: x }
            }
            2 => { let t = c.u8()?; TempEnum::B(c.u8()?.wrapping_add(t)) }
            3 => { c.u8()?; TempEnum::C(c.u8()?) }
            _ => return Err(K::Parse),
        })
    },
    |v, o| {
        match v {
            TempEnum::A { b, c } => {
                o.u8(1);
                o.u8(b.is_some() as u8 + c);
                if let Some(b) = b { o.u8(*b) }
                o.u8(*c);
                o.be16(*c as u16 * 2);
            }
            TempEnum::B(x) => { o.u8(2); o.u8(!*x); o.u8(*x) }
            TempEnum::C(x) => { o.u8(3); o.u8(*x) }
        }
    },
    |d| small(d, 0, 4)
}
/// names that need care
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct Names {
    r#type: u8,
    #[deku(cond = "*r#type == 3")]
    r#fn: Option<u8>,
    value: u8,
    #[deku(cond = "*value == 1 && r#fn.is_some()")]
    reader: Option<u8>,
    #[deku(cond = "reader.is_none()")]
    writer: Option<u8>,
    #[deku(skip, default = "*value")]
    input: u8,
    #[deku(ctx = "*input")]
    ctx: Shadow,
}
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(ctx = "reader: u8")]
pub struct Shadow {
    #[deku(cond = "reader == 2")]
    output: Option<u8>,
    #[deku(cond = "output.is_none() && reader > 4")]
    rest: Option<u8>,
}
attr! { Names, "Names", 7,
    Names {
        r#type: u8_(), r#fn: some(u8_), value: u8_(), reader: some(u8_), writer: some(u8_), input: u8_(),
        ctx: Shadow { output: some(u8_), rest: some(u8_) },
    },
    |c| {
        let t = c.u8()?;
        let f = if t == 3 { Some(c.u8()?) } else { None };
        let v = c.u8()?;
        let r = if v == 1 && f.is_some() { Some(c.u8()?) } else { None };
        let w = if r.is_none() { Some(c.u8()?) } else { None };
        let out = if v == 2 { Some(c.u8()?) } else { None };
        let rest = if out.is_none() && v > 4 { Some(c.u8()?) } else { None };
        Ok(Names { r#type: t, r#fn: f, value: v, reader: r, writer: w, input: v, ctx: Shadow { output: out, rest } })
    },
    |v, o| {
        o.u8(v.r#type);
        for x in [v.r#fn] { if let Some(x) = x { o.u8(x) } }
        o.u8(v.value);
        for x in [v.reader, v.writer, v.ctx.output, v.ctx.rest] { if let Some(x) = x { o.u8(x) } }
    }
}
/// the current offset, in whole bytes
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct Offsets {
    a: u8,
    #[deku(cond = "deku::byte_offset == *a as usize")]
    b: Option<u16>,
    #[deku(skip, default = "deku::bit_offset")]
    c: usize,
    #[deku(map = "|x: u8| -> Result<_, DekuError> { Ok(x.wrapping_add(deku::byte_offset as u8)) }", writer = "d.wrapping_sub(deku::byte_offset as u8).to_writer(deku::writer, ())")]
    d: u8,
    #[deku(ctx = "deku::byte_offset, deku::bit_offset")]
    e: AtOffset,
    #[deku(reader = "at(deku::reader, deku::bit_offset)", writer = "put_at(deku::writer, *f, deku::bit_offset)")]
    f: u8,
    #[deku(assert = "deku::byte_offset < 250")]
    g: u8,
}
fn at<R: Read + Seek>(r: &mut Reader<R>, n: usize) -> Result<u8, DekuError> {
    Ok(u8::from_reader_with_ctx(r, ())? ^ n as u8)
}
fn put_at<W: Write + Seek>(w: &mut Writer<W>, v: u8, n: usize) -> Result<(), DekuError> {
    (v ^ n as u8).to_writer(w, ())
}
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(ctx = "n: usize, m: usize")]
pub struct AtOffset {
    #[deku(reader = "at(deku::reader, n)", writer = "put_at(deku::writer, *a, n)")]
    a: u8,
    #[deku(reader = "at(deku::reader, deku::byte_offset + m)", writer = "put_at(deku::writer, *b, deku::byte_offset + m)")]
    b: u8,
}
attr! { Offsets, "Offsets", 8,
    Offsets { a: u8_(), b: some(u16_), c: u8_() as usize, d: u8_(), e: AtOffset { a: u8_(), b: u8_() }, f: u8_(), g: u8_() },
    |c| {
        let a = c.u8()?;
        let b = if c.pos / 8 == a as usize { Some(c.le16()?) } else { None };
        let at = c.pos;
        let n = c.pos / 8;
        let d = c.u8()?.wrapping_add(n as u8);
        let m = c.pos;
        let x = c.u8()? ^ (m / 8) as u8;
        let n = c.pos / 8 + m;
        let y = c.u8()? ^ n as u8;
        let n = c.pos;
        let f = c.u8()? ^ n as u8;
        Ok(Offsets { a, b, c: at, d, e: AtOffset { a: x, b: y }, f, g: c.u8()? })
    },
    |v, o| {
        o.u8(v.a);
        if let Some(b) = v.b { o.le16(b) }
        o.u8(v.d.wrapping_sub((o.pos / 8) as u8));
        let m = o.pos;
        o.u8(v.e.a ^ (m / 8) as u8);
        o.u8(v.e.b ^ (o.pos / 8 + m) as u8);
        o.u8(v.f ^ o.pos as u8);
        o.u8(v.g);
    }
}
#[cfg(feature = "cfg_bits_any")]
mod bits {
    use super::*;
    /// the current offset, between bytes
    #[derive(DekuRead, DekuWrite, PartialEq)]
    pub struct BitOffsets {
        #[deku(bits = 3)]
        a: u8,
        #[deku(bits = 5, map = "|x: u8| -> Result<_, DekuError> { Ok(x ^ deku::bit_offset as u8) }", writer = "(b ^ deku::bit_offset as u8).to_writer(deku::writer, ())")]
        b: u8,
        #[deku(bits = 6)]
        c: u8,
        #[deku(ctx = "deku::byte_offset, deku::bit_offset")]
        e: AtOffset,
        #[deku(bits = "(deku::bit_offset % 3) as usize + 1")]
        f: u8,
        #[deku(reader = "at(deku::reader, deku::bit_offset)", writer = "put_at(deku::writer, *g, deku::bit_offset)")]
        g: u8,
    }
    impl BitOffsets {
        /// the write side of `b` emits eight bits, read as five
        fn b(x: u8, n: usize) -> u8 {
            x ^ n as u8
        }
    }
    attr! { BitOffsets, "BitOffsets", 7,
        BitOffsets { a: sy(3) as u8, b: u8_(), c: sy(6) as u8, e: AtOffset { a: u8_(), b: u8_() }, f: 0, g: u8_() },
        |c| {
            let a = c.u(3, true, false)? as u8;
            let n = c.pos;
            let b = BitOffsets::b(c.u(5, true, false)? as u8, n);
            let d = c.u(6, true, false)? as u8;
            let m = c.pos;
            let x = c.u8()? ^ (m / 8) as u8;
            let n = c.pos / 8 + m;
            let y = c.u8()? ^ n as u8;
            let w = c.pos % 3 + 1;
            let f = c.u(w, true, false)? as u8;
            let n = c.pos;
            Ok(BitOffsets { a, b, c: d, e: AtOffset { a: x, b: y }, f, g: c.u8()? ^ n as u8 })
        },
        |v, o| {
            o.put(v.a as u128, 3, true, false);
            o.u8(BitOffsets::b(v.b, o.pos));
            o.put(v.c as u128, 6, true, false);
            let m = o.pos;
            o.u8(v.e.a ^ (m / 8) as u8);
            o.u8(v.e.b ^ (o.pos / 8 + m) as u8);
            o.put(v.f as u128, o.pos % 3 + 1, true, false);
            o.u8(v.g ^ o.pos as u8);
        }
    }
    /// and where the low bits of a byte come first
    #[derive(DekuRead, DekuWrite, PartialEq)]
    #[deku(bit_order = "lsb")]
    pub struct LsbOffsets {
        #[deku(bits = 3)]
        a: u8,
        #[deku(bits = "(deku::bit_offset % 5) as usize + 1")]
        b: u8,
        #[deku(bits = 13)]
        c: u16,
        #[deku(bits = "(deku::bit_offset % 7) as usize + 1")]
        d: u8,
        #[deku(bits = "(deku::byte_offset + deku::bit_offset) % 3 + 1")]
        e: u8,
        #[deku(pad_bits_before = "(8 - deku::bit_offset % 8) % 8")]
        f: u8,
        #[deku(reader = "at(deku::reader, deku::bit_offset)", writer = "put_at(deku::writer, *g, deku::bit_offset)")]
        g: u8,
    }
    attr! { LsbOffsets, "LsbOffsets", 7; lsb true,
        LsbOffsets { a: sy(3) as u8, b: sy(1) as u8, c: sy(13) as u16, d: 0, e: sy(1) as u8, f: u8_(), g: u8_() },
        |c| {
            let a = c.u(3, true, true)? as u8;
            let b = c.u(c.pos % 5 + 1, true, true)? as u8;
            let x = c.u(13, false, true)? as u16;
            let d = c.u(c.pos % 7 + 1, true, true)? as u8;
            let e = c.u((c.pos / 8 + c.pos) % 3 + 1, true, true)? as u8;
            c.pad((8 - c.pos % 8) % 8)?;
            let f = c.u8()?;
            let n = c.pos;
            Ok(LsbOffsets { a, b, c: x, d, e, f, g: c.u8()? ^ n as u8 })
        },
        |v, o| {
            o.put(v.a as u128, 3, true, true);
            o.put(v.b as u128, o.pos % 5 + 1, true, true);
            o.put(v.c as u128, 13, false, true);
            o.put(v.d as u128, o.pos % 7 + 1, true, true);
            o.put(v.e as u128, (o.pos / 8 + o.pos) % 3 + 1, true, true);
            o.pad((8 - o.pos % 8) % 8);
            o.u8(v.f);
            o.u8(v.g ^ o.pos as u8);
        }
    }
    /// padding up to a boundary
    #[deku_derive(DekuRead, DekuWrite)]
    #[derive(PartialEq)]
    pub struct Aligned {
        #[deku(bits = 3)]
        a: u8,
        #[deku(pad_bits_before = "(8 - deku::bit_offset % 8) % 8")]
        b: u8,
        #[deku(bits = 2, pad_bits_after = "(16 - deku::bit_offset % 16) % 16")]
        c: u8,
        #[deku(temp, temp_value = "deku::bit_offset as u8", pad_bytes_before = "deku::byte_offset % 3")]
        t: u8,
        #[deku(bytes = "deku::byte_offset & 3", endian = "big")]
        d: u32,
        #[deku(cond = "*t & 1 == 0")]
        e: Option<u8>,
    }
    attr! { Aligned, "Aligned", 11,
        Aligned { a: sy(3) as u8, b: u8_(), c: sy(2) as u8, d: u8_() as u32, e: if pick(0, 1) == 0 { None } else { Some(u8_()) } },
        |c| {
            let a = c.u(3, true, false)? as u8;
            c.pad((8 - c.pos % 8) % 8)?;
            let b = c.u8()?;
            let x = c.u(2, true, false)? as u8;
            c.pad((16 - c.pos % 16) % 16)?;
            c.pad(c.pos / 8 % 3 * 8)?;
            let t = c.u8()?;
            let d = c.u(8 * (c.pos / 8 & 3), true, false)? as u32;
            let e = if t & 1 == 0 { Some(c.u8()?) } else { None };
            Ok(Aligned { a, b, c: x, d, e })
        },
        |v, o| {
            o.put(v.a as u128, 3, true, false);
            o.pad((8 - o.pos % 8) % 8);
            o.u8(v.b);
            o.put(v.c as u128, 2, true, false);
            o.pad((16 - o.pos % 16) % 16);
            o.pad(o.pos / 8 % 3 * 8);
            o.u8(o.pos as u8);
            o.put(v.d as u128, 8 * (o.pos / 8 & 3), true, false);
            if let Some(e) = v.e { o.u8(e) }
        }
    }
    /// temporary and mapped bit fields in the other bit order
    #[deku_derive(DekuRead, DekuWrite)]
    #[derive(PartialEq)]
    #[deku(endian = "little", bit_order = "lsb")]
    pub struct TempLsb {
        #[deku(temp, bits = 2, temp_value = "(b.is_some() as u8) << 1")]
        t: u8,
        #[deku(bits = 6)]
        a: u8,
        #[deku(cond = "*t & 2 == 2", bits = 11)]
        b: Option<u16>,
        #[deku(temp, bits = "*t as usize + 1", temp_value = "(t ^ 2) >> 1")]
        u: u8,
        #[deku(bits = 5, skip, cond = "*u == 0", default = "a & 31")]
        c: u8,
        #[deku(bits = 3)]
        d: i8,
    }
    impl Attr for TempLsb {
        const MAX: usize = 5;
        const LSB: bool = true;
        fn any() -> Self {
            TempLsb { a: sy(6) as u8, b: if pick(0, 1) == 0 { None } else { Some(sy(11) as u16) }, c: sy(5) as u8, d: sext(sy(3), 3) as i8 }
        }
        fn part(d: &mut [u8]) {
            split(d, 0, 3)
        }
        fn model(c: &mut Cur) -> Result<Self, K> {
            let t = c.u(2, false, true)? as u8;
            let a = c.u(6, false, true)? as u8;
            let b = if t & 2 == 2 { Some(c.u(11, false, true)? as u16) } else { None };
            let mut w = 1;
            while w < t as usize + 1 {
                w += 1;
            }
            let u = c.u(w, false, true)?;
            let x = if u == 0 { a & 31 } else { c.u(5, false, true)? as u8 };
            Ok(TempLsb { a, b, c: x, d: c.i(3, false, true)? as i8 })
        }
        fn out(&self, o: &mut O) {
            let t = (self.b.is_some() as u8) << 1;
            o.put(t as u128, 2, false, true);
            o.put(self.a as u128, 6, false, true);
            if let Some(b) = self.b {
                o.put(b as u128, 11, false, true);
            }
            o.put((t ^ 2) as u128 >> 1, t as usize + 1, false, true);
            if t ^ 2 != 0 {
                o.put(self.c as u128, 5, false, true);
            }
            o.put(two(self.d as i128, 3), 3, false, true);
        }
        fn rd<R: Read + Seek>(r: &mut Reader<R>) -> Result<Self, DekuError> {
            Self::from_reader_with_ctx(r, ())
        }
        fn wr<W: Write + Seek>(&self, w: &mut Writer<W>) -> Result<(), DekuError> {
            self.to_writer(w, ())
        }
    }
    both!(TempLsb, "TempLsb");
}

// update
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct Upd {
    #[deku(update = "self.b.wrapping_add(self.c as u8)")]
    a: u8,
    b: u8,
    #[deku(update = "self.a as u16 * 3")]
    c: u16,
    #[deku(update = "self.c")]
    d: u8,
    #[deku(update = "self.c & 0xff", skip)]
    e: u8,
    f: u16,
}
/// every field that declares it, in order, and no other
#[export_name = "h_update_struct"]
pub extern "C" fn update_struct() {
    let was = Upd { a: u8_(), b: u8_(), c: u16_(), d: u8_(), e: u8_(), f: u16_() };
    let mut v = was.clone();
    let r = v.update();
    let a = was.b.wrapping_add(was.c as u8);
    let c = a as u16 * 3;
    ck!(v.a == a && v.c == c, "a field that declares it is computed");
    ck!(v.b == was.b && v.f == was.f, "a field that does not is left alone");
    ck!(r.is_ok() == (c <= 255), "a value that does not fit is refused");
    if r.is_ok() {
        reach!("an update succeeds");
        ck!(v.d == c as u8 && v.e == c as u8, "a field that declares it is converted");
    } else {
        reach!("an update fails");
        ck!(v.d == was.d && v.e == was.e, "what comes after the failure is left alone");
    }
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct UpdTuple(#[deku(update = "self.2.len()")] u8, u8, [u8; 3], #[deku(update = "self.0 as u16 + self.1 as u16")] u16);
#[export_name = "h_update_tuple"]
pub extern "C" fn update_tuple() {
    let was = UpdTuple(u8_(), u8_(), bytes(), u16_());
    let mut v = was.clone();
    ck!(v.update().is_ok(), "a tuple is updated");
    ck!(v == UpdTuple(3, was.1, was.2, was.1 as u16 + 3), "the fields of a tuple that declare it are computed");
}
#[deku_derive(DekuRead, DekuWrite)]
#[derive(PartialEq, Clone)]
pub struct UpdTemp(#[deku(temp, temp_value = "*field_1")] u8, u8, #[deku(update = "self.0 ^ 0x0f")] u8, u8);
#[export_name = "h_update_temp"]
pub extern "C" fn update_temp() {
    let was = UpdTemp(u8_(), u8_(), u8_());
    let mut v = was.clone();
    ck!(v.update().is_ok(), "a tuple with a temporary field is updated");
    ck!(v == UpdTemp(was.0, was.0 ^ 0x0f, was.2), "the field after a temporary one is computed");
}
#[deku_derive(DekuRead, DekuWrite)]
#[derive(PartialEq, Clone)]
#[deku(id_type = "u8")]
pub enum UpdTempEnum {
    #[deku(id = 1)]
    A(
        #[deku(temp, temp_value = "1")] u8,
        #[deku(temp, temp_value = "2")] u8,
        u8,
        #[deku(update = "*field_2 ^ 0x0f")] u8,
        #[deku(update = "*field_3 ^ 0xf0")] u8,
        u8,
    ),
    #[deku(id_pat = "_")]
    B {
        id: u8,
        #[deku(temp, temp_value = "*id")]
        t: u8,
        #[deku(update = "*id ^ 0x0f")]
        x: u8,
    },
}
#[export_name = "h_update_temp_enum"]
pub extern "C" fn update_temp_enum() {
    if pick(0, 1) == 0 {
        let (a, b, c, d) = (u8_(), u8_(), u8_(), u8_());
        let mut v = UpdTempEnum::A(a, b, c, d);
        ck!(v.update().is_ok(), "a variant with temporary fields is updated");
        ck!(v == UpdTempEnum::A(a, a ^ 0x0f, a ^ 0xff, d), "the fields after temporary ones are computed");
    } else {
        let (id, x) = (u8_(), u8_());
        let mut v = UpdTempEnum::B { id, x };
        ck!(v.update().is_ok(), "a named variant with a temporary field is updated");
        ck!(v == UpdTempEnum::B { id, x: id ^ 0x0f }, "the named field after a temporary one is computed");
    }
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(id_type = "u8")]
pub enum UpdEnum {
    #[deku(id = 1)]
    A {
        #[deku(update = "*b as u16 + 1")]
        a: u8,
        b: u8,
        #[deku(update = "a.wrapping_mul(2)")]
        c: u8,
    },
    #[deku(id = 2)]
    B(u8, #[deku(update = "!*field_0")] u8),
    #[deku(id = 3)]
    C(u8),
    #[deku(id_pat = "_")]
    D { id: u8, #[deku(update = "*id")] x: u8 },
}
#[export_name = "h_update_enum"]
pub extern "C" fn update_enum() {
    let was = match pick(0, 3) {
        0 => UpdEnum::A { a: u8_(), b: u8_(), c: u8_() },
        1 => UpdEnum::B(u8_(), u8_()),
        2 => UpdEnum::C(u8_()),
        _ => UpdEnum::D { id: u8_(), x: u8_() },
    };
    let mut v = was.clone();
    let r = v.update();
    let want = match was {
        UpdEnum::A { b: 255, .. } => {
            reach!("a variant is refused");
            ck!(r.is_err() && v == was, "a variant whose value does not fit is refused");
            return;
        }
        UpdEnum::A { b, .. } => UpdEnum::A { a: b + 1, b, c: (b + 1).wrapping_mul(2) },
        UpdEnum::B(a, _) => UpdEnum::B(a, !a),
        UpdEnum::C(a) => UpdEnum::C(a),
        UpdEnum::D { id, .. } => UpdEnum::D { id, x: id },
    };
    ck!(r.is_ok(), "a variant is updated");
    ck!(v == want, "the fields of a variant that declare it are computed");
}
#[cfg(feature = "cfg_alloc_any")]
mod heap_ {
    use super::*;
    #[derive(DekuRead, DekuWrite, PartialEq, Clone)]
    #[deku(endian = "big")]
    pub struct UpdVec {
        #[deku(update = "self.items.len()")]
        n: u8,
        #[deku(update = "self.items.iter().map(|x| *x as u32).sum::<u32>()")]
        sum: u32,
        #[deku(count = "n")]
        items: Vec<u16>,
    }
    /// a count that does not fit its field is refused
    #[export_name = "h_update_vec"]
    pub extern "C" fn update_vec() {
        let n = [0, 1, 2, 255, 256][pick(0, 4)];
        let mut items = vec![0u16; n];
        for x in items.iter_mut().take(2) {
            *x = u16_();
        }
        let sum = items.iter().take(2).map(|x| *x as u32).sum::<u32>();
        let mut v = UpdVec { n: u8_(), sum: u32_(), items: items.clone() };
        let was = (v.n, v.sum);
        let r = v.update();
        ck!(v.items == items, "the elements are left alone");
        if n < 256 {
            ck!(r.is_ok() && v.n as usize == n && v.sum == sum, "count and sum are computed");
        } else {
            ck!(r.is_err() && (v.n, v.sum) == was, "a count that does not fit is refused");
        }
    }
    /// expressions of collections see what comes before them
    #[deku_derive(DekuRead, DekuWrite)]
    #[derive(PartialEq)]
    pub struct TempVec {
        #[deku(temp, temp_value = "items.len() as u8")]
        n: u8,
        k: u8,
        #[deku(count = "n", ctx = "*k")]
        items: Vec<Xor>,
        #[deku(until = "|x: &u8| *x == *k || deku::byte_offset == 200")]
        tail: Vec<u8>,
        #[deku(count = "(*k & 1) as usize + deku::byte_offset / 100", cond = "items.len() == 1")]
        more: Vec<u8>,
        #[deku(skip, default = "vec![*k; items.len()]")]
        made: Vec<u8>,
    }
    #[derive(DekuRead, DekuWrite, PartialEq)]
    #[deku(ctx = "k: u8")]
    pub struct Xor(#[deku(map = "|x: u8| -> Result<_, DekuError> { Ok(x ^ k) }", writer = "(field_0 ^ k).to_writer(deku::writer, ())")] u8);
    attr! { TempVec, "TempVec", 6,
        {
            let k = u8_();
            let mut items = Vec::new();
            for _ in 0..pick(0, 3) { items.push(Xor(u8_())); }
            let mut tail = Vec::new();
            for _ in 0..pick(0, 2) { tail.push(u8_()); }
            TempVec { k, items, tail, more: vec![u8_(); pick(0, 1)], made: vec![1; pick(0, 1)] }
        },
        |c| {
            let n = c.u8()?;
            let k = c.u8()?;
            let mut items = Vec::new();
            for _ in 0..n { items.push(Xor(c.u8()? ^ k)); }
            let mut tail = Vec::new();
            loop {
                let x = c.u8()?;
                tail.push(x);
                if x == k { break }
            }
            let mut more = Vec::new();
            if items.len() == 1 && k & 1 == 1 { more.push(c.u8()?) }
            let made = vec![k; items.len()];
            Ok(TempVec { k, items, tail, more, made })
        },
        |v, o| {
            o.u8(v.items.len() as u8);
            o.u8(v.k);
            for x in &v.items { o.u8(x.0 ^ v.k) }
            for x in &v.tail { o.u8(*x) }
            for x in &v.more { o.u8(*x) }
        },
        |d| small(d, 0, 4)
    }
}
/// what an attribute's arguments are made of: byte orders by name, sizes of types
#[no_mangle]
pub extern "C" fn h_ctx_args() {
    use core::str::FromStr;
    let d: [u8; 8] = bytes();
    let n = pick(0, 8);
    for x in &d[..n] {
        assume(*x < 0x80);
    }
    let d = &d[..n];
    // valid, being ASCII
    let s = unsafe { core::str::from_utf8_unchecked(d) };
    let want = if d == b"little" { Some(Endian::Little) } else if d == b"big" { Some(Endian::Big) } else { None };
    let got = Endian::from_str(s).ok();
    if let Some(e) = got {
        reach!("an order by name");
        ck!(e.is_le() == (e == Endian::Little) && e.is_be() == (e == Endian::Big), "an order is itself");
        ck!(e.is_le() != e.is_be(), "there are two orders");
    }
    ck!(got == want, "a name stands for its byte order and nothing else for any");
    ck!(Endian::default() == Endian::new() && Endian::new() == Endian::Little, "the default is the order of the target");
    ck!(Order::default() == Order::Msb0, "the default is the high bit first");
    ck!(BitSize::of::<u8>() == BitSize(8) && BitSize::of::<[u32; 3]>() == BitSize(96) && BitSize::of::<()>() == BitSize(0), "a type has the bits of its bytes");
    ck!(BitSize::of_val(d) == BitSize(8 * n) && BitSize::of_val(&0u128) == BitSize(128), "a value has the bits of its bytes");
    obs(n as u64);
}

// ---------------------------------------------------------------- many contexts
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(ctx = "k: u8, l: u16, m: u32, n: u64, o: i8, p: bool, q: u8")]
pub struct Seven {
    #[deku(skip, default = "k")]
    a: u8,
    #[deku(skip, default = "l")]
    b: u16,
    #[deku(skip, default = "m")]
    c: u32,
    #[deku(skip, default = "n")]
    d: u64,
    #[deku(skip, default = "o")]
    e: i8,
    #[deku(cond = "p && q != k", default = "q")]
    g: u8,
}
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct GivesSeven {
    a: u8,
    #[deku(endian = "big")]
    b: u16,
    #[deku(endian = "big")]
    c: u32,
    #[deku(endian = "big")]
    d: u64,
    e: i8,
    g: u8,
    #[deku(ctx = "*a, *b, *c, *d, *e, *e < 0, *g")]
    s: Seven,
    #[deku(ctx = "*g, *b + 0, !*c, s.d ^ 1, s.e, s.e >= 0, *a")]
    t: [Seven; 2],
}
#[export_name = "h_ctx_many"]
pub extern "C" fn ctx_many() {
    let mut d: [u8; 20] = bytes();
    // the sum of b stays in its type
    let mut c = Cur::new(&d);
    let (Ok(a), Ok(b), Ok(x), Ok(y), Ok(e), Ok(g)) =
        (c.u(8, true, false), c.u(16, true, false), c.u(32, true, false), c.u(64, true, false), c.i(8, true, false), c.u(8, true, false))
    else {
        return;
    };
    let Ok(((rest, _), v)) = GivesSeven::from_bytes((&d, 0)) else {
        fail!("an input is accepted");
        return;
    };
    reach!("seven contexts");
    let mut p = 17;
    let s = &v.s;
    let mut ok = s.a as u128 == a && s.b as u128 == b && s.c as u128 == x && s.d as u128 == y && s.e as i128 == e;
    let mut at = |here: bool, other: u128| {
        if here {
            p += 1;
            d[p - 1] as u128
        } else {
            other
        }
    };
    ok &= s.g as u128 == at(e < 0 && g != a, g);
    for t in &v.t {
        ok &= t.a as u128 == g && t.b as u128 == b && t.c == !(x as u32) && t.d as u128 == y ^ 1 && t.e as i128 == e;
        ok &= t.g as u128 == at(e >= 0 && g != a, a);
    }
    ck!(ok, "every one of many contexts reaches its place");
    ck!(rest.len() == 20 - p, "what many contexts decide takes its bytes");
    d[0] = 0;
}

// ---------------------------------------------------------------- offsets behind a first field of every size
#[cfg(feature = "cfg_bits_any")]
mod leads {
    use super::*;
    macro_rules! leads { ($d:meta, [$t:ident $ta:meta] [$u:ident $ua:meta] [$x:ident $xa:meta] [$y:ident $ya:meta]; $($n:ident $name:literal $w:tt $e:literal $o:literal $be:literal $lsb:literal;)*) => {$(
        #[$d]
        #[derive(PartialEq)]
        #[deku(endian = $e, bit_order = $o)]
        pub struct $n {
            #[deku(bits = $w)]
            a: u64,
            #[$ta]
            $t: u8,
            #[deku(bits = 5)]
            b: u8,
            #[$ua]
            $u: u8,
            c: u16,
            #[$xa]
            $x: u8,
            #[deku(bits = 11)]
            d: u16,
            #[$ya]
            $y: u8,
        }
        attr! { $n, $name, ($w + 68) / 8; lsb $lsb,
            $n { a: sy($w) as u64, $t: u8_(), b: sy(5) as u8, $u: u8_(), c: u16_(), $x: u8_(), d: sy(11) as u16, $y: u8_() },
            |c| {
                let a = c.u($w, $be, $lsb)? as u64;
                let n = c.pos as u8;
                let t = c.u(8, true, $lsb)? as u8 ^ n;
                let b = c.u(5, true, $lsb)? as u8;
                let n = c.pos / 8;
                let u = c.u(8, true, $lsb)? as u8 ^ n as u8;
                let e = c.u(16, $be, $lsb)? as u16;
                let n = c.pos as u8;
                let x = c.u(8, true, $lsb)? as u8 ^ n;
                let d = c.u(11, $be, $lsb)? as u16;
                let n = c.pos as u8;
                let y = c.u(8, true, $lsb)? as u8 ^ n;
                Ok($n { a, $t: t, b, $u: u, c: e, $x: x, d, $y: y })
            },
            |v, o| {
                o.put(v.a as u128, $w, $be, $lsb);
                o.put((v.$t ^ o.pos as u8) as u128, 8, true, $lsb);
                o.put(v.b as u128, 5, true, $lsb);
                o.put((v.$u ^ (o.pos / 8) as u8) as u128, 8, true, $lsb);
                o.put(v.c as u128, 16, $be, $lsb);
                o.put((v.$x ^ o.pos as u8) as u128, 8, true, $lsb);
                o.put(v.d as u128, 11, $be, $lsb);
                o.put((v.$y ^ o.pos as u8) as u128, 8, true, $lsb);
            }
        }
    )*} }
    fn rd_at<R: Read + Seek, const LSB: bool>(r: &mut Reader<R>, n: usize) -> Result<u8, DekuError> {
        Ok(u8::from_reader_with_ctx(r, if LSB { Order::Lsb0 } else { Order::Msb0 })? ^ n as u8)
    }
    fn wr_at<W: Write + Seek, const LSB: bool>(w: &mut Writer<W>, v: u8, n: usize) -> Result<(), DekuError> {
        (v ^ n as u8).to_writer(w, if LSB { Order::Lsb0 } else { Order::Msb0 })
    }
    leads! {derive(DekuRead, DekuWrite),
        [t deku(reader = "rd_at::<_, false>(deku::reader, deku::bit_offset)", writer = "wr_at::<_, false>(deku::writer, *t, deku::bit_offset)")]
        [u deku(reader = "rd_at::<_, false>(deku::reader, deku::byte_offset)", writer = "wr_at::<_, false>(deku::writer, *u, deku::byte_offset)")]
        [x deku(reader = "rd_at::<_, false>(deku::reader, deku::bit_offset)", writer = "wr_at::<_, false>(deku::writer, *x, deku::bit_offset)")]
        [y deku(reader = "rd_at::<_, false>(deku::reader, deku::bit_offset)", writer = "wr_at::<_, false>(deku::writer, *y, deku::bit_offset)")];
        LeadM1 "LeadM1" 1 "big" "msb" true false;
        LeadM3 "LeadM3" 3 "big" "msb" true false;
        LeadM7 "LeadM7" 7 "big" "msb" true false;
        LeadM8 "LeadM8" 8 "big" "msb" true false;
        LeadM9 "LeadM9" 9 "big" "msb" true false;
        LeadM11 "LeadM11" 11 "big" "msb" true false;
        LeadM13 "LeadM13" 13 "big" "msb" true false;
        LeadM16 "LeadM16" 16 "big" "msb" true false;
        LeadM17 "LeadM17" 17 "big" "msb" true false;
        LeadM24 "LeadM24" 24 "big" "msb" true false;
        LeadM27 "LeadM27" 27 "big" "msb" true false;
        LeadM32 "LeadM32" 32 "big" "msb" true false;
        LeadM33 "LeadM33" 33 "big" "msb" true false;
        LeadM40 "LeadM40" 40 "big" "msb" true false;
        LeadM47 "LeadM47" 47 "big" "msb" true false;
        LeadM56 "LeadM56" 56 "big" "msb" true false;
        LeadM63 "LeadM63" 63 "big" "msb" true false;
        LeadM64 "LeadM64" 64 "big" "msb" true false;
    }
    leads! {derive(DekuRead, DekuWrite),
        [t deku(reader = "rd_at::<_, true>(deku::reader, deku::bit_offset)", writer = "wr_at::<_, true>(deku::writer, *t, deku::bit_offset)")]
        [u deku(reader = "rd_at::<_, true>(deku::reader, deku::byte_offset)", writer = "wr_at::<_, true>(deku::writer, *u, deku::byte_offset)")]
        [x deku(reader = "rd_at::<_, true>(deku::reader, deku::bit_offset)", writer = "wr_at::<_, true>(deku::writer, *x, deku::bit_offset)")]
        [y deku(reader = "rd_at::<_, true>(deku::reader, deku::bit_offset)", writer = "wr_at::<_, true>(deku::writer, *y, deku::bit_offset)")];
        LeadL1 "LeadL1" 1 "little" "lsb" false true;
        LeadL3 "LeadL3" 3 "little" "lsb" false true;
        LeadL7 "LeadL7" 7 "little" "lsb" false true;
        LeadL8 "LeadL8" 8 "little" "lsb" false true;
        LeadL9 "LeadL9" 9 "little" "lsb" false true;
        LeadL11 "LeadL11" 11 "little" "lsb" false true;
        LeadL13 "LeadL13" 13 "little" "lsb" false true;
        LeadL16 "LeadL16" 16 "little" "lsb" false true;
        LeadL17 "LeadL17" 17 "little" "lsb" false true;
        LeadL24 "LeadL24" 24 "little" "lsb" false true;
        LeadL27 "LeadL27" 27 "little" "lsb" false true;
        LeadL32 "LeadL32" 32 "little" "lsb" false true;
        LeadL33 "LeadL33" 33 "little" "lsb" false true;
        LeadL40 "LeadL40" 40 "little" "lsb" false true;
        LeadL47 "LeadL47" 47 "little" "lsb" false true;
        LeadL56 "LeadL56" 56 "little" "lsb" false true;
        LeadL63 "LeadL63" 63 "little" "lsb" false true;
        LeadL64 "LeadL64" 64 "little" "lsb" false true;
    }
    /// the bit order changes between bytes
    #[derive(DekuRead, DekuWrite, PartialEq)]
    #[deku(endian = "little")]
    pub struct Mixed {
        #[deku(bits = 3)]
        a: u8,
        #[deku(bits = 5)]
        b: u8,
        #[deku(bits = 12, bit_order = "lsb")]
        c: u16,
        #[deku(bits = 4, bit_order = "lsb")]
        d: u8,
        #[deku(reader = "rd_at::<_, false>(deku::reader, deku::bit_offset)", writer = "wr_at::<_, false>(deku::writer, *t, deku::bit_offset)")]
        t: u8,
        #[deku(bits = 20, bit_order = "lsb")]
        e: u32,
        #[deku(bits = 4, bit_order = "lsb")]
        f: u8,
        #[deku(bits = 16, endian = "big")]
        g: u32,
        #[deku(bits = 9, bit_order = "lsb")]
        h: u16,
        #[deku(bits = 7, bit_order = "lsb")]
        i: u8,
        #[deku(bit_order = "lsb")]
        j: u16,
        #[deku(reader = "rd_at::<_, true>(deku::reader, deku::byte_offset)", writer = "wr_at::<_, true>(deku::writer, *u, deku::byte_offset)")]
        u: u8,
    }
    #[export_name = "h_mixed"]
    pub extern "C" fn mixed() {
        let d: [u8; 16] = bytes();
        let mut c = Cur::new(&d);
        let mut u = |n, be, lsb| c.u(n, be, lsb).unwrap_or(0);
        let want = Mixed {
            a: u(3, true, false) as u8,
            b: u(5, true, false) as u8,
            c: u(12, false, true) as u16,
            d: u(4, false, true) as u8,
            t: u(8, true, false) as u8 ^ 24,
            e: u(20, false, true) as u32,
            f: u(4, false, true) as u8,
            g: u(16, true, false) as u32,
            h: u(9, false, true) as u16,
            i: u(7, false, true) as u8,
            j: u(16, false, true) as u16,
            u: u(8, true, true) as u8 ^ 13,
        };
        let Ok(((rest, n), v)) = Mixed::from_bytes((&d, 0)) else {
            fail!("orders that change between bytes are read");
            return;
        };
        reach!("orders that change between bytes");
        ck!(v == want, "orders that change between bytes have no effect on each other");
        ck!(rest.len() == 2 && n == 0, "orders that change between bytes take their bits");
        let mut o = [0; 16];
        let w = v.to_slice(&mut o);
        ck!(matches!(w, Ok(14)) && o[..14] == d[..14], "orders that change between bytes are written as they are read");
    }
}
