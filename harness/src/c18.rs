//! C18: values are built and dropped exactly once, memory stays sound.
use crate::ops::*;
use crate::*;
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use deku::no_std_io::ErrorKind;
use std::borrow::Cow;
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::sync::Arc;

static BUILT: AtomicUsize = AtomicUsize::new(0);
static DROPPED: AtomicUsize = AtomicUsize::new(0);
fn alive() -> usize {
    BUILT.load(Relaxed).wrapping_sub(DROPPED.load(Relaxed))
}
/// an element that owns memory; some bytes are refused after it is built
#[derive(PartialEq, Eq, Hash)]
pub struct D(Box<u8>);
impl D {
    fn new(x: u8) -> D {
        BUILT.fetch_add(1, Relaxed);
        D(Box::new(x))
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        D::new(*self.0)
    }
}
impl Default for D {
    fn default() -> D {
        D::new(0)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        DROPPED.fetch_add(1, Relaxed);
    }
}
impl<'a, Ctx: Copy> DekuReader<'a, Ctx> for D {
    fn from_reader_with_ctx<R: Read + Seek>(r: &mut Reader<R>, _: Ctx) -> Result<D, DekuError> {
        let d = D::new(u8::from_reader_with_ctx(r, ())?);
        if *d.0 >= 0xf0 {
            return Err(DekuError::InvalidParam("refused".into()));
        }
        Ok(d)
    }
}
impl<Ctx: Copy> DekuWriter<Ctx> for D {
    fn to_writer<W: Write + Seek>(&self, w: &mut Writer<W>, _: Ctx) -> Result<(), DekuError> {
        if *self.0 >= 0xf0 {
            return Err(DekuError::InvalidParam("refused".into()));
        }
        self.0.to_writer(w, ())
    }
}
/// the same without size
#[derive(PartialEq, Eq, Hash)]
pub struct Z;
impl Drop for Z {
    fn drop(&mut self) {
        DROPPED.fetch_add(1, Relaxed);
    }
}
impl<'a, Ctx: Copy> DekuReader<'a, Ctx> for Z {
    fn from_reader_with_ctx<R: Read + Seek>(r: &mut Reader<R>, _: Ctx) -> Result<Z, DekuError> {
        let x = u8::from_reader_with_ctx(r, ())?;
        BUILT.fetch_add(1, Relaxed);
        let z = Z;
        if x >= 0xf0 {
            return Err(DekuError::InvalidParam("refused".into()));
        }
        Ok(z)
    }
}

/// how many elements a value holds
trait Holds {
    fn n(&self) -> usize;
}
impl Holds for D {
    fn n(&self) -> usize {
        1
    }
}
impl Holds for Z {
    fn n(&self) -> usize {
        1
    }
}
impl Holds for u8 {
    fn n(&self) -> usize {
        0
    }
}
impl<T: Holds, const N: usize> Holds for [T; N] {
    fn n(&self) -> usize {
        self.iter().map(T::n).sum()
    }
}
impl<T: Holds> Holds for [T] {
    fn n(&self) -> usize {
        self.iter().map(T::n).sum()
    }
}
impl<T: Holds> Holds for Vec<T> {
    fn n(&self) -> usize {
        self[..].n()
    }
}
impl<T: Holds + ?Sized> Holds for Box<T> {
    fn n(&self) -> usize {
        (**self).n()
    }
}
impl<T: Holds + ?Sized> Holds for Arc<T> {
    fn n(&self) -> usize {
        (**self).n()
    }
}
impl<T: Holds> Holds for Option<T> {
    fn n(&self) -> usize {
        self.as_ref().map_or(0, T::n)
    }
}
impl<T: Holds + Clone> Holds for Cow<'_, T> {
    fn n(&self) -> usize {
        (**self).n()
    }
}
impl<A: Holds, B: Holds> Holds for (A, B) {
    fn n(&self) -> usize {
        self.0.n() + self.1.n()
    }
}
impl<A: Holds, B: Holds, C: Holds> Holds for (A, B, C) {
    fn n(&self) -> usize {
        self.0.n() + self.1.n() + self.2.n()
    }
}
impl<A: Holds, B: Holds> Holds for HashMap<A, B, BH> {
    fn n(&self) -> usize {
        self.iter().map(|(a, b)| a.n() + b.n()).sum()
    }
}
impl<A: Holds> Holds for HashSet<A, BH> {
    fn n(&self) -> usize {
        self.iter().map(A::n).sum()
    }
}
impl Holds for CString {
    fn n(&self) -> usize {
        0
    }
}
const NONE: Fault = Fault { at: usize::MAX, kind: None, pieces: 0, intr: usize::MAX, busy: 0 };
/// read from any bytes, cut off or failing anywhere
fn reading<T: Holds, Ctx>(max: usize, part: fn(&mut [u8]), ctx: Ctx)
where
    T: DekuReader<'static, Ctx>,
{
    let start = heap();
    let mut d: [u8; CAP] = bytes();
    let k = if cfg!(feature = "cfg_bits_any") { pick(0, 1) * 3 } else { 0 };
    part(&mut d[..max]);
    let s = behind(&d[..max], k, false, 0);
    let n = pick(0, s.n);
    let f = if pick(0, 1) == 0 { NONE } else { Fault { at: n, kind: Some(ErrorKind::Other), ..NONE } };
    let len = if f.kind.is_some() { s.n } else { n };
    let mut src = BadSrc::new(&s.d[..len], f);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, false).is_err() {
        return;
    }
    let got = T::from_reader_with_ctx(&mut r, ctx);
    match got {
        Ok(v) => {
            reach!("a value is read");
            obs(v.n() as u64);
            ck!(alive() == v.n(), "what is alive is what the value holds");
            drop(v);
        }
        Err(e) => {
            reach!("an input is refused");
            ck!(alive() == 0, "after a failure nothing is alive");
            drop(e);
        }
    }
    ck!(alive() == 0, "every element is dropped exactly once");
    drop(r);
    ck!(heap() == start, "all memory is returned");
}
/// the same for a type that is read with a context made on the spot
macro_rules! reads { ($($n:literal $t:ty, $max:expr, $part:expr, $ctx:expr;)*) => {$(
    const _: () = {
        #[export_name = concat!("h_read_", $n)]
        pub extern "C" fn h() { reading::<$t, _>($max, $part, $ctx) }
    };
)*} }
type Lim<T> = deku::ctx::Limit<T, fn(&T) -> bool>;
fn count<T>(n: usize) -> Lim<T> {
    Lim::new_count(n)
}
fn small_count<T>() -> Lim<T> {
    Lim::new_count(pick(0, 4))
}
fn stop(d: &D) -> bool {
    *d.0 & 7 == 5
}
fn no(_: &mut [u8]) {}
reads! {
    "arr0" [D; 0], 1, no, ();
    "arr1" [D; 1], 2, no, ();
    "arr5" [D; 5], 6, no, ();
    "arr20" [D; 20], 21, no, ();
    "arr_z" [Z; 5], 6, no, ();
    "arr_z33" [Z; 33], 34, no, ();
    "arr_deep" [[[D; 2]; 2]; 5], 21, no, ();
    "arr_arr" [[D; 2]; 3], 6, no, ();
    "arr_box" [Box<D>; 3], 4, no, ();
    "arr_tuple" [(D, u8, Z); 2], 6, no, ();
    "arr_opt" [Option<[D; 2]>; 2], 4, no, ();
    "box" Box<D>, 2, no, ();
    "box_arr" Box<[D; 3]>, 3, no, ();
    "arc" Arc<D>, 2, no, ();
    "arc_arr" Arc<[D; 2]>, 2, no, ();
    "cow" Cow<'static, D>, 2, no, ();
    "opt" Option<D>, 2, no, ();
    "tuple" (D, u8, D), 3, no, ();
    "tuple_box" (Box<D>, Arc<D>, [D; 2]), 4, no, ();
    "vec_count" Vec<D>, 5, no, (small_count::<D>(), ());
    "vec_many" Vec<D>, 3, no, (count::<D>(100_000), ());
    "vec_z" Vec<Z>, 5, no, (small_count::<Z>(), ());
    "vec_until" Vec<D>, 4, no, (Lim::new_until(stop as fn(&D) -> bool), ());
    "vec_bytes" Vec<D>, 4, no, (Lim::<D>::new_byte_size(ByteSize(pick(0, 4))), ());
    "vec_end" Vec<D>, 3, no, (Lim::<D>::end(), ());
    "vec_arr" Vec<[D; 2]>, 5, no, (small_count::<[D; 2]>(), ());
    "vec_vec" Vec<Option<D>>, 3, no, (small_count::<Option<D>>(), ());
    "boxed" Box<[D]>, 4, no, (small_count::<D>(), ());
    "boxed_end" Box<[D]>, 3, no, (Lim::<D>::end(), ());
    "arcs" Arc<[D]>, 4, no, (small_count::<D>(), ());
    "arcs_until" Arc<[D]>, 4, no, (Lim::new_until(stop as fn(&D) -> bool), ());
    "bytes" Vec<u8>, 4, no, ReadExact([0, 1, 3, 4, 5, 100_000][pick(0, 5)]);
    "cstr" CString, 3, no, ();
    "cstr_n" CString, 3, no, ByteSize(pick(0, 4));
}
#[cfg(feature = "cfg_bits_any")]
reads! {
    "vec_bits" Vec<D>, 4, no, (Lim::<D>::new_bit_size(BitSize([0, 8, 12, 24, 32][pick(0, 4)])), ());
    "u128" Bits3, 3, no, ();
}
/// keys that are met again drop what they were given before
type Map = HashMap<D, D, BH>;
type Set = HashSet<D, BH>;
fn few(d: &mut [u8]) {
    for x in d.iter_mut() {
        let v = [1u8, 2, 0xff][pick(0, 2)];
        assume(*x == v);
        *x = v;
    }
}
fn keys(d: &mut [u8]) {
    for i in (0..d.len()).step_by(2) {
        only(d, i, &[1, 2, 0xff])
    }
}
reads! {
    "map" Map, 4, keys, (Limit::<(D, D), fn(&(D, D)) -> bool>::new_count(pick(0, 2)), ());
    "map_end" Map, 4, keys, (Limit::<(D, D), fn(&(D, D)) -> bool>::end(), ());
    "set" Set, 3, few, (small_count::<D>(), ());
    "set_bytes" Set, 3, few, (Lim::<D>::new_byte_size(ByteSize(pick(0, 3))), ());
}
/// derived types
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct Fields {
    a: D,
    #[deku(assert = "*b.0 != 7")]
    b: D,
    n: u8,
    #[deku(cond = "*n & 1 == 1")]
    c: D,
    #[deku(count = "*n & 3")]
    d: Vec<D>,
    #[deku(skip, default = "d[0].clone()", cond = "d.len() == 2")]
    e: D,
    #[deku(map = "|x: D| -> Result<_, DekuError> { if *x.0 == 9 { Err(DekuError::Parse(\"nine\".into())) } else { Ok([x.clone(), x]) } }", writer = "f[0].to_writer(deku::writer, ())")]
    f: [D; 2],
    #[deku(magic = b"!")]
    g: Box<D>,
}
impl Holds for Fields {
    fn n(&self) -> usize {
        self.a.n() + self.b.n() + self.c.n() + self.d.n() + self.e.n() + self.f.n() + self.g.n()
    }
}
#[derive(DekuRead, DekuWrite, PartialEq)]
#[deku(id_type = "u8")]
pub enum Vars {
    #[deku(id = 1)]
    A(D, Vars1),
    #[deku(id = 2)]
    B { a: [D; 2], #[deku(assert_eq = "D::new(4)")] b: D },
    #[deku(id_pat = "3..=5")]
    C { id: u8, x: Option<D> },
    #[deku(id = 6)]
    E,
}
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct Vars1(D, #[deku(assert = "*field_1 < 100")] u8, D);
impl Holds for Vars {
    fn n(&self) -> usize {
        match self {
            Vars::A(..) | Vars::B { .. } => 3,
            Vars::C { .. } => 1,
            Vars::E => 0,
        }
    }
}
#[deku::deku_derive(DekuRead, DekuWrite)]
#[derive(PartialEq)]
pub struct Temps {
    #[deku(temp, temp_value = "a.clone()")]
    t: D,
    #[deku(cond = "*t.0 == 1")]
    a: D,
    #[deku(temp, temp_value = "vec![a.clone()]", count = "*t.0 & 1")]
    u: Vec<D>,
    #[deku(cond = "u.len() == 1")]
    b: D,
}
impl Holds for Temps {
    fn n(&self) -> usize {
        2
    }
}
#[cfg(feature = "cfg_bits_any")]
#[derive(DekuRead, DekuWrite, PartialEq)]
pub struct Bits3(#[deku(bits = 3)] u8, D, #[deku(bits = 4, count = "*field_0 & 1")] Vec<u8>, D);
#[cfg(feature = "cfg_bits_any")]
impl Holds for Bits3 {
    fn n(&self) -> usize {
        2
    }
}
reads! {
    "fields" Fields, 9, fields, ();
    "vars" Vars, 5, vars, ();
    "temps" Temps, 4, no, ();
}
fn fields(d: &mut [u8]) {
    split(d, 2, 3)
}
fn vars(d: &mut [u8]) {
    small(d, 0, 7)
}

/// writing to a sink that fails anywhere leaves the value as it was
fn writing<T: Holds, Ctx>(v: T, ctx: Ctx)
where
    T: DekuWriter<Ctx>,
{
    let n = v.n();
    let before = heap();
    let k = if cfg!(feature = "cfg_bits_any") { pick(0, 1) * 3 } else { 0 };
    let at = pick(0, 9);
    let mut s = BadSink::<16>::new(Fault { at, kind: Some(ErrorKind::Other), ..NONE }, true);
    let mut w = Writer::new(&mut s);
    let r = put(&mut w, 1, k, false).and_then(|_| v.to_writer(&mut w, ctx)).and_then(|_| w.finalize());
    match &r {
        Ok(_) => reach!("a value is written"),
        Err(_) => reach!("a write fails"),
    }
    obs(at as u64);
    ck!(alive() == n && v.n() == n, "the value is left as it was");
    drop(r);
    drop(w);
    ck!(heap() == before, "writing returns the memory it takes");
    drop(v);
    ck!(alive() == 0, "every element is dropped exactly once");
}
macro_rules! writes { ($($n:literal $v:expr, $ctx:expr;)*) => {$(
    const _: () = {
        #[export_name = concat!("h_write_", $n)]
        pub extern "C" fn h() { writing($v, $ctx) }
    };
)*} }
fn any() -> D {
    D::new(u8_())
}
fn some(n: usize) -> Vec<D> {
    let mut v = Vec::new();
    for _ in 0..pick(0, n) {
        v.push(any())
    }
    v
}
writes! {
    "arr" [any(), any(), any()], ();
    "tuple" (any(), 3u8, Box::new(any())), ();
    "opt" Some(any()), ();
    "vec" some(4), ();
    "boxed" some(3).into_boxed_slice(), ();
    "arcs" Arc::<[D]>::from(some(3)), ();
    "cow" Cow::<D>::Owned(any()), ();
    "fields" Fields { a: any(), b: any(), n: 0, c: any(), d: some(2), e: any(), f: [any(), any()], g: Box::new(any()) }, ();
    "vars" match pick(0, 3) {
        0 => Vars::A(any(), Vars1(any(), u8_(), any())),
        1 => Vars::B { a: [any(), any()], b: any() },
        2 => Vars::C { id: 4, x: Some(any()) },
        _ => Vars::E,
    }, ();
    "temps" Temps { a: any(), b: any() }, ();
    "cstr" CString::new(&b"abc"[..pick(0, 3)]).unwrap(), ();
}
/// all the other ways in and out
#[export_name = "h_ways_in"]
pub extern "C" fn ways_in() {
    let start = heap();
    let mut d: [u8; 6] = bytes();
    small(&mut d, 0, 7);
    let n = pick(0, 6);
    let d = &d[..n];
    {
        let a = Vars::from_bytes((d, 0));
        let b = Vars::try_from(d);
        let mut src = Src::new(d);
        let c = Vars::from_reader((&mut src, 0));
        let want = a.as_ref().map_or(0, |(_, v)| v.n()) + b.as_ref().map_or(0, |v| v.n()) + c.as_ref().map_or(0, |(_, v)| v.n());
        obs(want as u64);
        if b.is_ok() {
            reach!("a conversion succeeds");
        } else if a.is_ok() {
            reach!("a conversion leaves bytes over");
        }
        ck!(alive() == want, "what is alive is what the values hold");
    }
    ck!(alive() == 0, "every element is dropped exactly once");
    ck!(heap() == start, "all memory is returned");
}
#[export_name = "h_ways_out"]
pub extern "C" fn ways_out() {
    let start = heap();
    {
        let v = match pick(0, 2) {
            0 => Vars::A(any(), Vars1(any(), u8_(), any())),
            1 => Vars::B { a: [any(), any()], b: any() },
            _ => Vars::C { id: 4, x: Some(any()) },
        };
        let n = v.n();
        let mut buf = [0u8; 3];
        let a = v.to_bytes();
        let b = v.to_slice(&mut buf);
        #[cfg(feature = "cfg_bits_any")]
        let c = v.to_bits();
        obs(b.is_ok() as u64);
        ck!(alive() == n, "the value is left as it was");
        let e: Result<Vec<u8>, DekuError> = v.try_into();
        ck!(alive() == 0, "a conversion drops the value");
        ck!(e.is_ok() == a.is_ok(), "the ways out agree");
    }
    ck!(alive() == 0, "every element is dropped exactly once");
    ck!(heap() == start, "all memory is returned");
}

// ---------------------------------------------------------------- many elements
/// one arbitrary byte among many, or cut off somewhere
fn many<T: Holds, Ctx>(n: usize, ctx: Ctx)
where
    T: DekuReader<'static, Ctx>,
{
    let start = heap();
    let mut d = [0u8; 320];
    for (i, x) in d.iter_mut().enumerate() {
        *x = (i % 200) as u8;
    }
    let at = some_place(n);
    let cut = pick(0, 1) == 1;
    if !cut {
        d[at] = u8_();
    }
    let mut src = Src::new(&d[..if cut { at } else { n }]);
    let mut r = Reader::new(&mut src);
    let got = T::from_reader_with_ctx(&mut r, ctx);
    match got {
        Ok(v) => {
            reach!("many elements are read");
            ck!(!cut && d[at] < 0xf0, "an element among many is refused");
            ck!(alive() == v.n(), "all of many elements are alive");
            drop(v);
        }
        Err(e) => {
            reach!("one of many elements is refused");
            ck!(cut || d[at] >= 0xf0, "many elements are read");
            ck!(alive() == 0, "after a failure none of many is alive");
            drop(e);
        }
    }
    ck!(alive() == 0, "each of many elements is dropped exactly once");
    drop(r);
    ck!(heap() == start, "all memory of many elements is returned");
}
macro_rules! manies { ($($n:literal $t:ty, $m:expr, $ctx:expr;)*) => {$(
    const _: () = {
        #[export_name = concat!("h_many_", $n)]
        pub extern "C" fn h() { many::<$t, _>($m, $ctx) }
    };
)*} }
manies! {
    "arr" [D; 300], 300, ();
    "arr_z" [Z; 257], 257, ();
    "arr_deep" [[D; 20]; 15], 300, ();
    "arr_box" Box<[Box<D>; 260]>, 260, ();
    "vec" Vec<D>, 300, Lim::<D>::new_count(300);
    "vec_bytes" Vec<D>, 300, Lim::<D>::new_byte_size(ByteSize(300));
    "box" Box<[D]>, 300, (Lim::<D>::new_count(300), ());
    "arc" Arc<[D]>, 300, (Lim::<D>::new_count(300), ());
    "set" Set, 40, Lim::<D>::new_count(40);
}
