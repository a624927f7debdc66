//! C19: wrappers and standard containers add or lose nothing. What they read
//! and write is compared with reading and writing, one by one, what they hold.
use crate::ops::*;
use crate::*;
use core::hash::Hash;
use core::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use core::num::*;
use std::borrow::Cow;
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::sync::Arc;

type Rd<'a, 'b> = Reader<&'a mut Src<'b>>;
const BUF: usize = 48;
type Wr<'a> = Writer<&'a mut Sink<BUF>>;
type Res<T> = Result<T, DekuError>;

/// what is held, and the context it is read and written with
pub trait Case {
    type T: DekuReader<'static, Self::C> + DekuWriter<Self::C> + Clone + Eq + Hash + 'static;
    type C: Copy;
    /// the most bits of one element
    const BITS: usize;
    const LSB: bool = false;
    fn ctx() -> Self::C;
    fn gen() -> Self::T;
}
fn one<X: Case>(r: &mut Rd, c: X::C) -> Res<X::T> {
    X::T::from_reader_with_ctx(r, c)
}
macro_rules! case { ($($n:ident: $t:ty, $c:ty, $bits:expr, $lsb:expr, $ctx:expr, $gen:expr;)*) => {$(
    pub struct $n;
    impl Case for $n {
        type T = $t;
        type C = $c;
        const BITS: usize = $bits;
        const LSB: bool = $lsb;
        fn ctx() -> $c { $ctx }
        fn gen() -> $t { $gen }
    }
)*} }
fn either() -> Endian {
    if pick(0, 1) == 0 { Endian::Big } else { Endian::Little }
}
/// its meaning depends on its context, its size on its content
#[derive(DekuRead, DekuWrite, PartialEq, Eq, Hash, Clone)]
#[deku(ctx = "k: u8")]
pub struct Own {
    #[deku(bits = "1")]
    f: u8,
    #[deku(bits = "3", assert = "(*a ^ k) & 7 != 2")]
    a: u8,
    #[deku(cond = "*f == 1", bits = "5")]
    b: Option<u8>,
    #[deku(map = "|x: u8| -> Result<u8, DekuError> { Ok(x ^ k) }", writer = "(x ^ k).to_writer(deku::writer, ())")]
    x: u8,
}
case! {
    Byte: u8, (), 8, false, (), u8_();
    Word: u16, Endian, 16, false, either(), u16_();
    Bits11: u16, (Endian, BitSize), 11, false, (either(), BitSize(11)), u16_();
    Bytes3: u32, (Endian, ByteSize), 24, false, (either(), ByteSize(3)), u32_();
    Lsb9: i16, (Endian, BitSize, Order), 9, true, (either(), BitSize(9), Order::Lsb0), i16_();
    Owns: Own, u8, 17, false, u8_(), {
        let f = pick(0, 1) as u8;
        Own { f, a: u8_(), b: if f == 1 { Some(u8_()) } else { None }, x: u8_() }
    };
}
/// read the same bytes, whole or cut anywhere, both ways
fn reads<W: PartialEq>(bits: usize, lsb: bool, wrapped: impl Fn(&mut Rd) -> Res<W>, parts: impl Fn(&mut Rd) -> Res<W>) {
    let wide = bits >= 64 && bits % 8 == 0 && !cfg!(feature = "thorough");
    let k = if wide { pick(0, 1) * 5 } else { pick(0, 7) };
    let full = (bits + 7) / 8 + 2;
    let n = match k {
        0 | 3 | 5 if wide => [0, 1, full - 4, full - 3, full - 2, full - 1, full][pick(0, 6)],
        0 | 3 => pick(0, full),
        _ => full,
    };
    let d: [u8; 26] = bytes();
    let (mut s1, mut s2) = (Src::new(&d[..n]), Src::new(&d[..n]));
    let (mut a, mut b) = (Reader::new(&mut s1), Reader::new(&mut s2));
    if take(&mut a, k, lsb).and_then(|_| take(&mut b, k, lsb)).is_err() {
        return;
    }
    let (x, y) = (wrapped(&mut a), parts(&mut b));
    obs(a.bits_read as u64);
    match (x, y) {
        (Ok(x), Ok(y)) => {
            reach!("a container is read");
            ck!(x == y, "a container holds what its parts read");
            ck!(a.bits_read == b.bits_read, "a container takes the bits of its parts");
            let (p, q) = (take(&mut a, 5, lsb), take(&mut b, 5, lsb));
            ck!(p.is_ok() == q.is_ok() && a.bits_read == b.bits_read, "reading goes on at the same place");
            ck!(a.leftover.is_some() == b.leftover.is_some(), "the same bits are left over");
            ck!(a.rest() == b.rest(), "the bits left over have the same content");
            ck!(s1.pos == s2.pos, "the source is at the same place");
        }
        (Err(x), Err(y)) => {
            reach!("a container is refused");
            ck!(kind(&x) == kind(&y), "a container fails as its parts do");
        }
        _ => fail!("a container is read when its parts are"),
    }
}
/// write the same value both ways
fn writes_n(any: bool, lsb: bool, wrapped: impl Fn(&mut Wr) -> Res<()>, parts: impl Fn(&mut Wr) -> Res<()>) {
    let k = if any { pick(0, 7) } else { pick(0, 1) * 5 };
    let f = u8_() & mask(k) as u8;
    let (mut s1, mut s2) = (Sink::<BUF>::new(), Sink::<BUF>::new());
    let (mut a, mut b) = (Writer::new(&mut s1), Writer::new(&mut s2));
    ck!(put(&mut a, f, k, lsb).is_ok() && put(&mut b, f, k, lsb).is_ok(), "the bits in front are written");
    let (x, y) = (wrapped(&mut a), parts(&mut b));
    obs(a.bits_written as u64);
    match (x, y) {
        (Ok(()), Ok(())) => {
            reach!("a container is written");
            ck!(a.bits_written == b.bits_written, "a container is as long as its parts");
            ck!(put(&mut a, 1, 1, lsb).is_ok() && put(&mut b, 1, 1, lsb).is_ok(), "writing goes on");
            ck!(a.finalize().is_ok() && b.finalize().is_ok(), "writing ends");
            ck!(s1.len == s2.len, "a container writes the bytes of its parts");
            for i in 0..s1.len {
                ck!(s1.d[i] == s2.d[i], "a container writes the content of its parts");
            }
        }
        (Err(x), Err(y)) => {
            reach!("a container is not written");
            ck!(kind(&x) == kind(&y), "writing a container fails as writing its parts does");
        }
        _ => fail!("a container is written when its parts are"),
    }
}
fn writes(lsb: bool, wrapped: impl Fn(&mut Wr) -> Res<()>, parts: impl Fn(&mut Wr) -> Res<()>) {
    writes_n(true, lsb, wrapped, parts)
}
/// one function per container; `$x` is the element
macro_rules! boxes { ($($f:ident $g:ident: $w:ty, $n:expr, $r:ident $c:ident $read:expr, $gen:expr, $v:ident $o:ident $write:expr;)*) => {
$(
    fn $f<X: Case>() {
        let $c = X::ctx();
        reads::<$w>(X::BITS * $n, X::LSB, |r| <$w>::from_reader_with_ctx(r, $c), |$r| Ok($read));
    }
    fn $g<X: Case>() {
        let $c = X::ctx();
        let $v: $w = $gen;
        writes(X::LSB, |w| $v.to_writer(w, $c), |$o| { $write; Ok(()) });
    }
    mod $f {
        use super::*;
        cases!(concat!("h_rd_", stringify!($f)), $f);
        cases!(concat!("h_wr_", stringify!($f)), $g);
    }
)*} }
macro_rules! cases { ($p:expr, $f:ident) => {
    case1! { $p, $f: Byte Word Bits11 Bytes3 Lsb9 Owns }
} }
macro_rules! case1 { ($p:expr, $f:ident: $($x:ident)*) => {$(
    const _: () = {
        #[export_name = concat!($p, "_", stringify!($x))]
        pub extern "C" fn h() { super::$f::<$x>() }
    };
)*} }
type T<X> = <X as Case>::T;
fn g<X: Case>() -> T<X> {
    X::gen()
}
/// put a part
fn p<X: Case>(v: &T<X>, w: &mut Wr, c: X::C) -> Res<()> {
    v.to_writer(w, c)
}
boxes! {
    boxed w_boxed: Box<T<X>>, 1, r c Box::new(one::<X>(r, c)?), Box::new(g::<X>()), v w p::<X>(&v, w, c)?;
    arc w_arc: Arc<T<X>>, 1, r c Arc::new(one::<X>(r, c)?), Arc::new(g::<X>()), v w p::<X>(&v, w, c)?;
    cow w_cow: Cow<'static, T<X>>, 1, r c Cow::Owned(one::<X>(r, c)?), Cow::Owned(g::<X>()), v w p::<X>(&v, w, c)?;
    option w_option: Option<T<X>>, 1, r c Some(one::<X>(r, c)?), if pick(0, 1) == 0 { None } else { Some(g::<X>()) },
        v w if let Some(v) = &v { p::<X>(v, w, c)? };
    unit w_unit: (), 1, r c { let _ = (r, c); }, (), v w { let _ = (v, w); };
    tup1 w_tup1: (T<X>,), 1, r c (one::<X>(r, c)?,), (g::<X>(),), v w p::<X>(&v.0, w, c)?;
    tup2 w_tup2: (T<X>, T<X>), 2, r c (one::<X>(r, c)?, one::<X>(r, c)?), (g::<X>(), g::<X>()), v w { p::<X>(&v.0, w, c)?; p::<X>(&v.1, w, c)?; };
    tup3 w_tup3: (T<X>, (T<X>,), ()), 2, r c (one::<X>(r, c)?, (one::<X>(r, c)?,), ()), (g::<X>(), (g::<X>(),), ()),
        v w { p::<X>(&v.0, w, c)?; p::<X>(&v.1 .0, w, c)?; };
    arr0 w_arr0: [T<X>; 0], 1, r c { let _ = (r, c); [] }, [], v w { let _ = (&v, w); };
    arr1 w_arr1: [T<X>; 1], 1, r c [one::<X>(r, c)?], [g::<X>()], v w p::<X>(&v[0], w, c)?;
    arr3 w_arr3: [T<X>; 3], 3, r c [one::<X>(r, c)?, one::<X>(r, c)?, one::<X>(r, c)?], [g::<X>(), g::<X>(), g::<X>()],
        v w { p::<X>(&v[0], w, c)?; p::<X>(&v[1], w, c)?; p::<X>(&v[2], w, c)?; };
    nest w_nest: [[T<X>; 2]; 2], 4, r c [[one::<X>(r, c)?, one::<X>(r, c)?], [one::<X>(r, c)?, one::<X>(r, c)?]],
        [[g::<X>(), g::<X>()], [g::<X>(), g::<X>()]],
        v w { p::<X>(&v[0][0], w, c)?; p::<X>(&v[0][1], w, c)?; p::<X>(&v[1][0], w, c)?; p::<X>(&v[1][1], w, c)?; };
    deep w_deep: Option<Box<(Arc<T<X>>, [Cow<'static, T<X>>; 2])>>, 3,
        r c Some(Box::new((Arc::new(one::<X>(r, c)?), [Cow::Owned(one::<X>(r, c)?), Cow::Owned(one::<X>(r, c)?)]))),
        Some(Box::new((Arc::new(g::<X>()), [Cow::Owned(g::<X>()), Cow::Owned(g::<X>())]))),
        v w if let Some(v) = &v { p::<X>(&v.0, w, c)?; p::<X>(&v.1[0], w, c)?; p::<X>(&v.1[1], w, c)?; };
}
/// tuples of every length
macro_rules! tuples {
    (@ 4) => { bool };
    (@ 1) => { u16 };
    (@ 6) => { i16 };
    (@ 9) => { [u8; 2] };
    (@ $i:tt) => { u8 };
    (= 4) => { pick(0, 1) == 1 };
    (= 1) => { u16_() };
    (= 6) => { i16_() };
    (= 9) => { [u8_(), u8_()] };
    (= $i:tt) => { u8_() };
    ($($n:literal [$($i:tt)*];)*) => {$(
    const _: () = {
        type W = ($(tuples!(@ $i),)*);
        #[export_name = concat!("h_rd_tuple", $n)]
        pub extern "C" fn rd() {
            let c = either();
            reads::<W>(8 * 14, false, |r| W::from_reader_with_ctx(r, c), |r| Ok(($(<tuples!(@ $i)>::from_reader_with_ctx(r, c)?,)*)));
        }
        #[export_name = concat!("h_wr_tuple", $n)]
        pub extern "C" fn wr() {
            let c = either();
            let v: W = ($(tuples!(= $i),)*);
            writes(false, |w| v.to_writer(w, c), |w| { $(v.$i.to_writer(w, c)?;)* Ok(()) });
        }
    };
)*}; }
tuples! {
    "01" [0];
    "02" [0 1];
    "03" [0 1 2];
    "04" [0 1 2 3];
    "05" [0 1 2 3 4];
    "06" [0 1 2 3 4 5];
    "07" [0 1 2 3 4 5 6];
    "08" [0 1 2 3 4 5 6 7];
    "09" [0 1 2 3 4 5 6 7 8];
    "10" [0 1 2 3 4 5 6 7 8 9];
    "11" [0 1 2 3 4 5 6 7 8 9 10];
}
/// collections: how the elements come in is C10's; here what they are
fn upto<X: Case>(n: usize, r: &mut Rd, c: X::C) -> Res<Vec<T<X>>> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(one::<X>(r, c)?);
    }
    Ok(v)
}
fn rd_many<X: Case>() {
    let c = X::ctx();
    let n = pick(0, 3);
    let l = || Limit::<T<X>, fn(&T<X>) -> bool>::new_count(n);
    match pick(0, 3) {
        0 => reads::<Vec<T<X>>>(X::BITS * n, X::LSB, |r| Vec::from_reader_with_ctx(r, (l(), c)), |r| upto::<X>(n, r, c)),
        1 => reads::<Box<[T<X>]>>(X::BITS * n, X::LSB, |r| Box::from_reader_with_ctx(r, (l(), c)), |r| Ok(upto::<X>(n, r, c)?.into())),
        2 => reads::<Arc<[T<X>]>>(X::BITS * n, X::LSB, |r| Arc::from_reader_with_ctx(r, (l(), c)), |r| Ok(upto::<X>(n, r, c)?.into())),
        _ => {
            type O<X> = Option<(T<X>,)>;
            let l = || Limit::<O<X>, fn(&O<X>) -> bool>::new_count(n);
            reads::<Vec<O<X>>>(
                X::BITS * n,
                X::LSB,
                |r| Vec::from_reader_with_ctx(r, (l(), c)),
                |r| Ok(upto::<X>(n, r, c)?.into_iter().map(|x| Some((x,))).collect()),
            )
        }
    }
}
fn wr_many<X: Case>() {
    let c = X::ctx();
    let n = pick(0, 3);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(g::<X>());
    }
    let each = |w: &mut Wr| {
        for x in v.iter() {
            p::<X>(x, w, c)?;
        }
        Ok(())
    };
    match pick(0, 6) {
        0 => writes(X::LSB, |w| v.to_writer(w, c), each),
        1 => writes(X::LSB, |w| DekuWriter::to_writer(&v[..], w, c), each),
        2 => writes(X::LSB, |w| DekuWriter::to_writer(&&v[..], w, c), each),
        3 => {
            let b: Box<[T<X>]> = v.clone().into();
            writes(X::LSB, |w| b.to_writer(w, c), each)
        }
        4 => {
            let b: Arc<[T<X>]> = v.clone().into();
            writes(X::LSB, |w| b.to_writer(w, c), each)
        }
        5 => {
            if n > 0 {
                writes(X::LSB, |w| DekuWriter::to_writer(&&v[0], w, c), |w| p::<X>(&v[0], w, c))
            }
        }
        _ => {
            if n > 0 {
                let b = Cow::Borrowed(&v[0]);
                writes(X::LSB, |w| b.to_writer(w, c), |w| p::<X>(&v[0], w, c))
            }
        }
    }
}
mod many {
    use super::*;
    cases!("h_rd_many", rd_many);
    cases!("h_wr_many", wr_many);
}
/// maps and sets: keys from a small range, so that some meet again
fn rd_maps<X: Case>() {
    let c = X::ctx();
    let n = pick(0, 2);
    if pick(0, 1) == 0 {
        type P<X> = (T<X>, T<X>);
        reads::<HashMap<T<X>, T<X>, BH>>(
            X::BITS * 2 * n,
            X::LSB,
            |r| HashMap::from_reader_with_ctx(r, (Limit::<P<X>, fn(&P<X>) -> bool>::new_count(n), c)),
            |r| {
                let mut m = HashMap::default();
                for _ in 0..n {
                    let k = one::<X>(r, c)?;
                    m.insert(k, one::<X>(r, c)?);
                }
                Ok(m)
            },
        )
    } else {
        reads::<HashSet<T<X>, BH>>(
            X::BITS * n,
            X::LSB,
            |r| HashSet::from_reader_with_ctx(r, (Limit::<T<X>, fn(&T<X>) -> bool>::new_count(n), c)),
            |r| Ok(upto::<X>(n, r, c)?.into_iter().collect()),
        )
    }
}
fn wr_maps<X: Case>() {
    let c = X::ctx();
    let n = pick(0, 2);
    if pick(0, 1) == 0 {
        let mut m = HashMap::<T<X>, T<X>, BH>::default();
        for _ in 0..n {
            m.insert(g::<X>(), g::<X>());
        }
        writes(X::LSB, |w| m.to_writer(w, c), |w| {
            for (k, v) in m.iter() {
                p::<X>(k, w, c)?;
                p::<X>(v, w, c)?;
            }
            Ok(())
        })
    } else {
        let mut m = HashSet::<T<X>, BH>::default();
        for _ in 0..n {
            m.insert(g::<X>());
        }
        writes(X::LSB, |w| m.to_writer(w, c), |w| {
            for k in m.iter() {
                p::<X>(k, w, c)?;
            }
            Ok(())
        })
    }
}
mod maps {
    use super::*;
    case1! { "h_rd_maps", rd_maps: Byte Bits11 Owns }
    case1! { "h_wr_maps", wr_maps: Byte Bits11 Owns }
}
/// values that are a number in all but name: the number read and written with
/// the same context, whatever that is
macro_rules! numbers {
    (@ "v4" $f:ident, $b:expr) => { numbers!(@ $f, $b) };
    (@ "v6" $f:ident, $b:expr) => { numbers!(@ $f, $b) };
    (@ "bool" $f:ident, $b:expr) => { numbers!(@ $f, $b) };
    (@ $n:literal $f:ident, $b:expr) => { { let _ = $b; } };
    (@ $f:ident, $b:expr) => { {
        let (b, e) = ($b, either());
        match pick(0, 4) {
            0 => $f(b, false),
            1 => $f((b, Order::Lsb0), true),
            2 => $f((e, Order::Lsb0), true),
            3 => $f(ByteSize(1), false),
            _ => $f(Order::Lsb0, true),
        }
    } };
    ($($n:literal $t:ty, $u:ty, $bits:expr, $x:ident $to:expr, $y:ident $from:expr, $gen:expr;)*) => {$(
    const _: () = {
        fn both<C: Copy>(c: C, lsb: bool) where $t: DekuReader<'static, C> + DekuWriter<C>, $u: DekuReader<'static, C> + DekuWriter<C> {
            if pick(0, 1) == 0 {
                reads::<$t>($bits, lsb, |r| <$t>::from_reader_with_ctx(r, c), |r| { let $x = <$u>::from_reader_with_ctx(r, c)?; $to });
            } else {
                let $y: $t = $gen;
                let u: $u = $from;
                writes_n($bits < 64 || cfg!(feature = "thorough"), lsb, |w| $y.to_writer(w, c), |w| u.to_writer(w, c));
            }
        }
        #[export_name = concat!("h_num_", $n)]
        pub extern "C" fn h() {
            let e = either();
            let b = BitSize([1, 5, $bits - 3, $bits, $bits + 1][pick(0, 4)]);
            let s = ByteSize([1, $bits / 8 - ($bits > 8) as usize, $bits / 8][pick(0, 2)]);
            match pick(0, 5) {
                0 => both((), false),
                1 => both(e, false),
                2 => both((e, b), false),
                3 => both((e, s), false),
                4 => both((e, b, Order::Lsb0), true),
                _ => both((e, s, Order::Lsb0), true),
            }
        }
        #[export_name = concat!("h_num2_", $n)]
        pub extern "C" fn h2() { numbers!(@ $n both, BitSize([3, $bits][pick(0, 1)])) }
    };
)*};
}
fn no<T>(e: Option<T>) -> Res<T> {
    e.ok_or(DekuError::Parse("".into()))
}
fn nonzero<T: PartialEq>(v: T, z: T) -> T {
    assume(v != z);
    v
}
numbers! {
    "v4" Ipv4Addr, u32, 32, x Ok(Ipv4Addr::from(x.to_be_bytes())), y u32::from_be_bytes(y.octets()), Ipv4Addr::from(bytes::<4>());
    "v6" Ipv6Addr, u128, 128, x Ok(Ipv6Addr::from(x.to_be_bytes())), y u128::from_be_bytes(y.octets()), Ipv6Addr::from(bytes::<16>());
    "bool" bool, u8, 8, x no(match x { 0 => Some(false), 1 => Some(true), _ => None }), y y as u8, pick(0, 1) == 1;
    "nz_u8" NonZeroU8, u8, 8, x no(NonZeroU8::new(x)), y y.get(), NonZeroU8::new(nonzero(u8_(), 0)).unwrap();
    "nz_u16" NonZeroU16, u16, 16, x no(NonZeroU16::new(x)), y y.get(), NonZeroU16::new(nonzero(u16_(), 0)).unwrap();
    "nz_u32" NonZeroU32, u32, 32, x no(NonZeroU32::new(x)), y y.get(), NonZeroU32::new(nonzero(u32_(), 0)).unwrap();
    "nz_u64" NonZeroU64, u64, 64, x no(NonZeroU64::new(x)), y y.get(), NonZeroU64::new(nonzero(u64_(), 0)).unwrap();
    "nz_u128" NonZeroU128, u128, 128, x no(NonZeroU128::new(x)), y y.get(), NonZeroU128::new(nonzero(u128_(), 0)).unwrap();
    "nz_usize" NonZeroUsize, usize, 64, x no(NonZeroUsize::new(x)), y y.get(), NonZeroUsize::new(nonzero(usize_(), 0)).unwrap();
    "nz_i8" NonZeroI8, i8, 8, x no(NonZeroI8::new(x)), y y.get(), NonZeroI8::new(nonzero(i8_(), 0)).unwrap();
    "nz_i16" NonZeroI16, i16, 16, x no(NonZeroI16::new(x)), y y.get(), NonZeroI16::new(nonzero(i16_(), 0)).unwrap();
    "nz_i32" NonZeroI32, i32, 32, x no(NonZeroI32::new(x)), y y.get(), NonZeroI32::new(nonzero(i32_(), 0)).unwrap();
    "nz_i64" NonZeroI64, i64, 64, x no(NonZeroI64::new(x)), y y.get(), NonZeroI64::new(nonzero(i64_(), 0)).unwrap();
    "nz_i128" NonZeroI128, i128, 128, x no(NonZeroI128::new(x)), y y.get(), NonZeroI128::new(nonzero(i128_(), 0)).unwrap();
    "nz_isize" NonZeroIsize, isize, 64, x no(NonZeroIsize::new(x)), y y.get(), NonZeroIsize::new(nonzero(usize_() as isize, 0)).unwrap();
}
/// an address of either kind is written as its kind is
#[export_name = "h_wr_ip"]
pub extern "C" fn wr_ip() {
    let e = either();
    if pick(0, 1) == 0 {
        let a = Ipv4Addr::from(bytes::<4>());
        writes(false, |w| IpAddr::V4(a).to_writer(w, e), |w| a.to_writer(w, e));
    } else {
        let a = Ipv6Addr::from(bytes::<16>());
        writes(false, |w| IpAddr::V6(a).to_writer(w, e), |w| a.to_writer(w, e));
    }
}
/// a C string is its bytes and the zero after them
#[export_name = "h_rd_cstr"]
pub extern "C" fn rd_cstr() {
    let parts = |n: Option<usize>| {
        move |r: &mut Rd| {
            let mut v = Vec::new();
            while n != Some(v.len()) {
                v.push(u8::from_reader_with_ctx(r, ())?);
                if n.is_none() && v.ends_with(&[0]) {
                    break;
                }
            }
            for i in 0..v.len() {
                if (v[i] == 0) != (i + 1 == v.len()) {
                    return Err(DekuError::Parse("".into()));
                }
            }
            no(v.pop())?;
            // SAFETY: no zero is among them
            Ok(unsafe { CString::from_vec_unchecked(v) })
        }
    };
    if pick(0, 1) == 0 {
        reads::<CString>(8, false, |r| CString::from_reader_with_ctx(r, ()), parts(None));
    } else {
        let n = pick(0, 3);
        reads::<CString>(8, false, |r| CString::from_reader_with_ctx(r, ByteSize(n)), parts(Some(n)));
    }
}
#[export_name = "h_wr_cstr"]
pub extern "C" fn wr_cstr() {
    let b: [u8; 3] = bytes();
    let n = pick(0, 3);
    assume(b.iter().take(n).all(|b| *b != 0));
    // SAFETY: no zero is among them
    let v = unsafe { CString::from_vec_unchecked(b[..n].to_vec()) };
    let each = |w: &mut Wr| {
        for i in 0..n {
            b[i].to_writer(w, ())?;
        }
        0u8.to_writer(w, ())
    };
    match pick(0, 2) {
        0 => writes(false, |w| v.to_writer(w, ()), each),
        1 => {
            let e = either();
            writes(false, |w| v.to_writer(w, e), each)
        }
        _ => writes(false, |w| v.to_writer(w, (Endian::Big, BitSize(7))), |w| {
            for i in 0..n {
                b[i].to_writer(w, (Endian::Big, BitSize(7)))?;
            }
            0u8.to_writer(w, (Endian::Big, BitSize(7)))
        }),
    }
}

// ---------------------------------------------------------------- many elements
const LONG: usize = 3100;
/// what is written is what the elements come to, one after the other
fn long<T: DekuWriter<()> + ?Sized>(v: &T, n: usize, mut at: impl FnMut(usize) -> u16, el: usize) {
    let mut s = Sink::<LONG>::new();
    let mut w = Writer::new(&mut s);
    if v.to_writer(&mut w, ()).is_err() {
        fail!("many elements are written");
        return;
    }
    ck!(w.bits_written == n * el * 8, "many elements are as long as all of them");
    drop(w);
    reach!("many elements");
    ck!(s.len == n * el, "many elements take their bytes");
    let mut ok = true;
    let mut i = 0;
    while i < n {
        let b = at(i).to_le_bytes();
        ok &= s.d[i * el] == b[0] && (el == 1 || s.d[i * el + 1] == b[1]);
        i += 1;
    }
    ck!(ok, "each of many elements is written at its place");
}
fn count() -> usize {
    [255, 256, 257, 1024, 1025, 1500][pick(0, 5)]
}
macro_rules! long { ($($(#[$c:meta])* $n:ident: |$q:ident| $e:expr, $el:literal, |$v:ident, $i:ident| $at:expr;)*) => {$(
    $(#[$c])*
    #[export_name = concat!("h_long_", stringify!($n))]
    pub extern "C" fn $n() {
        let $q = count();
        let $v = $e;
        long(&$v, $q, |$i| $at, $el);
    }
)*} }
/// with an arbitrary last element
#[cfg(feature = "cfg_alloc_any")]
fn u8s(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n - 1 {
        v.push(i as u8);
    }
    v.push(u8_());
    v
}
#[cfg(feature = "cfg_alloc_any")]
fn u16s(n: usize) -> Vec<u16> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n - 1 {
        v.push(i as u16);
    }
    v.push(u16_());
    v
}
#[cfg(feature = "cfg_alloc_any")]
long! {
    vec_u8: |n| u8s(n), 1, |v, i| v[i] as u16;
    vec_u16: |n| u16s(n), 2, |v, i| v[i];
    box_u8: |n| u8s(n).into_boxed_slice(), 1, |v, i| v[i] as u16;
    box_u16: |n| u16s(n).into_boxed_slice(), 2, |v, i| v[i];
    arc_u8: |n| std::sync::Arc::<[u8]>::from(u8s(n)), 1, |v, i| v[i] as u16;
    arc_u16: |n| std::sync::Arc::<[u16]>::from(u16s(n)), 2, |v, i| v[i];
    cow_u16: |n| std::borrow::Cow::<'_, Vec<u16>>::Owned(u16s(n)), 2, |v, i| v[i];
    opt_box: |n| Some(Box::new(u16s(n))), 2, |v, i| v.as_ref().map_or(0, |v| v[i]);
}
#[cfg(feature = "cfg_alloc_any")]
#[export_name = "h_long_slice"]
pub extern "C" fn long_slice() {
    let n = count();
    let v = u16s(n);
    if pick(0, 1) == 0 {
        long(&v[..], n, |i| v[i], 2);
    } else {
        long(&&v[..], n, |i| v[i], 2);
    }
}
#[cfg(feature = "cfg_alloc_any")]
#[export_name = "h_long_array"]
pub extern "C" fn long_array() {
    let mut a = [7u16; 300];
    a[299] = u16_();
    a[255] = u16_();
    a[256] = u16_();
    long(&a, 300, |i| a[i], 2);
    long(&[a], 300, |i| a[i], 2);
    let b = [u8_(); 257];
    long(&b, 257, |i| b[i] as u16, 1);
}
#[cfg(feature = "cfg_std_any")]
#[export_name = "h_long_set"]
pub extern "C" fn long_set() {
    let n = count();
    let mut s = std::collections::HashSet::<u16, BH>::default();
    for i in 0..n {
        s.insert(i as u16);
    }
    let want: Vec<u16> = s.iter().copied().collect();
    long(&s, n, |i| want[i], 2);
}
#[cfg(feature = "cfg_std_any")]
#[export_name = "h_long_map"]
pub extern "C" fn long_map() {
    let n = count();
    let mut s = std::collections::HashMap::<u16, (), BH>::default();
    for i in 0..n {
        s.insert(i as u16, ());
    }
    let want: Vec<u16> = s.keys().copied().collect();
    long(&s, n, |i| want[i], 2);
}
