//! C10: collections hold exactly the elements their limit admits.
use crate::num::{endian, order};
use crate::ops::*;
use crate::*;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

/// a type with collections, at any offset
fn coll<T: Cat>() {
    let k = offset();
    let s = stream::<T>(k, pick(0, 1));
    let d = &s.d[..s.n];
    if s.n * 8 < k {
        return;
    }
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, T::LSB).is_err() {
        return;
    }
    let got = T::from_reader_with_ctx(&mut r, ());
    let mut c = Cur::at(d, k);
    let want = T::dec(&mut c);
    match (got, want) {
        (Ok(g), Ok(w)) => {
            reach!("a collection is read");
            obs(r.bits_read as u64);
            ck!(g == w, "the elements are those the limit admits");
            ck!(r.bits_read == c.pos, "the stream continues after the last element");
        }
        (Err(_), Err(_)) => reach!("an element is missing"),
        (Ok(_), Err(_)) => fail!("a collection with a missing element is refused"),
        (Err(_), Ok(_)) => fail!("a complete collection is read"),
    }
}
fn write<T: Cat>() {
    let v = T::gen();
    let mut s = Sink::<CAP>::new();
    let mut w = Writer::new(&mut s);
    let ok = v.to_writer(&mut w, ()).and_then(|_| w.finalize()).is_ok();
    let mut o = O::new();
    v.enc(&mut o);
    ck!(ok && s.len == o.bytes() && s.d == o.d, "the elements are written in order");
}
vecs!("h_coll_", coll);
vecb!("h_coll_", coll);
maps!("h_coll_", coll);
each!("h_coll_", coll: DynBytes DynEnd);
vecs!("h_write_", write);
vecb!("h_write_", write);

/// an element, the context it is read with and its reference
trait El: Sized + PartialEq {
    type C: Copy;
    fn ctx() -> Self::C;
    fn dec(c: &mut Cur) -> Result<Self, K>;
    const LSB: bool = false;
    /// bits, the least
    const W: usize;
    fn tag(&self) -> u8;
}
impl El for u8 {
    type C = ();
    fn ctx() {}
    fn dec(c: &mut Cur) -> Result<u8, K> {
        c.u8()
    }
    const W: usize = 8;
    fn tag(&self) -> u8 {
        *self
    }
}
impl El for u16 {
    type C = Endian;
    fn ctx() -> Endian {
        Endian::Big
    }
    fn dec(c: &mut Cur) -> Result<u16, K> {
        c.be16()
    }
    const W: usize = 16;
    fn tag(&self) -> u8 {
        *self as u8
    }
}
impl El for i16 {
    type C = (Endian, BitSize);
    fn ctx() -> Self::C {
        (Endian::Big, BitSize(3))
    }
    fn dec(c: &mut Cur) -> Result<i16, K> {
        Ok(c.i(3, true, false)? as i16)
    }
    const W: usize = 3;
    fn tag(&self) -> u8 {
        *self as u8
    }
}
impl El for u32 {
    type C = (Endian, BitSize, Order);
    fn ctx() -> Self::C {
        (Endian::Little, BitSize(11), Order::Lsb0)
    }
    fn dec(c: &mut Cur) -> Result<u32, K> {
        Ok(c.u(11, false, true)? as u32)
    }
    const LSB: bool = true;
    const W: usize = 11;
    fn tag(&self) -> u8 {
        *self as u8
    }
}
/// elements of one byte or two
#[derive(DekuRead, PartialEq, Eq, Hash, Clone)]
struct Mix {
    k: u8,
    #[deku(cond = "*k & 1 == 1")]
    x: Option<u8>,
}
impl El for Mix {
    type C = ();
    fn ctx() {}
    fn dec(c: &mut Cur) -> Result<Mix, K> {
        let k = c.u8()?;
        Ok(Mix { k, x: if k & 1 == 1 { Some(c.u8()?) } else { None } })
    }
    const W: usize = 8;
    fn tag(&self) -> u8 {
        self.k
    }
}
/// takes room in the stream but none in memory
#[derive(DekuRead, PartialEq, Clone)]
#[deku(magic = b"\x5a")]
struct Mark;
impl El for Mark {
    type C = ();
    fn ctx() {}
    fn dec(c: &mut Cur) -> Result<Mark, K> {
        if c.u8()? == 0x5a { Ok(Mark) } else { Err(K::Parse) }
    }
    const W: usize = 8;
    fn tag(&self) -> u8 {
        0x5a
    }
}
impl<A: El<C = ()>, B: El<C = ()>> El for (A, B) {
    type C = ();
    fn ctx() {}
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok((A::dec(c)?, B::dec(c)?))
    }
    const W: usize = A::W + B::W;
    fn tag(&self) -> u8 {
        self.1.tag()
    }
}

/// what holds the elements
trait Holder<T>: Sized {
    /// exactly these elements, read in this order
    fn is(&self, v: &[T]) -> bool;
}
impl<T: PartialEq> Holder<T> for Vec<T> {
    fn is(&self, v: &[T]) -> bool {
        self[..] == *v
    }
}
impl<T: PartialEq> Holder<T> for Box<[T]> {
    fn is(&self, v: &[T]) -> bool {
        self[..] == *v
    }
}
impl<T: PartialEq> Holder<T> for Arc<[T]> {
    fn is(&self, v: &[T]) -> bool {
        self[..] == *v
    }
}
impl<T: Eq + core::hash::Hash> Holder<T> for HashSet<T, BH> {
    fn is(&self, v: &[T]) -> bool {
        let mut n = 0;
        let mut ok = true;
        for (i, x) in v.iter().enumerate() {
            ok &= self.contains(x);
            n += !v[..i].contains(x) as usize;
        }
        ok && self.len() == n
    }
}
impl<X: Eq + core::hash::Hash, Y: PartialEq> Holder<(X, Y)> for HashMap<X, Y, BH> {
    fn is(&self, v: &[(X, Y)]) -> bool {
        let mut n = 0;
        let mut ok = true;
        for (i, x) in v.iter().enumerate() {
            n += !v[..i].iter().any(|y| y.0 == x.0) as usize;
            // the last one with the same key stays
            if !v[i + 1..].iter().any(|y| y.0 == x.0) {
                ok &= self.get(&x.0) == Some(&x.1);
            }
        }
        ok && self.len() == n
    }
}
/// every limit, given directly
fn limit<T: El, H: Holder<T>>(max: usize)
where
    H: for<'a> DekuReader<'a, (Limit<T, fn(&T) -> bool>, T::C)>,
    H: for<'a, 'b> DekuReader<'a, (Limit<T, &'b mut dyn FnMut(&T) -> bool>, T::C)>,
{
    let k = if max > 3 { offset() } else { pick(0, 1) * 5 };
    let d: [u8; 6] = bytes();
    let n = pick((k > 0) as usize, max);
    let d = &d[..n];
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, T::LSB).is_err() {
        return;
    }
    let mut c = Cur::at(d, k);
    let lim = pick(0, 4);
    let much = max * 8 / T::W + 1;
    let (got, want) = match lim {
        0 => {
            let q = pick(0, much + 1);
            // more than there can be, up to the largest
            let q = if q > much { usize::MAX } else { q };
            (
                H::from_reader_with_ctx(&mut r, (Limit::<T, fn(&T) -> bool>::from(q), T::ctx())),
                some(&mut c, q, T::dec),
            )
        }
        1 => {
            let q = pick(0, max + 1);
            let q = if q > max { usize::MAX } else { q };
            (
                H::from_reader_with_ctx(&mut r, (Limit::<T, fn(&T) -> bool>::from(ByteSize(q)), T::ctx())),
                budget(&mut c, q.saturating_mul(8), T::dec),
            )
        }
        2 => {
            let q = pick(0, max * 8 - k + 1);
            (H::from_reader_with_ctx(&mut r, (Limit::<T, fn(&T) -> bool>::from(BitSize(q)), T::ctx())), budget(&mut c, q, T::dec))
        }
        3 => {
            let t = u8_();
            let mut seen = 0;
            let mut same = true;
            let mut probe = Cur::at(d, k);
            let mut f = |v: &T| {
                seen += 1;
                same &= matches!(T::dec(&mut probe), Ok(x) if x == *v);
                v.tag() == t
            };
            let l: Limit<T, &mut dyn FnMut(&T) -> bool> = Limit::Until(&mut f, core::marker::PhantomData);
            let got = H::from_reader_with_ctx(&mut r, (l, T::ctx()));
            let want = until(&mut c, T::dec, |v| v.tag() == t);
            ck!(same, "the end condition sees the elements in stream order");
            if let Ok(w) = &want {
                ck!(seen == w.len(), "the end condition sees every element once");
            }
            (got, want)
        }
        _ => (
            H::from_reader_with_ctx(&mut r, (Limit::<T, fn(&T) -> bool>::End, T::ctx())),
            all(&mut c, T::dec),
        ),
    };
    match (got, want) {
        (Ok(g), Ok(w)) => {
            reach!("a limited collection is read");
            obs(w.len() as u64);
            ck!(g.is(&w), "the elements are those the limit admits");
            ck!(r.bits_read == c.pos, "the stream continues after the last element");
            ck!(src.pos == c.pos.div_ceil(8), "no more is taken than the elements need");
        }
        (Err(_), Err(_)) => reach!("an element does not fit or is missing"),
        (Ok(_), Err(_)) => fail!("a collection with an element that does not fit or is missing is refused"),
        (Err(_), Ok(_)) => fail!("a complete collection is read"),
    }
}
macro_rules! limits { ($($h:literal $t:ty, $c:ty, $m:literal;)*) => {$(
    const _: () = {
        #[export_name = $h]
        pub extern "C" fn h() { limit::<$t, $c>($m) }
    };
)*} }
limits! {
    "h_lim_vec_u8" u8, Vec<u8>, 4;
    "h_lim_vec_u16" u16, Vec<u16>, 5;
    "h_lim_vec_i3" i16, Vec<i16>, 3;
    "h_lim_vec_u11" u32, Vec<u32>, 4;
    "h_lim_vec_mix" Mix, Vec<Mix>, 4;
    "h_lim_vec_mark" Mark, Vec<Mark>, 4;
    "h_lim_box_u16" u16, Box<[u16]>, 5;
    "h_lim_arc_mix" Mix, Arc<[Mix]>, 4;
    "h_lim_set_u8" u8, HashSet<u8, BH>, 3;
    "h_lim_set_i3" i16, HashSet<i16, BH>, 2;
    "h_lim_set_mix" Mix, HashSet<Mix, BH>, 3;
    "h_lim_map" (u8, u8), HashMap<u8, u8, BH>, 6;
    "h_lim_map_mix" (u8, Mix), HashMap<u8, Mix, BH>, 5;
}
/// arrays hold a fixed number
fn arrays<const N: usize, T: El>()
where
    [T; N]: for<'a> DekuReader<'a, T::C>,
{
    let k = offset();
    let d: [u8; 5] = bytes();
    let n = pick((k > 0) as usize, 5);
    let d = &d[..n];
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, T::LSB).is_err() {
        return;
    }
    let got = <[T; N]>::from_reader_with_ctx(&mut r, T::ctx());
    let mut c = Cur::at(d, k);
    match (got, some(&mut c, N, T::dec)) {
        (Ok(g), Ok(w)) => {
            reach!("an array is read");
            ck!(g[..] == w[..], "an array holds the elements in order");
            ck!(r.bits_read == c.pos, "the stream continues after an array");
        }
        (Err(_), Err(_)) => reach!("an array is incomplete"),
        _ => fail!("an array is read if and only if all of it is there"),
    }
}
macro_rules! arr { ($($h:literal $t:ty, $n:literal;)*) => {$(
    const _: () = {
        #[export_name = $h]
        pub extern "C" fn h() { arrays::<$n, $t>() }
    };
)*} }
arr! { "h_arr_u8" u8, 3; "h_arr_u16" u16, 2; "h_arr_i3" i16, 5; "h_arr_u11" u32, 3; "h_arr_mix" Mix, 2; "h_arr_0" u8, 0; "h_arr_1" u16, 1; }
/// counted bytes, in one piece
#[export_name = "h_exact"]
pub extern "C" fn exact() {
    let k = offset();
    let d: [u8; 4] = bytes();
    let n = pick((k > 0) as usize, 4);
    let d = &d[..n];
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    if take(&mut r, k, false).is_err() {
        return;
    }
    // with and without having looked for the end
    if pick(0, 1) == 1 {
        let _ = r.end();
    }
    let q = pick(0, 6);
    let q = if q == 6 { usize::MAX } else { q };
    let got = Vec::<u8>::from_reader_with_ctx(&mut r, ReadExact(q));
    let mut c = Cur::at(d, k);
    match (got, some(&mut c, q, |c| c.u8())) {
        (Ok(g), Ok(w)) => {
            ck!(g == w, "exactly the bytes counted are read");
            ck!(r.bits_read == c.pos, "the stream continues after the bytes counted");
        }
        (Err(_), Err(_)) => reach!("not all the bytes counted are there"),
        _ => fail!("counted bytes are read if and only if all are there"),
    }
}

/// a quantity of 64 bits that no input this short can satisfy
fn far<T: for<'a> DekuReader<'a, ()>>() {
    let d: [u8; 12] = bytes();
    let q = u64::from_le_bytes([d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]]);
    assume(q >= 1 << 16);
    let n = pick(8, 12);
    let mut src = Src::new(&d[..n]);
    let mut r = Reader::new(&mut src);
    ck!(
        T::from_reader_with_ctx(&mut r, ()).is_err(),
        "more than the input holds is not made up or cut short"
    );
}
macro_rules! far { ($d:meta, $q:ident; $($(#[$c:meta])* $n:ident: [$($a:tt)*] {$($t:tt)*};)*) => {$(
    $(#[$c])*
    const _: () = {
        #[$d]
        struct $n {
            #[deku(endian = "little")]
            $q: u64,
            #[deku($($a)*)]
            #[allow(dead_code)]
            v: $($t)*,
        }
        #[export_name = concat!("h_far_", stringify!($n))]
        pub extern "C" fn h() { far::<$n>() }
    };
)*} }
far! { derive(DekuRead), n;
    CntU8: [count = "n"] {Vec<u8>};
    CntExpr: [count = "*n as usize - 1"] {Vec<u8>};
    CntU8End: [count = "n", endian = "big"] {Vec<u8>};
    CntU16: [count = "n", endian = "big"] {Vec<u16>};
    CntMix: [count = "n"] {Vec<Mix>};
    CntBox: [count = "n"] {Box<[u8]>};
    CntArc: [count = "n"] {Arc<[Mix]>};
    CntBits: [count = "n", bits = 3] {Vec<u8>};
    CntMap: [count = "n"] {HashMap<u8, u8, BH>};
    CntSet: [count = "n"] {HashSet<u8, BH>};
    ByU8: [bytes_read = "n"] {Vec<u8>};
    ByMix: [bytes_read = "n"] {Vec<Mix>};
    ByBox: [bytes_read = "n"] {Box<[u16]>};
    ByMap: [bytes_read = "n"] {HashMap<u8, u8, BH>};
    BySet: [bytes_read = "n"] {HashSet<u8, BH>};
    BitsU8: [bits_read = "n"] {Vec<u8>};
    BitsBits: [bits_read = "n", bits = 5] {Vec<u8>};
    BitsMap: [bits_read = "n"] {HashMap<u8, u8, BH>};
    BitsSet: [bits_read = "n"] {HashSet<u8, BH>};
    Exact: [ctx = "ReadExact(*n as usize)"] {Vec<u8>};
}

// ---------------------------------------------------------------- elements of no bits
/// nothing, or something after a while
#[derive(DekuRead, PartialEq, Clone)]
#[deku(ctx = "n: u8")]
struct Nil {
    #[deku(skip, default = "n")]
    n: u8,
}
#[derive(DekuRead, PartialEq)]
struct Nils {
    n: u8,
    #[deku(count = "*n", ctx = "*n")]
    v: Vec<Nil>,
    #[deku(count = "v.len()", ctx = "*n")]
    b: Box<[Nil]>,
    #[deku(until = "|_: &Nil| true", ctx = "*n")]
    t: Vec<Nil>,
    m: u8,
}
#[export_name = "h_none"]
pub extern "C" fn none() {
    let mut d: [u8; 3] = bytes();
    let n = pick(0, 5) as u8;
    assume(d[0] == n);
    d[0] = n;
    let len = pick(0, 3);
    let mut src = Src::new(&d[..len]);
    let mut r = Reader::new(&mut src);
    match Nils::from_reader_with_ctx(&mut r, ()) {
        Ok(v) => {
            reach!("elements of no bits are read");
            ck!(len >= 2, "what comes after is needed");
            ck!(v.v.len() == n as usize && v.v.iter().all(|x| x.n == n), "as many elements of no bits as stated");
            ck!(v.b.len() == n as usize, "as many boxed elements of no bits as stated");
            ck!(v.t.len() == 1, "the element that ends a collection is its last");
            ck!(v.m == d[1] && r.bits_read == 16, "elements of no bits take none");
        }
        Err(e) => {
            reach!("no elements");
            ck!(len < 2 && kind(&e) == E::Inc, "elements of no bits need no input");
        }
    }
}

// ---------------------------------------------------------------- many elements
const MANY: usize = 2 + 3100;
/// the quantity, and then a list of bytes whose last ones are arbitrary
trait Many: for<'a> DekuReader<'a, ()> {
    /// bytes of an element
    const EL: usize;
    /// what is stated: elements, bytes, bits, the end of the list
    const UNIT: usize;
    fn len(&self) -> usize;
    /// is the element at this place made of these bytes
    fn is(&self, i: usize, d: &[u8]) -> bool;
}
fn many<T: Many>() {
    let n = [255, 256, 257, 1023, 1024, 1025, 1500][pick(0, 6)];
    let stated = match T::UNIT {
        0 => n,
        1 => n * T::EL,
        2 => n * T::EL * 8,
        _ => n - 1,
    };
    let mut d = [0u8; MANY];
    d[0] = stated as u8;
    d[1] = (stated >> 8) as u8;
    let mut i = 0;
    while i < n {
        d[2 + i * T::EL] = i as u8;
        if T::EL > 1 {
            d[2 + i * T::EL + 1] = (i >> 8) as u8;
        }
        i += 1;
    }
    let end = 2 + n * T::EL;
    if T::UNIT < 3 && T::EL == 1 {
        d[end - 1] = u8_();
        d[end - 2] = u8_();
    }
    let less = pick(0, 1);
    let mut src = Src::new(&d[..end - less]);
    let mut r = Reader::new(&mut src);
    match T::from_reader_with_ctx(&mut r, ()) {
        Ok(v) => {
            reach!("many elements are read");
            ck!(less == 0, "many elements are not made up");
            ck!(v.len() == n, "there are as many elements as stated");
            ck!(r.bits_read == end * 8, "many elements take the bits they are made of");
            let mut ok = true;
            let mut i = 0;
            while i < n {
                ok &= v.is(i, &d[2 + i * T::EL..2 + (i + 1) * T::EL]);
                i += 1;
            }
            ck!(ok, "each of many elements is the one at its place");
        }
        Err(e) => {
            reach!("one of many elements is missing");
            ck!(less == 1, "all of many elements are there");
            ck!(kind(&e) == E::Inc, "one of many elements is missing and nothing else");
        }
    }
}
macro_rules! many { ($d:meta, $q:ident, $v:ident; $($n:ident $el:literal $unit:literal: [$($a:tt)*] {$($t:tt)*}, $is:expr;)*) => {$(
    const _: () = {
        #[$d]
        struct $n {
            #[deku(endian = "little")]
            $q: u16,
            #[deku($($a)*)]
            $v: $($t)*,
        }
        impl Many for $n {
            const EL: usize = $el;
            const UNIT: usize = $unit;
            fn len(&self) -> usize { self.$v.len() }
            fn is(&self, i: usize, d: &[u8]) -> bool {
                let f: fn(&$($t)*, usize, &[u8]) -> bool = $is;
                f(&self.$v, i, d)
            }
        }
        #[export_name = concat!("h_many_", stringify!($n))]
        pub extern "C" fn h() { many::<$n>() }
    };
)*} }
many! { derive(DekuRead), n, v;
    CntU8 1 0: [count = "n"] {Vec<u8>}, |v, i, d| v[i] == d[0];
    CntU16 2 0: [count = "n", endian = "little"] {Vec<u16>}, |v, i, d| v[i] == u16::from_le_bytes([d[0], d[1]]);
    CntI8 1 0: [count = "n"] {Vec<i8>}, |v, i, d| v[i] == d[0] as i8;
    CntBits 1 0: [count = "n", bits = 8] {Vec<u16>}, |v, i, d| v[i] == d[0] as u16;
    CntPair 2 0: [count = "n"] {Vec<(u8, u8)>}, |v, i, d| v[i] == (d[0], d[1]);
    CntBox 1 0: [count = "n"] {Box<[u8]>}, |v, i, d| v[i] == d[0];
    CntArc 2 0: [count = "n"] {Arc<[(u8, u8)]>}, |v, i, d| v[i] == (d[0], d[1]);
    CntMap 2 0: [count = "n"] {HashMap<u16, (), BH>}, |v, _, d| v.contains_key(&u16::from_le_bytes([d[0], d[1]]));
    CntSet 2 0: [count = "n"] {HashSet<u16, BH>}, |v, _, d| v.contains(&u16::from_le_bytes([d[0], d[1]]));
    ByU8 1 1: [bytes_read = "n"] {Vec<u8>}, |v, i, d| v[i] == d[0];
    ByU16 2 1: [bytes_read = "n", endian = "little"] {Vec<u16>}, |v, i, d| v[i] == u16::from_le_bytes([d[0], d[1]]);
    BySet 2 1: [bytes_read = "n"] {HashSet<(u8, u8), BH>}, |v, _, d| v.contains(&(d[0], d[1]));
    ByMap 2 1: [bytes_read = "n"] {HashMap<u16, (), BH>}, |v, _, d| v.contains_key(&u16::from_le_bytes([d[0], d[1]]));
    BitsU8 1 2: [bits_read = "n"] {Vec<u8>}, |v, i, d| v[i] == d[0];
    BitsBox 2 2: [bits_read = "n"] {Box<[(u8, u8)]>}, |v, i, d| v[i] == (d[0], d[1]);
    BitsSet 2 2: [bits_read = "n"] {HashSet<u16, BH>}, |v, _, d| v.contains(&u16::from_le_bytes([d[0], d[1]]));
    UntilU16 2 3: [until = "|x: &u16| x == n", endian = "little"] {Vec<u16>}, |v, i, d| v[i] == u16::from_le_bytes([d[0], d[1]]);
    UntilBox 2 3: [until = "|x: &[u8; 2]| u16::from_le_bytes(*x) == *n"] {Box<[[u8; 2]]>}, |v, i, d| v[i] == [d[0], d[1]];
    UntilSet 2 3: [until = "|x: &u16| x == n", endian = "little"] {HashSet<u16, BH>}, |v, _, d| v.contains(&u16::from_le_bytes([d[0], d[1]]));
    Exact 1 0: [ctx = "ReadExact(*n as usize)"] {Vec<u8>}, |v, i, d| v[i] == d[0];
}

// ---------------------------------------------------------------- very many elements
macro_rules! huge { ($d:meta; $($n:ident $h:literal $unit:literal [$($a:tt)*];)*) => {$(
    #[$d]
    pub struct $n {
        #[deku(endian = "little")]
        _n: u32,
        $($a)*
        v: Vec<u8>,
    }
    const _: () = {
        #[export_name = $h]
        pub extern "C" fn h() {
            const MORE: usize = 65536 + 260;
            let n = [65535, 65536, 65537, 65536 + 256][pick(0, 3)];
            let mut d = [0u8; 4 + MORE];
            d[..4].copy_from_slice(&(n as u32 * $unit).to_le_bytes());
            let mut i = 0;
            while i < n {
                d[4 + i] = i as u8;
                i += 251;
            }
            d[4 + n - 1] = u8_();
            let less = pick(0, 1);
            // read-all ends with the input
            let more = if $unit == 0 { 0 } else { 2 };
            let end = 4 + n - less + if less == 0 { more } else { 0 };
            let mut src = Src::new(&d[..end]);
            let mut r = Reader::new(&mut src);
            match $n::from_reader_with_ctx(&mut r, ()) {
                Ok(v) => {
                    reach!("very many elements are read");
                    let n = if $unit == 0 { n - less } else { n };
                    ck!($unit == 0 || less == 0, "very many elements are not made up");
                    ck!(v.v.len() == n, "there are very many elements if that is stated");
                    ck!(r.bits_read == (4 + n) * 8, "very many elements take the bits they are made of");
                    ck!(v.v[..] == d[4..4 + n], "very many elements are the ones at their places");
                }
                Err(e) => {
                    ck!(less == 1 && $unit > 0 && kind(&e) == E::Inc, "very many elements are read if they are there");
                }
            }
        }
    };
)*} }
huge! {derive(DekuRead);
    HugeCount "h_huge_count" 1 [#[deku(count = "_n")]];
    HugeBytes "h_huge_bytes" 1 [#[deku(bytes_read = "_n")]];
    HugeBits "h_huge_bits" 8 [#[deku(bits_read = "_n")]];
    HugeAll "h_huge_all" 0 [#[deku(read_all)]];
}
