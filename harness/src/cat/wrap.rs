//! Wrappers and containers.
use super::*;
use core::net::{Ipv4Addr, Ipv6Addr};
#[cfg(feature = "cfg_alloc_any")]
use std::{borrow::Cow, sync::Arc};

/// what needs no allocation
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "big")]
pub struct Flat {
    a: Option<u16>,
    b: (u8, u16, i8),
    #[deku(endian = "little")]
    c: [(u8, u16); 2],
    d: (),
    e: [[u8; 2]; 2],
    f: Option<(u8, [u16; 1])>,
    g: [u8; 0],
    h: ((u8,), u16),
}
impl Cat for Flat {
    const MAX: usize = 23;
    const MIN: usize = 20;
    fn gen() -> Self {
        Flat {
            a: Some(u16_()),
            b: (u8_(), u16_(), i8_()),
            c: [(u8_(), u16_()), (u8_(), u16_())],
            d: (),
            e: [[u8_(), u8_()], [u8_(), u8_()]],
            f: Some((u8_(), [u16_()])),
            g: [],
            h: ((u8_(),), u16_()),
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(Flat {
            a: Some(c.be16()?),
            b: (c.u8()?, c.be16()?, c.u8()? as i8),
            c: [(c.u8()?, c.le16()?), (c.u8()?, c.le16()?)],
            d: (),
            e: [[c.u8()?, c.u8()?], [c.u8()?, c.u8()?]],
            f: Some((c.u8()?, [c.be16()?])),
            g: [],
            h: ((c.u8()?,), c.be16()?),
        })
    }
    fn enc(&self, o: &mut O) {
        if let Some(a) = self.a {
            o.be16(a);
        }
        o.u8(self.b.0);
        o.be16(self.b.1);
        o.u8(self.b.2 as u8);
        for (x, y) in self.c {
            o.u8(x);
            o.le16(y);
        }
        for x in self.e {
            o.u8(x[0]);
            o.u8(x[1]);
        }
        if let Some((x, [y])) = self.f {
            o.u8(x);
            o.be16(y);
        }
        o.u8(self.h.0 .0);
        o.be16(self.h.1);
    }
}
/// addresses, in either byte order
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
pub struct Nets {
    #[deku(endian = "big")]
    a: Ipv4Addr,
    #[deku(endian = "little")]
    b: Ipv4Addr,
    #[deku(endian = "big")]
    c: Ipv6Addr,
    d: u8,
}
impl Cat for Nets {
    const MAX: usize = 25;
    const MIN: usize = 23;
    fn gen() -> Self {
        Nets { a: u32_().into(), b: u32_().into(), c: u128_().into(), d: u8_() }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(Nets {
            a: Ipv4Addr::from([c.u8()?, c.u8()?, c.u8()?, c.u8()?]),
            b: (c.u(32, false, false)? as u32).into(),
            c: c.u(128, true, false)?.into(),
            d: c.u8()?,
        })
    }
    fn enc(&self, o: &mut O) {
        for b in self.a.octets() {
            o.u8(b);
        }
        for b in self.b.octets().iter().rev() {
            o.u8(*b);
        }
        for b in self.c.octets() {
            o.u8(b);
        }
        o.u8(self.d);
    }
}
#[cfg(feature = "cfg_alloc_any")]
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "big")]
pub struct Boxes {
    n: u8,
    a: Box<u16>,
    #[deku(endian = "little")]
    b: Arc<u16>,
    c: Cow<'static, u16>,
    #[deku(ctx = "*n")]
    d: Box<Boxed>,
    #[deku(count = "*n & 1")]
    e: Arc<[u16]>,
    f: Option<Box<(u8, u16)>>,
}
#[cfg(feature = "cfg_alloc_any")]
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(ctx = "endian: deku::ctx::Endian, n: u8", endian = "endian")]
pub struct Boxed {
    #[deku(cond = "n & 2 == 2")]
    x: Option<u16>,
}
#[cfg(feature = "cfg_alloc_any")]
impl Cat for Boxes {
    const MAX: usize = 14;
    const MIN: usize = 10;
    fn gen() -> Self {
        let (p, q) = (pick(0, 1), pick(0, 1));
        let n = (u8_() & 0xfc) | (q << 1 | p) as u8;
        Boxes {
            n,
            a: Box::new(u16_()),
            b: Arc::new(u16_()),
            c: Cow::Owned(u16_()),
            d: Box::new(Boxed { x: if q == 1 { Some(u16_()) } else { None } }),
            e: Arc::from(if p == 1 { vec![u16_()] } else { vec![] }),
            f: Some(Box::new((u8_(), u16_()))),
        }
    }
    fn shape(d: &mut [u8]) {
        split(d, 0, 3)
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        Ok(Boxes {
            n,
            a: Box::new(c.be16()?),
            b: Arc::new(c.le16()?),
            c: Cow::Owned(c.be16()?),
            d: Box::new(Boxed { x: if n & 2 == 2 { Some(c.be16()?) } else { None } }),
            e: Arc::from(if n & 1 == 1 { vec![c.be16()?] } else { vec![] }),
            f: Some(Box::new((c.u8()?, c.be16()?))),
        })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.n);
        o.be16(*self.a);
        o.le16(*self.b);
        o.be16(*self.c);
        if let Some(x) = self.d.x {
            o.be16(x);
        }
        for x in self.e.iter() {
            o.be16(*x);
        }
        if let Some(x) = &self.f {
            o.u8(x.0);
            o.be16(x.1);
        }
    }
}
/// bits reach the values inside
#[cfg(all(feature = "cfg_alloc_any", feature = "cfg_bits_any"))]
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "big")]
pub struct WrapBits {
    #[deku(bits = 3)]
    a: Box<u8>,
    #[deku(bits = 11)]
    b: Option<u16>,
    #[deku(bits = 2)]
    c: (u8, u8),
    #[deku(bits = 3)]
    d: [u8; 3],
    e: Arc<u16>,
    #[deku(bits = 4)]
    f: Cow<'static, u8>,
    #[deku(bits = 20, endian = "little")]
    g: Box<(u32, u32)>,
    #[deku(bits = 5, bit_order = "msb")]
    h: Option<[u8; 2]>,
    i: Ipv4Addr,
}
#[cfg(all(feature = "cfg_alloc_any", feature = "cfg_bits_any"))]
impl Cat for WrapBits {
    const MAX: usize = 18;
    const MIN: usize = 16;
    fn gen() -> Self {
        WrapBits {
            a: Box::new(sy(3) as u8),
            b: Some(sy(11) as u16),
            c: (sy(2) as u8, sy(2) as u8),
            d: [sy(3) as u8, sy(3) as u8, sy(3) as u8],
            e: Arc::new(u16_()),
            f: Cow::Owned(sy(4) as u8),
            g: Box::new((sy(20) as u32, sy(20) as u32)),
            h: Some([sy(5) as u8, sy(5) as u8]),
            i: u32_().into(),
        }
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        Ok(WrapBits {
            a: Box::new(c.u(3, true, false)? as u8),
            b: Some(c.u(11, true, false)? as u16),
            c: (c.u(2, true, false)? as u8, c.u(2, true, false)? as u8),
            d: [c.u(3, true, false)? as u8, c.u(3, true, false)? as u8, c.u(3, true, false)? as u8],
            e: Arc::new(c.be16()?),
            f: Cow::Owned(c.u(4, true, false)? as u8),
            g: Box::new((c.u(20, false, false)? as u32, c.u(20, false, false)? as u32)),
            h: Some([c.u(5, true, false)? as u8, c.u(5, true, false)? as u8]),
            i: (c.u(32, true, false)? as u32).into(),
        })
    }
    fn enc(&self, o: &mut O) {
        o.put(*self.a as u128, 3, true, false);
        if let Some(b) = self.b {
            o.put(b as u128, 11, true, false);
        }
        o.put(self.c.0 as u128, 2, true, false);
        o.put(self.c.1 as u128, 2, true, false);
        for d in self.d {
            o.put(d as u128, 3, true, false);
        }
        o.be16(*self.e);
        o.put(*self.f as u128, 4, true, false);
        o.put(self.g.0 as u128, 20, false, false);
        o.put(self.g.1 as u128, 20, false, false);
        if let Some(h) = self.h {
            o.put(h[0] as u128, 5, true, false);
            o.put(h[1] as u128, 5, true, false);
        }
        o.put(u32::from(self.i) as u128, 32, true, false);
    }
}
/// a hasher that does not depend on the run
#[derive(Default, Clone)]
pub struct Hash0(u64);
impl core::hash::Hasher for Hash0 {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}
pub type BH = core::hash::BuildHasherDefault<Hash0>;
#[cfg(feature = "cfg_std_any")]
#[derive(DekuRead, DekuWrite, PartialEq, Clone)]
#[deku(endian = "big")]
pub struct Maps {
    n: u8,
    #[deku(count = "*n & 3")]
    m: std::collections::HashMap<u8, u16, BH>,
    #[deku(bytes_read = "(*n >> 2) & 6")]
    s: std::collections::HashSet<u16, BH>,
    t: u8,
}
#[cfg(feature = "cfg_std_any")]
impl Cat for Maps {
    const MAX: usize = 12;
    const MIN: usize = 9;
    fn gen() -> Self {
        let (p, q) = (pick(0, 2), pick(0, 2));
        let mut m = std::collections::HashMap::default();
        let mut s = std::collections::HashSet::default();
        for _ in 0..p {
            m.insert(u8_(), u16_());
        }
        for _ in 0..q {
            s.insert(u16_());
        }
        assume(m.len() == p && s.len() == q);
        Maps { n: (q << 3 | p) as u8, m, s, t: u8_() }
    }
    fn shape(d: &mut [u8]) {
        only(d, 0, &[0, 1, 2, 3, 8, 9, 10, 16, 25])
    }
    fn dec(c: &mut Cur) -> Result<Self, K> {
        let n = c.u8()?;
        let mut m = std::collections::HashMap::default();
        let mut s = std::collections::HashSet::default();
        for _ in 0..n & 3 {
            let k = c.u8()?;
            m.insert(k, c.be16()?);
        }
        let start = c.pos;
        while c.pos - start != ((n >> 2) & 6) as usize * 8 {
            s.insert(c.be16()?);
        }
        Ok(Maps { n, m, s, t: c.u8()? })
    }
    fn enc(&self, o: &mut O) {
        o.u8(self.n);
        for (k, v) in &self.m {
            o.u8(*k);
            o.be16(*v);
        }
        for v in &self.s {
            o.be16(*v);
        }
        o.u8(self.t);
    }
}
