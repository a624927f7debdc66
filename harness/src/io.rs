//! Byte sources and sinks for the harnesses.
use deku::no_std_io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

/// plain in-memory source; counts what has been taken from it
pub struct Src<'a> {
    pub d: &'a [u8],
    pub pos: usize,
}
impl<'a> Src<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Src { d, pos: 0 }
    }
}
impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let left = self.d.len().saturating_sub(self.pos);
        let n = if buf.len() < left { buf.len() } else { left };
        if n > 0 {
            buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        }
        self.pos += n;
        Ok(n)
    }
}
fn seek_to(pos: usize, len: usize, s: SeekFrom) -> Result<usize> {
    let (b, o) = match s {
        SeekFrom::Start(n) => return Ok(n as usize),
        SeekFrom::End(n) => (len, n),
        SeekFrom::Current(n) => (pos, n),
    };
    match (b as u64).checked_add_signed(o) {
        Some(n) => Ok(n as usize),
        None => Err(Error::from(ErrorKind::InvalidInput)),
    }
}
impl Seek for Src<'_> {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        self.pos = seek_to(self.pos, self.d.len(), s)?;
        Ok(self.pos as u64)
    }
}
/// fixed-capacity in-memory sink
pub struct Sink<const N: usize> {
    pub d: [u8; N],
    pub pos: usize,
    pub len: usize,
}
impl<const N: usize> Sink<N> {
    pub fn new() -> Self {
        Sink { d: [0; N], pos: 0, len: 0 }
    }
}
impl<const N: usize> Write for Sink<N> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if self.pos > N || buf.len() > N - self.pos {
            return Err(Error::from(ErrorKind::WriteZero));
        }
        self.d[self.pos..self.pos + buf.len()].copy_from_slice(buf);
        self.pos += buf.len();
        if self.pos > self.len {
            self.len = self.pos;
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl<const N: usize> Seek for Sink<N> {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        self.pos = seek_to(self.pos, self.len, s)?;
        Ok(self.pos as u64)
    }
}

/// a part of n; of many any of a few
fn piece(n: usize) -> usize {
    if n > 40 {
        [1, 2, 8, 33, n / 2, n - 1, n][crate::sym::pick(0, 6)]
    } else {
        crate::sym::pick(1, n)
    }
}
/// what a source or a sink does wrong, and where
#[derive(Clone, Copy)]
pub struct Fault {
    /// byte at which to fail
    pub at: usize,
    pub kind: Option<ErrorKind>,
    /// calls that deliver or take one arbitrary piece only
    pub pieces: usize,
    /// call that is interrupted
    pub intr: usize,
    /// delivers or takes one byte at a time, each after so many interruptions
    pub busy: usize,
}
/// what an operating system may report
pub const KINDS: [ErrorKind; 11] = [
    ErrorKind::Other,
    ErrorKind::ConnectionReset,
    ErrorKind::InvalidData,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::WriteZero,
    ErrorKind::AlreadyExists,
];
/// source with faults; also notes how far it was asked to read
pub struct BadSrc<'a> {
    pub d: &'a [u8],
    pub pos: usize,
    pub want: usize,
    pub calls: usize,
    pub intrs: usize,
    pub f: Fault,
}
impl<'a> BadSrc<'a> {
    pub fn new(d: &'a [u8], f: Fault) -> Self {
        BadSrc { d, pos: 0, want: 0, calls: 0, intrs: 0, f }
    }
}
impl Read for BadSrc<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let call = self.calls;
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if call == self.f.intr || self.intrs < self.f.busy {
            self.intrs += 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.intrs = 0;
        if self.want < self.pos + buf.len() {
            self.want = self.pos + buf.len();
        }
        let mut left = self.d.len().saturating_sub(self.pos);
        if let Some(k) = self.f.kind {
            if self.pos >= self.f.at {
                return Err(Error::from(k));
            }
            left = left.min(self.f.at - self.pos);
        }
        let mut n = buf.len().min(left);
        if n > 1 && call < self.f.pieces {
            n = piece(n);
        }
        if self.f.busy > 0 {
            n = n.min(1);
        }
        buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for BadSrc<'_> {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        self.pos = seek_to(self.pos, self.d.len(), s)?;
        Ok(self.pos as u64)
    }
}
/// sink with faults; a kind of `None` with `full` takes nothing from there on
pub struct BadSink<const N: usize> {
    pub d: [u8; N],
    pub pos: usize,
    pub calls: usize,
    pub intrs: usize,
    pub f: Fault,
    pub full: bool,
}
impl<const N: usize> BadSink<N> {
    pub fn new(f: Fault, full: bool) -> Self {
        BadSink { d: [0; N], pos: 0, calls: 0, intrs: 0, f, full }
    }
}
impl<const N: usize> Write for BadSink<N> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let call = self.calls;
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if call == self.f.intr || self.intrs < self.f.busy {
            self.intrs += 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.intrs = 0;
        let mut left = N - self.pos;
        if self.full || self.f.kind.is_some() {
            if self.pos >= self.f.at {
                return match self.f.kind {
                    Some(k) => Err(Error::from(k)),
                    None => Ok(0),
                };
            }
            left = left.min(self.f.at - self.pos);
        }
        let mut n = buf.len().min(left);
        if n > 1 && call < self.f.pieces {
            n = piece(n);
        }
        if self.f.busy > 0 {
            n = n.min(1);
        }
        self.d[self.pos..self.pos + n].copy_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl<const N: usize> Seek for BadSink<N> {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        self.pos = seek_to(self.pos, self.pos, s)?;
        Ok(self.pos as u64)
    }
}
/// one operation of a reader; how many bits it takes
pub fn direct<R: Read + Seek>(r: &mut deku::reader::Reader<R>, what: usize, lsb: bool) -> (std_result::Result<(), deku::DekuError>, usize) {
    let o = if lsb { deku::ctx::Order::Lsb0 } else { deku::ctx::Order::Msb0 };
    let mut b = [0u8; 5];
    match what {
        0 => (r.read_bytes(1, &mut b, o).map(|_| ()), 8),
        1 => (r.read_bytes(5, &mut b, o).map(|_| ()), 40),
        2 => (r.read_bytes_const(&mut [0u8; 1], o).map(|_| ()), 8),
        3 => (r.read_bytes_const(&mut [0u8; 4], o).map(|_| ()), 32),
        4 => (r.read_bytes_const_into(&mut [0u8; 1], o), 8),
        5 => (r.read_bytes_const_into(&mut [0u8; 4], o), 32),
        6 => (r.skip_bits(24, o), 24),
        #[cfg(feature = "cfg_bits_any")]
        7 => (r.skip_bits(3, o), 3),
        #[cfg(feature = "cfg_bits_any")]
        8 => (r.skip_bits(19, o), 19),
        #[cfg(all(feature = "cfg_bits_any", feature = "cfg_alloc_any"))]
        9 => (r.read_bits(3, o).map(|_| ()), 3),
        #[cfg(all(feature = "cfg_bits_any", feature = "cfg_alloc_any"))]
        10 => (r.read_bits(21, o).map(|_| ()), 21),
        _ => (r.read_bytes(2, &mut b, o).map(|_| ()), 16),
    }
}
mod std_result {
    pub use core::result::Result;
}
