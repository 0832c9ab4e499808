//! Shared drivers: plain reads and writes, faulting readers and writers, error classification.
use crate::gen_::*;
use crate::sx;
use gvas::error::{DeserializeError, Error};
use gvas::properties::{Property, PropertyTrait};
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

pub fn write(v: &Property, header: bool, e: &mut Env) -> Result<(Vec<u8>, usize), Error> {
    let mut out: Vec<u8> = Vec::new();
    let n = v.write(&mut out, header, &mut e.opts())?;
    Ok((out, n))
}
pub fn read(b: &[u8], ty: &str, header: bool, hint: Option<u32>, e: &mut Env) -> Result<(Property, u64), Error> {
    let mut c = Cursor::new(b);
    let p = Property::new(&mut c, ty, header, &mut e.opts(), hint)?;
    Ok((p, c.position()))
}
/// Read starting at offset `at` of the stream.
/// Read from `at` on, the first byte of `b` being at position `base` of the stream.
pub fn read_at(base: u64, b: &[u8], at: u64, ty: &str, header: bool, hint: Option<u32>, e: &mut Env) -> Result<(Property, u64), Error> {
    let mut r = BaseR { data: b, pos: at as usize, base };
    let p = Property::new(&mut r, ty, header, &mut e.opts(), hint)?;
    Ok((p, r.pos as u64))
}
/// An arbitrary position in a stream.
pub fn any_base() -> u64 {
    let base = sx::u64();
    sx::assume(base < 1 << 48);
    base
}

/// Error kinds of failed reads, with the offending value and position.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Code {
    pub kind: u32,
    pub val: u64,
    pub exp: u64,
    pub pos: u64,
}
pub const K_HEADER: u32 = 1;
pub const K_SIZE: u32 = 2;
pub const K_STRING: u32 = 3;
pub const K_STRTERM: u32 = 4;
pub const K_BOOL: u32 = 5;
pub const K_HINT: u32 = 6;
pub const K_ARG: u32 = 7;
pub const K_PROP: u32 = 8;
pub const K_ENUM: u32 = 9;
pub const K_INDEX: u32 = 10;
pub const K_TERM: u32 = 11;
pub const K_UTF16: u32 = 12;
pub const K_UTF8: u32 = 13;
pub const K_SER: u32 = 14;
pub const K_IO: u32 = 15;
pub fn code(e: &Error) -> Code {
    use DeserializeError as D;
    let (kind, val, exp, pos) = match e {
        Error::Deserialize(d) => match d {
            D::InvalidHeader(_) => (K_HEADER, 0, 0, 0),
            D::InvalidValueSize(x, y, p) => (K_SIZE, *y, *x, *p),
            D::InvalidString(x, p) => (K_STRING, *x as u32 as u64, 0, *p),
            D::InvalidStringTerminator(x, p) => (K_STRTERM, *x as u64, 0, *p),
            D::InvalidBoolean(x, p) => (K_BOOL, *x as u64, 0, *p),
            D::MissingHint(_, _, p) => (K_HINT, 0, 0, *p),
            D::MissingArgument(_, p) => (K_ARG, 0, 0, *p),
            D::InvalidProperty(_, p) => (K_PROP, 0, 0, *p),
            D::InvalidEnumValue(_, x, p) => (K_ENUM, *x as u8 as u64, 0, *p),
            D::InvalidArrayIndex(x, p) => (K_INDEX, *x as u64, 0, *p),
            D::InvalidTerminator(x, p) => (K_TERM, *x as u64, 0, *p),
            D::FromUtf16Error(_, p) => (K_UTF16, 0, 0, *p),
            D::FromUtf8Error(_, p) => (K_UTF8, 0, 0, *p),
        },
        Error::Serialize(_) => (K_SER, 0, 0, 0),
        Error::Io(_) => (K_IO, 0, 0, 0),
    };
    Code { kind, val, exp, pos }
}

/// Faults of the underlying stream.
pub const F_NONE: u32 = 0;
pub const F_ERR: u32 = 1;
pub const F_INTR: u32 = 2;
pub const F_SHORT: u32 = 3;
pub const F_ZERO: u32 = 4;
pub const F_BYTEWISE: u32 = 5;
pub const F_HALVES: u32 = 6;
/// errors at an arbitrary number of successive calls
pub const F_OUTAGE: u32 = 7;
/// a failing seek
pub const F_SEEK: u32 = 8;
/// two interruptions or short transfers
pub const F_TWO: u32 = 9;
/// first and last or second call that misbehaves
fn places(kind: u32) -> (u32, u32) {
    match kind {
        F_ERR | F_INTR | F_SHORT | F_ZERO | F_SEEK => (sx::u32(), 0),
        F_OUTAGE | F_TWO => {
            let (a, b) = (sx::u32(), sx::u32());
            sx::assume(a < b);
            (a, b)
        }
        _ => (0, 0),
    }
}
/// What happens at a call that transfers `n` bytes.
fn outcome(kind: u32, call: u32, at: (u32, u32), fired: &mut bool, n: usize) -> io::Result<usize> {
    let err = |k| Err(io::Error::from(k));
    Ok(match kind {
        F_BYTEWISE => n.min(1),
        F_HALVES => (n + 1) / 2,
        F_NONE | F_SEEK => n,
        F_OUTAGE => {
            if (call >= at.0) & (call <= at.1) {
                *fired = true;
                return err(io::ErrorKind::Other);
            }
            n
        }
        F_TWO => {
            if call == at.0 {
                *fired = true;
                return err(io::ErrorKind::Interrupted);
            } else if call == at.1 {
                *fired = true;
                (n + 1) / 2
            } else {
                n
            }
        }
        _ => {
            if *fired || call != at.0 {
                return Ok(n);
            }
            *fired = true;
            match kind {
                F_ERR => return err(io::ErrorKind::Other),
                F_INTR => return err(io::ErrorKind::Interrupted),
                F_ZERO => 0,
                _ => (n + 1) / 2,
            }
        }
    })
}
fn seek_to(s: SeekFrom, pos: usize, len: usize) -> usize {
    match s {
        SeekFrom::Start(p) => p as usize,
        SeekFrom::Current(d) => (pos as i64 + d) as usize,
        SeekFrom::End(d) => (len as i64 + d) as usize,
    }
}

/// Writer that keeps what it accepted and misbehaves at call number `at`.
pub struct FaultW {
    pub out: Vec<u8>,
    pub pos: usize,
    pub call: u32,
    pub seeks: u32,
    pub at: (u32, u32),
    pub kind: u32,
    pub fired: bool,
}
impl FaultW {
    pub fn new(kind: u32) -> FaultW {
        FaultW { out: Vec::new(), pos: 0, call: 0, seeks: 0, at: places(kind), kind, fired: false }
    }
    fn put(&mut self, b: &[u8]) {
        let end = self.pos + b.len();
        if self.out.len() < end {
            self.out.resize(end, 0);
        }
        self.out[self.pos..end].copy_from_slice(b);
        self.pos = end;
    }
}
impl Write for FaultW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let call = self.call;
        self.call += 1;
        let n = outcome(self.kind, call, self.at, &mut self.fired, b.len())?;
        self.put(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for FaultW {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let here = self.kind == F_SEEK && self.seeks == self.at.0;
        self.seeks += 1;
        if here {
            self.fired = true;
            return Err(io::Error::from(io::ErrorKind::Other));
        }
        self.pos = seek_to(s, self.pos, self.out.len());
        Ok(self.pos as u64)
    }
}

/// Reader over `data` that misbehaves at call number `at`.
pub struct FaultR<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub call: u32,
    pub seeks: u32,
    pub at: (u32, u32),
    pub kind: u32,
    pub fired: bool,
}
impl<'a> FaultR<'a> {
    pub fn new(data: &'a [u8], kind: u32) -> FaultR<'a> {
        FaultR { data, pos: 0, call: 0, seeks: 0, at: places(kind), kind, fired: false }
    }
}
impl Read for FaultR<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let call = self.call;
        self.call += 1;
        let n = b.len().min(self.data.len() - self.pos);
        let n = outcome(self.kind, call, self.at, &mut self.fired, n)?;
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for FaultR<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let here = self.kind == F_SEEK && self.seeks == self.at.0;
        self.seeks += 1;
        if here {
            self.fired = true;
            return Err(io::Error::from(io::ErrorKind::Other));
        }
        self.pos = seek_to(s, self.pos, self.data.len());
        Ok(self.pos as u64)
    }
}

/// Reader over the first `limit` bytes of `data`, where `limit` is symbolic.
pub struct CutR<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub limit: usize,
}
impl Read for CutR<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut n = b.len().min(self.data.len() - self.pos);
        if self.pos + n > self.limit {
            n = sx::fork((self.limit - self.pos) as u64) as usize;
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for CutR<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        match s {
            SeekFrom::Start(p) => self.pos = p as usize,
            SeekFrom::Current(d) => self.pos = (self.pos as i64 + d) as usize,
            SeekFrom::End(d) => self.pos = (self.limit as i64 + d) as usize,
        }
        Ok(self.pos as u64)
    }
}

/// Reader over `data` whose first byte is at an arbitrary position of the stream.
pub struct BaseR<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub base: u64,
}
impl<'a> BaseR<'a> {
    pub fn new(data: &'a [u8]) -> BaseR<'a> {
        BaseR { data, pos: 0, base: any_base() }
    }
}
impl Read for BaseR<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for BaseR<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.pos = match s {
            SeekFrom::Start(p) => sx::fork(p - self.base) as usize,
            SeekFrom::Current(d) => (self.pos as i64 + d) as usize,
            SeekFrom::End(d) => (self.data.len() as i64 + d) as usize,
        };
        Ok(self.base + self.pos as u64)
    }
}
