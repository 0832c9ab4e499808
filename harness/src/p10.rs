use crate::common::*;
use crate::file::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;
use gvas::game_version::*;
use gvas::{GvasFile, GvasHeader};
use std::io::{Cursor, Seek, SeekFrom, Write};

/// P10: container without compression, arbitrary payload, written at an arbitrary position.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_plz_none(param: u32) -> u32 {
    let p = P::new(param);
    let (mut f, e) = around(&P { var: 0, ..p }, p.n & 1 == 1);
    f.value.deserialized_game_version = DeserializedGameVersion::Palworld(PalworldCompressionType::None);
    let n = f.bytes.len();
    let mut b = B::new();
    b.u32(n as u32).u32(n as u32).raw(b"PlZ").u8(0x30).raw(&f.bytes);
    let mut out = Cursor::new(Vec::new());
    let _ = out.write_all(&[0xcc; 3]);
    // var: over existing contents
    let rest = if p.var == 1 { 5 } else { 0 };
    if rest > 0 {
        let _ = out.write_all(&vec![0xdd; b.len() + rest]);
        out.set_position(3);
    }
    match f.value.write(&mut out) {
        Ok(_) => {
            sx::check(out.position() as usize == 3 + b.len(), "the writer is left at the end of the container");
            let o = out.get_ref();
            sx::check(o.len() == 3 + b.len() + rest, "nothing is written beyond the container");
            if o.len() == 3 + b.len() + rest {
                sx::check(sx::eq(&o[..3], &[0xcc; 3]), "what is before the container is kept");
                sx::check(sx::eq(&o[3..3 + b.len()], &b.0), "the container frames the payload exactly");
                sx::check(sx::eq(&o[3 + b.len()..], &[0xdd; 5][..rest]), "what is after the container is kept");
            }
        }
        Err(_) => sx::check(false, "a file can be written"),
    }
    match GvasFile::read_with_hints(&mut Cursor::new(&b.0[..]), GameVersion::Palworld, &e.hints) {
        Ok(v) => sx::check(v == f.value, "reading the container yields the same file"),
        Err(_) => sx::check(false, "the container is accepted"),
    }
    sx::reach("end");
    0
}

/// P10: arbitrary frame fields around a valid payload.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_plz_frame(param: u32) -> u32 {
    let p = P::new(param);
    let (f, e) = around(&p, p.n & 1 == 1);
    let n = f.bytes.len();
    let (dl, cl, kind) = (sx::u32(), sx::u32(), sx::u8());
    // lengths that cut the payload are taken one by one
    let dl = if dl as usize <= n { sx::fork(dl as u64) as u32 } else { dl };
    let magic: [u8; 3] = sx::bytes();
    let mut b = B::new();
    b.u32(dl).u32(cl).raw(&magic).u8(kind).raw(&f.bytes);
    let magic_ok = sx::eq(&magic, b"PlZ");
    match GvasFile::read_with_hints(&mut Cursor::new(&b.0[..]), GameVersion::Palworld, &e.hints) {
        Ok(v) => {
            sx::check(magic_ok, "a wrong magic is rejected");
            sx::check((kind >= 0x30) & (kind <= 0x32), "an unknown kind is rejected");
            if kind == 0x30 {
                sx::check(dl as usize <= n, "a payload shorter than declared is rejected");
                sx::check(v.deserialized_game_version == DeserializedGameVersion::Palworld(PalworldCompressionType::None), "the kind is remembered");
                sx::check(v.properties == f.value.properties, "the payload is decoded");
                sx::reach("accepted");
            }
        }
        Err(er) => {
            let k = code(&er).kind;
            if magic_ok {
                if kind == 0x30 {
                    sx::check(dl as usize != n, "a well-formed container is accepted");
                } else if !((kind >= 0x30) & (kind <= 0x32)) {
                    sx::check(k == K_ENUM, "an unknown kind is reported as such");
                    sx::reach("kind");
                }
            } else {
                sx::check(k == K_HEADER, "a wrong magic is reported as such");
                sx::reach("magic");
            }
        }
    }
    0
}

/// Checksum of a zlib stream; abstracted to a constant in the symbolic build, as in the decoder.
pub fn adler(d: &[u8]) -> u32 {
    if cfg!(not(feature = "native")) {
        return 1;
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
/// zlib stream of stored blocks of at most `chunk` bytes
pub fn stored(d: &[u8], chunk: usize) -> Vec<u8> {
    let mut b = B::new();
    b.u8(0x78).u8(0x01);
    let mut i = 0;
    loop {
        let n = chunk.min(d.len() - i);
        let last = i + n == d.len();
        b.u8(last as u8).u16(n as u16).u16(!(n as u16)).raw(&d[i..i + n]);
        i += n;
        if last {
            break;
        }
    }
    let a = adler(d);
    b.u8((a >> 24) as u8).u8((a >> 16) as u8).u8((a >> 8) as u8).u8(a as u8);
    b.0
}
/// `big`: size of a further property with fixed contents.
fn fixed_file(n: usize, sym: bool, big: u32) -> FileCase {
    let mut b = B::new();
    b.raw(b"GVAS").u32(2).u32(0x20d).raw(&[1, 0, 2, 0, 3, 0, 4, 0, 0, 0]).lit("+").u32(3).u32(0).lit("/S");
    let mut ps = Vec::new();
    for i in 0..n {
        let x = if sym { sx::u32() } else { 0x01010101u32.wrapping_mul(i as u32 + 3) };
        let mut e = B::new();
        e.lit("IntProperty").u32(4).u32(0).u8(0).u32(x);
        ps.push((format_name(i), e.0, gvas::properties::int_property::IntProperty::new(x as i32).into()));
    }
    if big > 0 {
        let k = SIZES[big as usize];
        let mut raw = Vec::with_capacity(k);
        // neither constant nor without repetition
        let mut x = 7u32;
        for i in 0..k {
            x = x.wrapping_mul(1103515245).wrapping_add(12345);
            raw.push(if i & 0x1000 == 0 { (x >> 16) as u8 } else { (i >> 6) as u8 });
        }
        let mut e = B::new();
        e.lit("BlobProperty").u32(k as u32).u32(0).u8(0).raw(&raw);
        ps.push(("Blob".to_string(), e.0, gvas::properties::unknown_property::UnknownProperty::new("BlobProperty".into(), raw).into()));
    }
    let value = match GvasHeader::read(&mut Cursor::new(&b.0[..])) {
        Ok(h) => h,
        Err(_) => {
            sx::check(false, "a valid header is accepted");
            sx::assume(false);
            unreachable!()
        }
    };
    file(Hdr { bytes: b.0, value }, ps)
}

/// P10: compressed kinds, reading. The stream is built from stored blocks around an arbitrary
/// payload. kind: 0x31 or 0x32.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_plz_read(param: u32) -> u32 {
    let p = P::new(param);
    let f = fixed_file(p.n, p.mode == 1, p.var);
    let z1 = stored(&f.bytes, if p.sl == 0 { 60000 } else { p.sl });
    let zl = z1.len() as u32;
    let z = if p.kind == 0x32 { stored(&z1, 60000) } else { z1 };
    let mut b = B::new();
    let n = f.bytes.len() as u32;
    let dl = if p.sub == 1 { sx::u32() } else { n };
    let dl = if dl <= n { sx::fork(dl as u64) as u32 } else { dl };
    b.u32(dl).u32(zl).raw(b"PlZ").u8(p.kind as u8).raw(&z);
    match GvasFile::read(&mut Cursor::new(&b.0[..]), GameVersion::Palworld) {
        Ok(v) => {
            sx::check(dl <= n, "a payload shorter than declared is rejected");
            let t = if p.kind == 0x32 { PalworldCompressionType::ZlibTwice } else { PalworldCompressionType::Zlib };
            sx::check(v.deserialized_game_version == DeserializedGameVersion::Palworld(t), "the kind is remembered");
            sx::check(v.properties == f.value.properties && v.header == f.value.header, "the payload is decoded");
            sx::reach("accepted");
        }
        Err(_) => {
            sx::check(dl != n, "a well-formed container is accepted");
            sx::reach("rejected");
        }
    }
    0
}

/// P10: compressed kinds, writing. Payload contents fixed, start position arbitrary within `n`.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_plz_write(param: u32) -> u32 {
    let p = P::new(param);
    let mut f = fixed_file(p.n, false, p.var);
    let t = if p.kind == 0x32 { PalworldCompressionType::ZlibTwice } else { PalworldCompressionType::Zlib };
    f.value.deserialized_game_version = DeserializedGameVersion::Palworld(t);
    let at = sx::u8() as usize;
    sx::assume(at < 4);
    let at = sx::fork(at as u64) as usize;
    let mut out = Cursor::new(Vec::new());
    let _ = out.write_all(&vec![0xcc; at]);
    // mode: over existing contents, more of them than needed
    let len = f.bytes.len() * 2 + 1000;
    if p.mode == 1 {
        let _ = out.write_all(&vec![0xdd; len]);
        out.set_position(at as u64);
    }
    match f.value.write(&mut out) {
        Ok(_) => {
            let end = out.position() as usize;
            if p.mode == 1 {
                sx::check(out.get_ref().len() == at + len, "nothing is written beyond the container");
                sx::check(out.get_ref()[end..].iter().all(|x| *x == 0xdd), "what is after the container is kept");
                out.get_mut().truncate(end);
            }
            sx::check(out.get_ref()[..at].iter().all(|x| *x == 0xcc), "what is before the container is kept");
            let o = &out.get_ref()[at..];
            sx::check(end == at + o.len(), "the writer is left at the end of the container");
            sx::check(o.len() > 12, "a container is written");
            let u = |i: usize| u32::from_le_bytes([o[i], o[i + 1], o[i + 2], o[i + 3]]);
            sx::check(u(0) as usize == f.bytes.len(), "the true uncompressed length");
            sx::check(sx::eq(&o[8..11], b"PlZ"), "the magic");
            sx::check(o[11] == p.kind as u8, "the kind");
            match inflate(&o[12..], p.kind == 0x32) {
                Some((d, n)) => {
                    sx::check(u(4) as usize == n, "the true compressed length");
                    sx::check(sx::eq(&d, &f.bytes), "the payload is encoded in the kind");
                }
                None => sx::check(false, "the payload is a valid stream of the kind"),
            }
            match GvasFile::read(&mut Cursor::new(o), GameVersion::Palworld) {
                Ok(v) => sx::check(v == f.value, "reading the container yields the same file"),
                Err(_) => sx::check(false, "the container is accepted"),
            }
        }
        Err(_) => sx::check(false, "a file can be written"),
    }
    sx::reach("end");
    0
}
/// Independent decoder for zlib streams; the whole input must be consumed. Returns the payload
/// and the length of the stream that directly encodes it.
fn inflate(z: &[u8], twice: bool) -> Option<(Vec<u8>, usize)> {
    let d = inflate1(z)?;
    if twice {
        let n = d.len();
        Some((inflate1(&d)?, n))
    } else {
        Some((d, z.len()))
    }
}
struct Bits<'a> {
    d: &'a [u8],
    p: usize,
    b: u32,
    n: u32,
}
impl Bits<'_> {
    fn bits(&mut self, k: u32) -> Option<u32> {
        while self.n < k {
            self.b |= (*self.d.get(self.p)? as u32) << self.n;
            self.p += 1;
            self.n += 8;
        }
        let r = self.b & ((1u32 << k) - 1);
        self.b >>= k;
        self.n -= k;
        Some(r)
    }
}
struct Huff {
    count: [u16; 16],
    sym: Vec<u16>,
}
fn huff(l: &[u8]) -> Huff {
    let mut count = [0u16; 16];
    for x in l {
        count[*x as usize] += 1;
    }
    let mut offs = [0usize; 16];
    for i in 1..15 {
        offs[i + 1] = offs[i] + count[i] as usize;
    }
    let mut sym = vec![0; l.len()];
    for (i, x) in l.iter().enumerate() {
        if *x != 0 {
            sym[offs[*x as usize]] = i as u16;
            offs[*x as usize] += 1;
        }
    }
    Huff { count, sym }
}
fn decode(h: &Huff, b: &mut Bits) -> Option<u16> {
    let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
    for l in 1..16 {
        code |= b.bits(1)? as i32;
        let c = h.count[l] as i32;
        if code - c < first {
            return Some(h.sym[(index + code - first) as usize]);
        }
        index += c;
        first += c;
        first <<= 1;
        code <<= 1;
    }
    None
}
fn inflate1(z: &[u8]) -> Option<Vec<u8>> {
    const LB: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
    const LX: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
    const DB: [u16; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
    const DX: [u8; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
    if z.len() < 6 || z[0] & 15 != 8 || (z[0] as u32 * 256 + z[1] as u32) % 31 != 0 || z[1] & 0x20 != 0 {
        return None;
    }
    let mut b = Bits { d: z, p: 2, b: 0, n: 0 };
    let mut o: Vec<u8> = Vec::new();
    loop {
        let last = b.bits(1)?;
        match b.bits(2)? {
            0 => {
                b.b = 0;
                b.n = 0;
                let n = b.bits(16)?;
                let m = b.bits(16)?;
                if n ^ 0xffff != m {
                    return None;
                }
                o.extend_from_slice(z.get(b.p..b.p + n as usize)?);
                b.p += n as usize;
            }
            k @ (1 | 2) => {
                let (lh, dh);
                if k == 1 {
                    let mut l = [8u8; 288];
                    l[144..256].fill(9);
                    l[256..280].fill(7);
                    lh = huff(&l);
                    dh = huff(&[5; 30]);
                } else {
                    let (nl, nd, nc) = (b.bits(5)? as usize + 257, b.bits(5)? as usize + 1, b.bits(4)? as usize + 4);
                    let mut cl = [0u8; 19];
                    for i in 0..nc {
                        cl[[16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15][i]] = b.bits(3)? as u8;
                    }
                    let ch = huff(&cl);
                    let mut l: Vec<u8> = Vec::new();
                    while l.len() < nl + nd {
                        match decode(&ch, &mut b)? {
                            16 => {
                                let x = *l.last()?;
                                for _ in 0..3 + b.bits(2)? {
                                    l.push(x);
                                }
                            }
                            17 => {
                                for _ in 0..3 + b.bits(3)? {
                                    l.push(0);
                                }
                            }
                            18 => {
                                for _ in 0..11 + b.bits(7)? {
                                    l.push(0);
                                }
                            }
                            x => l.push(x as u8),
                        }
                    }
                    lh = huff(&l[..nl]);
                    dh = huff(&l[nl..nl + nd]);
                }
                loop {
                    let s = decode(&lh, &mut b)? as usize;
                    if s < 256 {
                        o.push(s as u8);
                    } else if s == 256 {
                        break;
                    } else {
                        let s = s - 257;
                        let n = *LB.get(s)? as usize + b.bits(LX[s] as u32)? as usize;
                        let d = decode(&dh, &mut b)? as usize;
                        let d = *DB.get(d)? as usize + b.bits(DX[d] as u32)? as usize;
                        if d > o.len() {
                            return None;
                        }
                        for _ in 0..n {
                            o.push(o[o.len() - d]);
                        }
                    }
                }
            }
            _ => return None,
        }
        if last == 1 {
            break;
        }
    }
    // whole bytes read ahead are given back
    let p = b.p - (b.n / 8) as usize;
    let a = adler(&o);
    if z.len() != p + 4 || u32::from_be_bytes([z[p], z[p + 1], z[p + 2], z[p + 3]]) != a {
        return None;
    }
    Some(o)
}

/// P13: compressed kinds over a faulting writer; the stored length field is filled in last.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_wfault_zlib(param: u32) -> u32 {
    let p = P { var: 0, ..P::new(param) };
    let kind = P::new(param).var;
    let mut f = fixed_file(p.n, false, 0);
    let t = if p.kind == 0x32 { PalworldCompressionType::ZlibTwice } else { PalworldCompressionType::Zlib };
    f.value.deserialized_game_version = DeserializedGameVersion::Palworld(t);
    let mut want = FaultW::new(F_NONE);
    if f.value.write(&mut want).is_err() {
        sx::check(false, "a file can be written");
        return 0;
    }
    let mut w = FaultW::new(kind);
    let r = f.value.write(&mut w);
    if r.is_ok() {
        sx::check(sx::eq(&w.out, &want.out), "success means the complete container was delivered");
        sx::reach("ok");
    } else {
        let mut out = w.out.clone();
        let n = out.len().min(8);
        if n > 4 {
            out[4..n].copy_from_slice(&want.out[4..n]);
        }
        sx::check(out.len() <= want.out.len() && sx::eq(&out, &want.out[..out.len()]), "what was delivered before an error is a prefix");
        sx::reach("err");
    }
    if w.fired {
        sx::reach("fired");
    }
    let _ = w.seek(SeekFrom::Start(0));
    0
}
