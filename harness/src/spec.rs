//! Encoder written from the format description, sharing no code with the crate under check.
use crate::sx;

pub const UE5_RELEASE: [u8; 16] = [
    0x42, 0x5e, 0x9b, 0xd8, 0x46, 0x4d, 0xbd, 0x24, 0xa8, 0xac, 0x12, 0x84, 0x79, 0x17, 0x64, 0xdf,
];
pub const EDITOR: [u8; 16] = [
    0xed, 0x68, 0xb0, 0xe4, 0xe9, 0x42, 0x94, 0xf4, 0x0b, 0xda, 0x31, 0xa2, 0x41, 0xbb, 0x46, 0x2e,
];
/// First version with double precision vectors.
pub const LWC: u32 = 28;
/// First version with 64 bit text arguments.
pub const TEXT64: u32 = 12;
/// First version with the culture invariant string.
pub const CULTURE: u32 = 32;

/// Texts longer than this have arbitrary characters only at both ends.
pub const LONG: usize = 130;

/// Byte string under construction.
#[derive(Clone, Default)]
pub struct B(pub Vec<u8>);
impl B {
    pub fn new() -> B {
        B(Vec::new())
    }
    pub fn raw(&mut self, b: &[u8]) -> &mut B {
        self.0.extend_from_slice(b);
        self
    }
    pub fn u8(&mut self, x: u8) -> &mut B {
        self.raw(&[x])
    }
    pub fn u16(&mut self, x: u16) -> &mut B {
        self.raw(&[x as u8, (x >> 8) as u8])
    }
    pub fn u32(&mut self, x: u32) -> &mut B {
        self.u16(x as u16).u16((x >> 16) as u16)
    }
    pub fn u64(&mut self, x: u64) -> &mut B {
        self.u32(x as u32).u32((x >> 32) as u32)
    }
    pub fn s(&mut self, s: &S) -> &mut B {
        self.raw(&s.enc)
    }
    pub fn lit(&mut self, s: &str) -> &mut B {
        let e = enc_ascii(s.as_bytes());
        self.raw(&e)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

/// Encoded form of single-byte text.
pub fn enc_ascii(t: &[u8]) -> Vec<u8> {
    let mut b = B::new();
    b.u32(t.len() as u32 + 1).raw(t).u8(0);
    b.0
}
/// Encoded form of text given as UTF-16 units.
pub fn enc_wide(t: &[u16]) -> Vec<u8> {
    let mut b = B::new();
    b.u32(0u32.wrapping_sub(t.len() as u32 + 1));
    for u in t {
        b.u16(*u);
    }
    b.u16(0);
    b.0
}

/// A text together with its encoded form.
#[derive(Clone)]
pub struct S {
    pub s: String,
    pub enc: Vec<u8>,
}
impl S {
    pub fn lit(s: &str) -> S {
        S { s: s.to_string(), enc: enc_ascii(s.as_bytes()) }
    }
    /// `n` arbitrary ASCII characters.
    pub fn ascii(n: usize) -> S {
        let mut b = vec![b'x'; n];
        let mut acc = 0u8;
        if n > LONG {
            // long texts: the ends are arbitrary
            sx::fill(&mut b[..2]);
            sx::fill(&mut b[n - 2..]);
            acc |= b[0] | b[1] | b[n - 2] | b[n - 1];
        } else {
            sx::fill(&mut b);
            for x in &b {
                acc |= *x;
            }
        }
        sx::assume(acc < 0x80);
        let enc = enc_ascii(&b);
        S { s: unsafe { String::from_utf8_unchecked(b) }, enc }
    }
    /// Arbitrary characters, one per entry of `classes` (UTF-8 length of the character).
    pub fn chars(classes: &[u8]) -> S {
        let mut u8s = Vec::new();
        let mut u16s = Vec::new();
        let mut wide = false;
        for (i, c) in classes.iter().enumerate() {
            let x = match c {
                _ if sx::pinned() || (classes.len() > LONG && i >= 2 && i + 2 < classes.len()) => [b'x' as u32, 0xe9, 0x20ac, 0x1f600][*c as usize - 1],
                1 => sx::u8() as u32,
                2 | 3 => sx::u16() as u32,
                _ => u32::from_le_bytes([sx::u8(), sx::u8(), sx::u8(), 0]),
            };
            match c {
                1 => {
                    sx::assume(x < 0x80);
                    u8s.push(x as u8);
                    u16s.push(x as u16);
                }
                2 => {
                    wide = true;
                    sx::assume((x >= 0x80) & (x < 0x800));
                    u8s.push(0xc0 | (x >> 6) as u8);
                    u8s.push(0x80 | (x & 63) as u8);
                    u16s.push(x as u16);
                }
                3 => {
                    wide = true;
                    sx::assume((x >= 0x800) & ((x < 0xd800) | (x > 0xdfff)));
                    u8s.push(0xe0 | (x >> 12) as u8);
                    u8s.push(0x80 | ((x >> 6) & 63) as u8);
                    u8s.push(0x80 | (x & 63) as u8);
                    u16s.push(x as u16);
                }
                _ => {
                    wide = true;
                    sx::assume((x >= 0x10000) & (x < 0x110000));
                    u8s.push(0xf0 | (x >> 18) as u8);
                    u8s.push(0x80 | ((x >> 12) & 63) as u8);
                    u8s.push(0x80 | ((x >> 6) & 63) as u8);
                    u8s.push(0x80 | (x & 63) as u8);
                    let y = x.wrapping_sub(0x10000);
                    u16s.push(0xd800 | (y >> 10) as u16);
                    u16s.push(0xdc00 | (y & 0x3ff) as u16);
                }
            }
        }
        let enc = if wide { enc_wide(&u16s) } else { enc_ascii(&u8s) };
        S { s: unsafe { String::from_utf8_unchecked(u8s) }, enc }
    }
}
