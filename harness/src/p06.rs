use crate::common::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;
use gvas::cursor_ext::{ReadExt, WriteExt};
use std::io::Cursor;

/// P06: encoding of a text of any shape, and decoding it back, at a non-zero stream position.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_str_write(param: u32) -> u32 {
    let p = P::new(param);
    let s = p.s();
    let mut out: Vec<u8> = Vec::new();
    match out.write_string(&s.s) {
        Ok(_) => sx::check(sx::eq(&out, &s.enc), "canonical encoding"),
        Err(_) => sx::check(false, "every text can be written"),
    }
    let mut out2: Vec<u8> = Vec::new();
    match out2.write_fstring(Some(&s.s)) {
        Ok(_) => sx::check(sx::eq(&out2, &s.enc), "canonical encoding of an optional text"),
        Err(_) => sx::check(false, "every optional text can be written"),
    }
    if out.len() < 200 {
        sx::observe_bytes(&out);
    }
    let mut b = B::new();
    b.raw(&[1, 2, 3]).raw(&s.enc).raw(&sx::bytes::<2>());
    let mut c = Cursor::new(&b.0[..]);
    c.set_position(3);
    match c.read_string() {
        Ok(t) => {
            sx::check(sx::eq(t.as_bytes(), s.s.as_bytes()), "the text read is the text encoded");
            sx::check(c.position() as usize == 3 + s.enc.len(), "exactly the encoding is consumed");
        }
        Err(_) => sx::check(false, "an encoded text is accepted"),
    }
    c.set_position(3);
    match c.read_fstring() {
        Ok(Some(t)) => {
            sx::check(sx::eq(t.as_bytes(), s.s.as_bytes()), "the optional text read is the text encoded");
            sx::check(c.position() as usize == 3 + s.enc.len(), "exactly the optional encoding is consumed");
        }
        _ => sx::check(false, "an encoded optional text is accepted and not null"),
    }
    sx::reach("end");
    0
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_str_null(_: u32) -> u32 {
    let mut out: Vec<u8> = Vec::new();
    match out.write_fstring(None) {
        Ok(_) => sx::check(sx::eq(&out, &[0; 4]), "null is the length zero"),
        Err(_) => sx::check(false, "null can be written"),
    }
    let t = sx::bytes::<4>();
    let mut b = B::new();
    b.u32(0).raw(&t);
    let mut c = Cursor::new(&b.0[..]);
    match c.read_fstring() {
        Ok(None) => sx::check(c.position() == 4, "null consumes four bytes"),
        _ => sx::check(false, "length zero is null"),
    }
    c.set_position(0);
    match c.read_string() {
        Ok(_) => sx::check(false, "a required text is not null"),
        Err(e) => {
            let k = code(&e);
            sx::check(k == Code { kind: K_STRING, val: 0, exp: 0, pos: 0 }, "null where a text is required");
        }
    }
    sx::reach("end");
    0
}

/// Outcome the format prescribes for the bytes at 3.. of `b`.
enum Want {
    Null,
    Text(usize, Vec<u8>),
    Fail(u32, u64, u64),
    Eof,
}
fn decode(b: &[u8], at: usize) -> Want {
    let d = &b[at..];
    if d.len() < 4 {
        return Want::Eof;
    }
    let len = i32::from_le_bytes([d[0], d[1], d[2], d[3]]);
    if len == 0 {
        return Want::Null;
    }
    if len > 131072 || len < -131072 {
        return Want::Fail(K_STRING, len as u32 as u64, at as u64);
    }
    // lengths that fit the input are told apart, the others are not
    let room = d.len() as i32 - 4;
    if len > room || len < -(room / 2) {
        return Want::Eof;
    }
    let len = sx::fork(len as u32 as u64) as u32 as i32;
    if len > 0 {
        let n = len as usize;
        if d.len() < 4 + n {
            return Want::Eof;
        }
        let t = &d[4..4 + n - 1];
        let z = d[4 + n - 1];
        if z != 0 {
            return Want::Fail(K_STRTERM, z as u64, (at + 4 + n) as u64);
        }
        if !sx::utf8(t) {
            return Want::Fail(K_UTF8, 0, at as u64);
        }
        Want::Text(4 + n, t.to_vec())
    } else {
        let n = (-len) as usize;
        if d.len() < 4 + 2 * n {
            return Want::Eof;
        }
        let u = |i: usize| d[4 + 2 * i] as u16 | (d[5 + 2 * i] as u16) << 8;
        let z = u(n - 1);
        if z != 0 {
            return Want::Fail(K_STRTERM, z as u64, (at + 4 + 2 * n) as u64);
        }
        let mut t: Vec<u8> = Vec::new();
        let mut i = 0;
        while i < n - 1 {
            let x = u(i) as u32;
            i += 1;
            let c = if x & 0xf800 != 0xd800 {
                x
            } else if x & 0x400 != 0 || i == n - 1 {
                return Want::Fail(K_UTF16, 0, at as u64);
            } else {
                let y = u(i) as u32;
                i += 1;
                if y & 0xfc00 != 0xdc00 {
                    return Want::Fail(K_UTF16, 0, at as u64);
                }
                0x10000 + ((x & 0x3ff) << 10) + (y & 0x3ff)
            };
            if c < 0x80 {
                t.push(c as u8);
            } else if c < 0x800 {
                t.push(0xc0 | (c >> 6) as u8);
                t.push(0x80 | (c & 63) as u8);
            } else if c < 0x10000 {
                t.push(0xe0 | (c >> 12) as u8);
                t.push(0x80 | (c >> 6 & 63) as u8);
                t.push(0x80 | (c & 63) as u8);
            } else {
                t.push(0xf0 | (c >> 18) as u8);
                t.push(0x80 | (c >> 12 & 63) as u8);
                t.push(0x80 | (c >> 6 & 63) as u8);
                t.push(0x80 | (c & 63) as u8);
            }
        }
        Want::Text(4 + 2 * n, t)
    }
}

/// P06: any `n` bytes. `mode` 1: read as required text.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_str_read(param: u32) -> u32 {
    let n = (param & 0xff) as usize;
    let required = param >> 8 & 1 == 1;
    let mut b = vec![7, 7, 7];
    b.extend_from_slice(&sx::vec(n));
    let w = decode(&b, 3);
    let mut c = Cursor::new(&b[..]);
    c.set_position(3);
    let r = if required { c.read_string().map(Some) } else { c.read_fstring() };
    match (r, w) {
        (Ok(None), Want::Null) => {
            sx::check(c.position() == 7, "null consumes four bytes");
            sx::reach("null");
        }
        (Ok(Some(s)), Want::Text(used, t)) => {
            sx::check(sx::eq(s.as_bytes(), &t), "the text read is the text encoded");
            sx::check(c.position() as usize == 3 + used, "exactly the encoding is consumed");
            sx::reach("text");
        }
        (Err(e), w) => {
            let k = code(&e);
            sx::observe(k.kind as u64);
            match w {
                Want::Fail(kind, val, pos) => {
                    sx::check(k.kind == kind, "the error kind matches the defect");
                    sx::check(k.val == val, "the error carries the offending value");
                    sx::check(k.pos == pos, "the error carries the position");
                    sx::reach("malformed");
                }
                Want::Eof => sx::check(k.kind == K_IO, "truncated text is an I/O error"),
                Want::Null => sx::check(required && k.kind == K_STRING, "null is an error only where a text is required"),
                Want::Text(..) => sx::check(false, "a well-formed text is accepted"),
            }
        }
        _ => sx::check(false, "malformed text is rejected and null stays null"),
    }
    0
}

/// P06: strings around the length limit; only their ends are arbitrary. `n` is the length including
/// the terminator, less 131070; `mode` 1: wide characters.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_str_limit(param: u32) -> u32 {
    let p = P::new(param);
    let n = 131070 + p.n;
    let wide = p.mode == 1;
    let mut text: Vec<u8> = Vec::with_capacity(2 * n);
    let mut b = B::new();
    b.0.reserve(2 * n + 8);
    b.raw(&[9, 9, 9]);
    b.u32(if wide { -(n as i32) as u32 } else { n as u32 });
    for i in 0..n - 1 {
        let end = i < 2 || i + 3 > n - 1;
        if wide {
            let x = if end { 0x80 | (sx::u8() as u16 & 0x3f) | (sx::u8() as u16 & 3) << 8 } else { 0x80 + (i % 0x700) as u16 };
            b.u16(x);
            text.push(0xc0 | (x >> 6) as u8);
            text.push(0x80 | (x & 63) as u8);
        } else {
            let x = if end { sx::u8() & 0x7f } else { (i % 127) as u8 + 1 };
            b.u8(x);
            text.push(x);
        }
    }
    if wide {
        b.u16(0);
    } else {
        b.u8(0);
    }
    let enc = b.0.len();
    b.raw(&sx::bytes::<2>());
    let mut c = Cursor::new(&b.0[..]);
    for required in [true, false] {
        c.set_position(3);
        let r = if required { c.read_string().map(Some) } else { c.read_fstring() };
        match r {
            Ok(Some(t)) => {
                sx::check(n <= 131072, "a length beyond the limit is rejected");
                sx::check(sx::eq(t.as_bytes(), &text), "the text read is the text encoded");
                sx::check(c.position() as usize == enc, "exactly the encoding is consumed");
                let mut out: Vec<u8> = Vec::with_capacity(2 * n + 8);
                match out.write_string(&t) {
                    Ok(k) => sx::check(k == enc - 3 && sx::eq(&out, &b.0[3..enc]), "canonical encoding"),
                    Err(_) => sx::check(false, "every text can be written"),
                }
            }
            Ok(None) => sx::check(false, "a text is not null"),
            Err(e) => {
                sx::check(n > 131072, "a length up to the limit is accepted");
                let k = code(&e);
                let val = if wide { -(n as i32) as u32 } else { n as u32 };
                sx::check(k == Code { kind: K_STRING, val: val as u64, exp: 0, pos: 3 }, "the error carries the length and the position");
            }
        }
    }
    sx::reach("end");
    0
}
