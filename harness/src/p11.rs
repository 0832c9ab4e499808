use crate::sx;
use gvas::types::Guid;
use std::str::FromStr;

fn digit(c: u8) -> u8 {
    if c < 10 { b'0' + c } else { b'A' + (c - 10) }
}
fn spelled(b: &[u8; 16]) -> Vec<u8> {
    let mut o = Vec::new();
    for (i, x) in b.iter().enumerate() {
        if i == 4 || i == 6 || i == 8 || i == 10 {
            o.push(b'-');
        }
        o.push(digit(x >> 4));
        o.push(digit(x & 15));
    }
    o
}
/// P11: number forms.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_guid_num(_: u32) -> u32 {
    let b: [u8; 16] = sx::bytes();
    let g = Guid::from_u8(b);
    sx::check(sx::eq(&g.to_u8(), &b), "bytes");
    let w = g.to_u32();
    for i in 0..4 {
        let x = b[4 * i] as u32 | (b[4 * i + 1] as u32) << 8 | (b[4 * i + 2] as u32) << 16 | (b[4 * i + 3] as u32) << 24;
        sx::check(w[i] == x, "words are little-endian groups");
    }
    sx::check(sx::eq(&Guid::from_u32(w).0, &b), "words round trip");
    sx::check(sx::eq(&Guid::from(w).0, &b), "words conversion in");
    let w2: [u32; 4] = g.into();
    sx::check(w2 == w, "words conversion out");
    let n = g.to_u128();
    let mut all = true;
    for i in 0..16 {
        all = all & ((n >> (8 * i)) as u8 == b[i]);
    }
    sx::check(all, "integer is little-endian");
    sx::check(sx::eq(&Guid::from_u128(n).0, &b), "integer round trip");
    sx::check(sx::eq(&Guid::from(n).0, &b), "integer conversion in");
    let n2: u128 = g.into();
    sx::check(n2 == n, "integer conversion out");
    sx::check(g.is_zero() == sx::eq(&b, &[0; 16]), "zero test");
    sx::check(g == Guid(b), "equality");
    sx::reach("end");
    0
}
/// P11: text form with byte `k & 15` arbitrary; `k >> 4` selects the other bytes.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_guid_text(k: u32) -> u32 {
    let mut b = match k >> 4 {
        0 => [0x1fu8, 2, 0x3a, 4, 5, 0xc6, 7, 8, 9, 10, 11, 12, 13, 0xe4, 15, 16],
        1 => [0; 16],
        _ => [0xff; 16],
    };
    let i = (k & 15) as usize;
    sx::fill(&mut b[i..i + 1]);
    let g = Guid::from_u8(b);
    let s = g.to_string();
    let zero = sx::eq(&b, &[0; 16]);
    if zero {
        sx::check(sx::eq(s.as_bytes(), b"0"), "the nil value is a single zero");
        sx::reach("nil");
    } else {
        sx::check(sx::eq(s.as_bytes(), &spelled(&b)), "fixed hexadecimal grouping");
        sx::reach("spelled");
    }
    match Guid::from_str(&s) {
        Ok(h) => sx::check(sx::eq(&h.0, &b), "text round trip"),
        Err(_) => sx::check(false, "the text form parses"),
    }
    sx::observe_bytes(s.as_bytes());
    0
}
/// What the text stands for. Hyphens anywhere, blanks around, one brace at either end are ignored.
fn meaning(s: &[u8]) -> Option<[u8; 16]> {
    let mut t: Vec<u8> = Vec::new();
    for c in s {
        if *c != b'-' {
            t.push(*c);
        }
    }
    let blank = |c: u8| c == b' ' || (c >= 9 && c <= 13);
    let (mut i, mut j) = (0, t.len());
    while i < j && blank(t[i]) {
        i += 1;
    }
    while i < j && blank(t[j - 1]) {
        j -= 1;
    }
    if i < j && t[i] == b'{' {
        i += 1;
    }
    if i < j && t[j - 1] == b'}' {
        j -= 1;
    }
    let t = &t[i..j];
    if t.len() == 1 && t[0] == b'0' {
        return Some([0; 16]);
    }
    if t.len() != 32 {
        return None;
    }
    let mut o = [0u8; 16];
    for (k, c) in t.iter().enumerate() {
        let d = if *c >= b'0' && *c <= b'9' {
            c - b'0'
        } else if *c >= b'a' && *c <= b'f' {
            c - b'a' + 10
        } else if *c >= b'A' && *c <= b'F' {
            c - b'A' + 10
        } else {
            return None;
        };
        o[k / 2] = o[k / 2] << 4 | d;
    }
    Some(o)
}
fn compare(t: &[u8]) {
    let want = meaning(t);
    let s = unsafe { std::str::from_utf8_unchecked(t) };
    match (Guid::from_str(s), want) {
        (Ok(g), Some(w)) => {
            sx::check(sx::eq(&g.0, &w), "the GUID whose digits were given");
            sx::reach("parsed");
        }
        (Err(_), None) => sx::reach("rejected"),
        (Ok(_), None) => sx::check(false, "anything else is an error"),
        (Err(_), Some(_)) => sx::check(false, "a GUID text is accepted"),
    }
}
/// P11: arbitrary ASCII text of length `n` (short).
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_guid_parse_short(n: u32) -> u32 {
    let t = sx::vec(n as usize);
    let mut acc = 0;
    for x in &t {
        acc |= *x;
    }
    sx::assume(acc < 0x80);
    compare(&t);
    0
}
const TEMPLATES: [&[u8]; 7] = [
    b"0123456789abcdefABCDEF0123456789",
    b"01234567-89ab-cdef-ABCD-EF0123456789",
    b"{01234567-89ab-cdef-ABCD-EF0123456789}",
    b"  01234567-89ab-cdef-ABCD-EF0123456789 ",
    b"{}0123456789abcdefABCDEF0123456789",
    b" {0123456789abcdefABCDEF01234567} ",
    b"--0--",
];
/// P11: a template with two adjacent arbitrary characters at `k`.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_guid_parse(param: u32) -> u32 {
    let mut t = TEMPLATES[(param & 15) as usize].to_vec();
    let k = (param >> 4 & 63) as usize;
    let w = (param >> 10 & 3) as usize;
    if k + w > t.len() {
        sx::reach("parsed");
        return 0;
    }
    let x = sx::vec(w);
    for i in 0..w {
        sx::assume(x[i] < 0x80);
        t[k + i] = x[i];
    }
    compare(&t);
    0
}
/// P11: texts of 32 bytes with a multi-byte character at `k`.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_guid_parse_wide(param: u32) -> u32 {
    let k = (param & 63) as usize;
    let c = (param >> 6 & 7) as usize;
    let mut t = TEMPLATES[(param >> 9 & 15) as usize].to_vec();
    let s = crate::spec::S::chars(&[c as u8]);
    if k + c > t.len() {
        sx::reach("rejected");
        return 0;
    }
    t[k..k + c].copy_from_slice(s.s.as_bytes());
    let s = unsafe { std::str::from_utf8_unchecked(&t) };
    // non-ASCII blanks may surround the digits; only the absence of panics and wrong digits is checked
    match Guid::from_str(s) {
        Ok(_) => sx::check(k == 0 || k + c == t.len(), "a character that is no digit is an error"),
        Err(_) => {}
    }
    sx::reach("rejected");
    0
}
