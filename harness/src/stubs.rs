//! Bodies that stand in for library functions in the symbolic build (listed in DESIGN.md).
#![cfg(not(feature = "native"))]
use crate::sx;

const BAD: core::str::Utf8Error = match core::str::from_utf8(&[0xff]) {
    Err(e) => e,
    Ok(_) => panic!(),
};

/// Text of a value that is only printed in diagnostics.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn symex_stub_fmt_mark(f: *mut core::fmt::Formatter<'static>) -> bool {
    unsafe { (*f).write_str("?").is_err() }
}
/// Decimal text of a concrete integer.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn symex_stub_fmt_int(x: u64, neg: bool, f: *mut core::fmt::Formatter<'static>) -> bool {
    let mut b = [0u8; 20];
    let mut i = 20;
    let mut x = x;
    loop {
        i -= 1;
        b[i] = b'0' + (x % 10) as u8;
        x /= 10;
        if x == 0 {
            break;
        }
    }
    unsafe { (*f).pad_integral(!neg, "", core::str::from_utf8_unchecked(&b[i..])).is_err() }
}

/// UTF-8 validation as a single formula.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn symex_stub_from_utf8(
    out: *mut Result<&'static str, core::str::Utf8Error>,
    p: *const u8,
    n: usize,
) {
    unsafe {
        let s = core::slice::from_raw_parts(p, n);
        out.write(if sx::utf8(s) {
            Ok(core::str::from_utf8_unchecked(s))
        } else {
            Err(BAD)
        })
    }
}
