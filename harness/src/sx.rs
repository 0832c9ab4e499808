//! Interface to the symbolic executor. In the `native` build the same calls replay a model.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod raw {
    unsafe extern "C" {
        pub fn symex_bytes(p: *mut u8, n: usize);
        pub fn symex_assume(c: bool);
        pub fn symex_check(c: bool, p: *const u8, n: usize);
        pub fn symex_fork(x: u64) -> u64;
        pub fn symex_observe(x: u64);
        pub fn symex_reach(p: *const u8, n: usize);
        pub fn symex_utf8(p: *const u8, n: usize) -> bool;
        pub fn symex_eq(p: *const u8, q: *const u8, n: usize) -> bool;
        pub fn symex_and(a: bool, b: bool) -> bool;
    }
}

#[cfg(feature = "native")]
pub mod raw {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Replay {
        pub input: Vec<u8>,
        pub pos: usize,
        pub obs: Vec<u64>,
        pub failed: Vec<String>,
        pub assume_failed: bool,
        pub reached: Vec<String>,
    }
    thread_local! { pub static R: RefCell<Replay> = RefCell::new(Replay::default()); }
    /// Payload of the unwinding used to leave a run whose assumption failed.
    pub struct AssumeFailed;
    pub unsafe fn symex_bytes(p: *mut u8, n: usize) {
        R.with(|r| {
            let mut r = r.borrow_mut();
            for i in 0..n {
                let v = r.input.get(r.pos).copied().unwrap_or(0);
                unsafe { *p.add(i) = v };
                r.pos += 1;
            }
        })
    }
    pub unsafe fn symex_assume(c: bool) {
        if !c {
            R.with(|r| r.borrow_mut().assume_failed = true);
            std::panic::resume_unwind(Box::new(AssumeFailed));
        }
    }
    pub unsafe fn symex_check(c: bool, p: *const u8, n: usize) {
        if !c {
            let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
            R.with(|r| r.borrow_mut().failed.push(s.to_string()));
        }
    }
    pub unsafe fn symex_fork(x: u64) -> u64 {
        x
    }
    pub unsafe fn symex_observe(x: u64) {
        R.with(|r| r.borrow_mut().obs.push(x));
    }
    pub unsafe fn symex_reach(p: *const u8, n: usize) {
        let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        R.with(|r| r.borrow_mut().reached.push(s.to_string()));
    }
    pub unsafe fn symex_utf8(p: *const u8, n: usize) -> bool {
        std::str::from_utf8(unsafe { std::slice::from_raw_parts(p, n) }).is_ok()
    }
    pub unsafe fn symex_eq(p: *const u8, q: *const u8, n: usize) -> bool {
        unsafe { std::slice::from_raw_parts(p, n) == std::slice::from_raw_parts(q, n) }
    }
    pub unsafe fn symex_and(a: bool, b: bool) -> bool {
        a & b
    }
}

static PIN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// While pinned, inputs are the fixed byte 1 instead of symbolic.
pub fn pin(on: bool) {
    PIN.store(on, std::sync::atomic::Ordering::Relaxed);
    if !on {
        PINV.store(0, std::sync::atomic::Ordering::Relaxed);
    }
}
pub fn pinned() -> bool {
    PIN.load(std::sync::atomic::Ordering::Relaxed)
}
static PINV: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
/// Like `pin(true)`, with `v` in the first two bytes of every input (seven bits in each).
pub fn pin_to(v: u32) {
    PINV.store(v + 1, std::sync::atomic::Ordering::Relaxed);
    pin(true)
}
/// Fill with fresh unconstrained bytes.
#[inline(never)]
pub fn fill(b: &mut [u8]) {
    if PIN.load(std::sync::atomic::Ordering::Relaxed) {
        b.fill(1);
        let v = PINV.load(std::sync::atomic::Ordering::Relaxed);
        if v > 0 && b.len() > 1 {
            b[0] = (v - 1) as u8 & 127;
            b[1] = (v - 1 >> 7) as u8 & 127;
        }
        return;
    }
    unsafe { raw::symex_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}
static NARROW: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
/// From now on identifiers have one arbitrary byte (the first two) or none (the others).
pub fn narrow_guids() {
    NARROW.store(1, std::sync::atomic::Ordering::Relaxed)
}
/// Back to arbitrary contents everywhere.
pub fn reset() {
    pin(false);
    NARROW.store(0, std::sync::atomic::Ordering::Relaxed)
}
pub fn guid() -> [u8; 16] {
    let k = NARROW.load(std::sync::atomic::Ordering::Relaxed);
    if k == 0 {
        return bytes();
    }
    NARROW.store(k + 1, std::sync::atomic::Ordering::Relaxed);
    let mut g = [0; 16];
    if k < 3 {
        g[k as usize * 5] = u8();
    } else {
        g[7] = 0xa3;
        g[12] = k as u8;
    }
    g
}
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
pub fn bool() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
#[inline(never)]
pub fn assume(c: bool) {
    unsafe { raw::symex_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, label: &str) {
    unsafe { raw::symex_check(c, label.as_ptr(), label.len()) }
}
/// Split into one path per value.
#[inline(never)]
pub fn fork(x: u64) -> u64 {
    unsafe { raw::symex_fork(x) }
}
#[inline(never)]
pub fn observe(x: u64) {
    unsafe { raw::symex_observe(x) }
}
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for x in b {
        observe(*x as u64);
    }
}
#[inline(never)]
pub fn reach(label: &str) {
    unsafe { raw::symex_reach(label.as_ptr(), label.len()) }
}
#[inline(never)]
pub fn utf8(b: &[u8]) -> bool {
    unsafe { raw::symex_utf8(b.as_ptr(), b.len()) }
}
/// Equality of byte strings as one formula, without a path split per byte.
#[inline(never)]
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { raw::symex_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}
#[inline(never)]
pub fn and(a: bool, b: bool) -> bool {
    unsafe { raw::symex_and(a, b) }
}
