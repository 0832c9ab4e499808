//! Known computations, to compare the executor with native runs. Not part of any property.
use crate::sx;

fn ops32(k: u32, a: f32, b: f32) -> u64 {
    (match k {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        4 => a.sqrt(),
        5 => a.floor(),
        6 => a.ceil(),
        7 => a.trunc(),
        8 => a.round(),
        9 => a.round_ties_even(),
        10 => a.min(b),
        11 => a.max(b),
        12 => a as i32 as f32,
        13 => a as u8 as f32,
        14 => a as f64 as f32,
        15 => -a,
        16 => a.abs(),
        17 => a.signum(),
        18 => a as i64 as f32,
        _ => {
            if a.is_normal() {
                a
            } else {
                b
            }
        }
    })
    .to_bits() as u64
}
fn ops64(k: u32, a: f64, b: f64) -> u64 {
    (match k {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        4 => a.sqrt(),
        5 => a.floor(),
        6 => a.ceil(),
        7 => a.trunc(),
        8 => a.round(),
        9 => a.round_ties_even(),
        10 => a.min(b),
        11 => a.max(b),
        12 => a as i32 as f64,
        13 => a as u64 as f64,
        14 => a as f32 as f64,
        15 => -a,
        16 => a.abs(),
        17 => a.signum(),
        18 => a as i64 as f64,
        _ => {
            if a.is_subnormal() {
                a
            } else {
                b
            }
        }
    })
    .to_bits()
}
/// Floating point: the result takes several kinds of value, each witnessed and replayed.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_self_fp(param: u32) -> u32 {
    let wide = param & 256 != 0;
    let k = param & 255;
    let r = if wide {
        let (a, b) = (f64::from_bits(sx::u64()), f64::from_bits(sx::u64()));
        sx::assume(!(a.is_nan() & (b.is_nan() | (k > 4 && k < 10))));
        ops64(k, a, b)
    } else {
        let (a, b) = (f32::from_bits(sx::u32()), f32::from_bits(sx::u32()));
        sx::assume(!(a.is_nan() & (b.is_nan() | (k > 4 && k < 10))));
        ops32(k, a, b)
    };
    sx::observe(r);
    let r = if wide { r >> 32 } else { r } as u32;
    let e = r & 0x7f80_0000;
    let mut c = 0;
    if r >> 31 == 1 {
        c += 1;
    }
    if e == 0 {
        c += 2;
    } else if e == 0x7f80_0000 {
        c += 4;
    } else if e == 0x4000_0000 {
        c += 6;
    }
    sx::observe(c);
    sx::reach("end");
    0
}
