use crate::common::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;

/// kinds whose payload interpretation depends on the declared size
fn size_driven(p: &P) -> bool {
    let k = if p.kind == ARRAY || p.kind == SET { p.sub } else { p.kind };
    k == BYTE || k == BYTE_NS || k == UNKNOWN
}

/// P04: written size fields are exact; any other declared size is rejected.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_size(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let c = make(&p, &mut e);
    let size = c.body.len() as u32;
    let hdr = c.full().len() - c.body.len();
    match write(&c.prop, true, &mut e) {
        Ok((out, _)) => {
            let o = 4 + c.ty.len() + 1;
            if out.len() < o + 4 {
                sx::check(false, "a header is written");
            } else {
                let s = u32::from_le_bytes([out[o], out[o + 1], out[o + 2], out[o + 3]]);
                sx::check(s as usize == out.len() - hdr, "the written size is the number of payload bytes");
            }
        }
        Err(_) => sx::check(false, "a representable value can be written"),
    }
    let x = sx::u32();
    let mut b = B::new();
    b.u32(x).raw(&c.tagged()[4..]).raw(&[0; 9]);
    let start = c.tagged().len() as u64 - size as u64;
    match read(&b.0, &c.ty, true, None, &mut e) {
        Ok((_, pos)) => {
            sx::check(pos - start == x as u64, "an accepted property has exactly the declared size");
            if !size_driven(&p) {
                sx::check(x == size, "a wrong declared size is rejected");
            }
            sx::reach("accepted");
        }
        Err(_) => {
            sx::check(x != size, "the right declared size is accepted");
            sx::reach("rejected");
        }
    }
    0
}

/// P04: a wrong size in a nested property is rejected although the outer sizes are right.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_size_nested(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let mut c = make(&p, &mut e);
    unindexed(&mut c);
    let d = levels(&p);
    let hints: Vec<(String, String)> = e.hints.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (k, v) in hints {
        let mut s = String::new();
        for _ in 0..d {
            s.push_str("StructProperty.V.");
        }
        s.push_str("StructProperty.V.");
        s.push_str(&k);
        e.hints.insert(s, v);
    }
    let size = c.body.len() as u32;
    let x = sx::u32();
    let mut full = B::new();
    full.lit(&c.ty).u32(x).raw(&c.tagged()[4..]);
    let mut o = custom("Outer", vec![("V".into(), full.0, c.prop)]);
    for _ in 0..d {
        let x = ("V".to_string(), o.full(), o.prop);
        o = custom("Level", vec![x]);
    }
    match read(&o.tagged(), "StructProperty", true, None, &mut e) {
        Ok(_) => {
            sx::check(x == size, "a wrong nested size is rejected");
            sx::reach("accepted");
        }
        Err(_) => {
            sx::check(x != size, "the right nested size is accepted");
            sx::reach("rejected");
        }
    }
    0
}

/// P04: size of the element block of an array of structs, and sizes of the outer property.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_size_structs(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let c = make(&p, &mut e);
    // [count][field][StructProperty][size u64]
    let mut i = 4;
    for _ in 0..2 {
        let l = i32::from_le_bytes([c.body[i], c.body[i + 1], c.body[i + 2], c.body[i + 3]]);
        i += 4 + if l < 0 { -l as usize * 2 } else { l as usize };
    }
    let size = u64::from_le_bytes(c.body[i..i + 8].try_into().unwrap());
    match write(&c.prop, true, &mut e) {
        Ok((out, _)) => {
            let o = out.len() - c.body.len() + i;
            let s = u64::from_le_bytes(out[o..o + 8].try_into().unwrap());
            sx::check(s == size, "the written element block size is exact");
        }
        Err(_) => sx::check(false, "a representable value can be written"),
    }
    let x = sx::u64();
    let mut b = B(c.tagged());
    let o = b.len() - c.body.len() + i;
    b.0[o..o + 8].copy_from_slice(&x.to_le_bytes());
    match read(&b.0, &c.ty, true, None, &mut e) {
        Ok(_) => {
            sx::check(x == size, "a wrong element block size is rejected");
            sx::reach("accepted");
        }
        Err(_) => {
            sx::check(x != size, "the right element block size is accepted");
            sx::reach("rejected");
        }
    }
    0
}
