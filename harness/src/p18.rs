use crate::common::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;

fn fixed(k: u32) -> Option<u64> {
    Some(match k {
        INT8 => 1,
        INT16 | UINT16 => 2,
        INT | UINT32 | FLOAT => 4,
        INT64 | UINT64 | DOUBLE => 8,
        BOOL => 0,
        _ => return None,
    })
}
/// Bytes of the property with the given raw header fields, placed as selected by `var`:
/// 0 alone after a prefix, 1 inside a struct, 2 inside a struct in an array of structs, 3 inside a
/// struct in a struct in the second struct of an array, 4 in a map value, 5 in the second element of a set.
/// Returns the stream, where to start, the type to read and the offset of the property.
fn place(c: &Case, inner: &[u8], var: u32) -> (Vec<u8>, u64, String, u64) {
    // below a number of structs
    if var > 5 {
        let mut o = 0;
        let mut bytes = inner.to_vec();
        let mut ty = c.ty.clone();
        for _ in 0..[2, 5, 10, 20][var as usize - 6 & 3] {
            let mut m = B::new();
            m.lit("A").lit("IntProperty").u32(4).u32(0).u8(0).u32(7).lit("V").lit(&ty);
            let at = m.len();
            m.raw(&bytes).lit("None");
            let mut t = B::new();
            t.u32(m.len() as u32).u32(0).lit("Outer").raw(&[0; 16]).u8(0);
            o += t.len() + at;
            t.raw(&m.0);
            bytes = t.0;
            ty = "StructProperty".into();
        }
        let mut b = B::new();
        b.raw(&[0xaa; 5]).raw(&bytes);
        return (b.0, 5, ty, 5 + o as u64);
    }
    let mut b = B::new();
    b.raw(&[0xaa; 5]);
    if var == 0 {
        b.raw(inner).raw(&[0; 8]);
        return (b.0, 5, c.ty.clone(), 5);
    }
    let mut st = B::new();
    st.lit("A").lit("IntProperty").u32(4).u32(0).u8(0).u32(sx::u32());
    st.lit("V").lit(&c.ty);
    let off = st.len();
    st.raw(inner).lit("None");
    if var == 1 {
        b.u32(st.len() as u32).u32(0).lit("Outer").raw(&[0; 16]).u8(0);
        let o = b.len() + off;
        b.raw(&st.0);
        return (b.0, 5, "StructProperty".into(), o as u64);
    }
    if var == 4 {
        let mut bd = B::new();
        bd.u32(0).u32(1).u32(sx::u32());
        let o = bd.len() + off;
        bd.raw(&st.0);
        b.u32(bd.len() as u32).u32(0).lit("IntProperty").lit("StructProperty").u8(0);
        let o = b.len() + o;
        b.raw(&bd.0);
        return (b.0, 5, "MapProperty".into(), o as u64);
    }
    if var == 5 {
        let mut bd = B::new();
        bd.u32(0).u32(2).lit("None");
        let o = bd.len() + off;
        bd.raw(&st.0);
        b.u32(bd.len() as u32).u32(0).lit("StructProperty").u8(0);
        let o = b.len() + o;
        b.raw(&bd.0);
        return (b.0, 5, "SetProperty".into(), o as u64);
    }
    if var == 3 {
        let mut t = B::new();
        t.lit("None").lit("W").lit("StructProperty").u32(st.len() as u32).u32(0).lit("Inner").raw(&sx::bytes::<16>()).u8(0);
        let off = t.len() + off;
        t.raw(&st.0).lit("None");
        let mut bd = B::new();
        bd.u32(2).lit("F").lit("StructProperty").u64(t.len() as u64).lit("Outer").raw(&[0; 16]).u8(0);
        let o = bd.len() + off;
        bd.raw(&t.0);
        b.u32(bd.len() as u32).u32(0).lit("StructProperty").u8(0);
        let o = b.len() + o;
        b.raw(&bd.0);
        return (b.0, 5, "ArrayProperty".into(), o as u64);
    }
    let mut bd = B::new();
    bd.u32(1).lit("F").lit("StructProperty").u64(st.len() as u64).lit("Outer").raw(&[0; 16]).u8(0);
    let o = bd.len() + off;
    bd.raw(&st.0);
    b.u32(bd.len() as u32).u32(0).lit("StructProperty").u8(0);
    let o = b.len() + o;
    b.raw(&bd.0);
    (b.0, 5, "ArrayProperty".into(), o as u64)
}
fn setup(param: u32) -> (P, Env, Case) {
    let p = P::new(param);
    let q = P { var: 0, ..p };
    let mut e = env_for(&q);
    let mut c = make(&q, &mut e);
    if p.var > 0 {
        unindexed(&mut c);
        let pre = match p.var {
            1 => "StructProperty.V.",
            3 => "ArrayProperty.W.StructProperty.V.",
            4 => "MapProperty.Value.StructProperty.V.",
            5 => "SetProperty.StructProperty.V.",
            _ => "ArrayProperty.V.",
        };
        let hints: Vec<(String, String)> = e.hints.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        for (k, v) in hints {
            let mut s = String::from(pre);
            s.push_str(&k);
            e.hints.insert(s, v);
        }
        e.hints.insert("MapProperty.Value.StructProperty".into(), "Outer".into());
        e.hints.insert("SetProperty.StructProperty".into(), "Outer".into());
    }
    (p, e, c)
}

/// P18: size, array index and terminator arbitrary.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_bad_header(param: u32) -> u32 {
    let (p, mut e, c) = setup(param);
    let size = c.body.len() as u32;
    // which field is arbitrary: bit 0 index, bit 1 terminator, bit 2 size
    let which = if p.kind >= ARRAY { 7 } else { if p.sub == 0 { 7 } else { p.sub } };
    let idx = if which & 1 == 1 { sx::u32() } else { c.index };
    let term = if which & 2 == 2 { sx::u8() } else { 0 };
    let decl = if which & 4 == 4 { sx::u32() } else { size };
    let mut b = B::new();
    b.u32(decl).u32(idx).raw(&c.head).u8(term).raw(&c.body);
    let (s, at, ty, off) = place(&c, &b.0, p.var);
    let free_index = p.kind == NAME || p.kind == NAME_NULL;
    let size_driven = p.kind == BYTE || p.kind == BYTE_NS || p.kind == UNKNOWN || ((p.kind == ARRAY || p.kind == SET) && (p.sub == BYTE || p.sub == BYTE_NS || p.sub == UNKNOWN));
    let base = any_base();
    let r = read_at(base, &s, at, &ty, true, None, &mut e);
    let off = off + base;
    let tpos = off + 8 + c.head.len() as u64;
    // every defect the header has; with several of them any may be the one that is reported
    let w_size = match fixed(p.kind) {
        Some(f) => Code { kind: K_SIZE, val: decl as u64 | (idx as u64) << 32, exp: f, pos: off + 8 },
        None => Code { kind: K_SIZE, val: size as u64, exp: decl as u64, pos: tpos + 1 },
    };
    let (bad_size, bad_index) = match fixed(p.kind) {
        Some(f) => (w_size.val != f, false),
        None => ((decl != size) & !size_driven, (idx != 0) & !free_index),
    };
    let bad_term = term != 0;
    let w_index = Code { kind: K_INDEX, val: idx as u64, exp: 0, pos: off + 4 };
    let w_term = Code { kind: K_TERM, val: term as u64, exp: 0, pos: tpos };
    match r {
        Ok(_) => {
            sx::check(!(bad_size | bad_index | bad_term), "a malformed header is rejected");
            sx::reach("accepted");
        }
        Err(e) => {
            let k = code(&e);
            sx::observe(k.kind as u64);
            if !(bad_size | bad_index | bad_term) {
                // sizes that steer the interpretation may fail later
                sx::check(size_driven & (decl != size), "a well-formed header is accepted");
                return 0;
            }
            let w = match k.kind {
                K_INDEX => {
                    sx::reach("index");
                    sx::check(bad_index, "the error kind matches the defect");
                    w_index
                }
                K_TERM => {
                    sx::reach("terminator");
                    sx::check(bad_term, "the error kind matches the defect");
                    w_term
                }
                K_SIZE => {
                    sx::reach("size");
                    sx::check(bad_size, "the error kind matches the defect");
                    w_size
                }
                _ => {
                    sx::check(false, "the error kind matches the defect");
                    return 0;
                }
            };
            sx::check(k.val == w.val, "the error carries the offending value");
            sx::check(k.exp == w.exp, "the error carries the declared value");
            sx::check(k.pos == w.pos, "the error carries the position of the field");
        }
    }
    0
}

/// P18: booleans in headers, elements and texts. sub: 0 header, 1 element, 2..4 text fields.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_bad_bool(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = Env::new();
    e.set(EDITOR, CULTURE);
    let x8 = sx::u8();
    let x = sx::u32();
    let mut b = B::new();
    b.raw(&[0xaa; 5]);
    let (ty, head, pos, val): (&str, bool, u64, u64) = match p.sub {
        0 => {
            b.u64(0).u8(x8).u8(0);
            ("BoolProperty", true, 5 + 9, x8 as u64)
        }
        1 => {
            b.u8(x8);
            ("BoolProperty", false, 5 + 1, x8 as u64)
        }
        2 => {
            b.u32(0).u8(255).u32(x).lit("t");
            ("TextProperty", false, 5 + 9, x as u64)
        }
        3 | 4 | 5 => {
            let hist = [4, 5, 6][p.sub as usize - 3];
            b.u32(0).u8(hist);
            if hist == 6 {
                b.lit("c");
            }
            b.u8(2).u32(7);
            let o = b.len() + 4;
            b.u32(x);
            b.u32(0).u32(1).u8(0).raw(&[1; 16]).u32(0).u32(0);
            ("TextProperty", false, o as u64, x as u64)
        }
        k => {
            // number options: sign and grouping flags
            b.u32(0).u8(4).u8(2).u32(7).u32(1);
            if k == 7 {
                b.u32(1);
            }
            let o = b.len() + 4;
            b.u32(x);
            if k == 6 {
                b.u32(1);
            }
            b.u8(0).raw(&[1; 16]).u32(0);
            ("TextProperty", false, o as u64, x as u64)
        }
    };
    b.raw(&[0; 30]);
    let base = any_base();
    let pos = pos + base;
    match read_at(base, &b.0, 5, ty, head, Some(1), &mut e) {
        Ok(_) => {
            sx::check(val < 2, "a boolean other than 0 or 1 is rejected");
            sx::reach("accepted");
        }
        Err(e) => {
            let k = code(&e);
            sx::observe(k.kind as u64);
            sx::check(val > 1, "0 and 1 are accepted");
            sx::check(k == Code { kind: K_BOOL, val, exp: 0, pos }, "kind, value and position of a bad boolean");
            sx::reach("rejected");
        }
    }
    0
}

/// P18: enumeration discriminants of texts. sub selects the field.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_bad_enum(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = Env::new();
    let x = sx::u8();
    let mut b = B::new();
    b.raw(&[0xaa; 5]);
    b.u32(sx::u32());
    let lim;
    let o;
    match p.sub {
        0 => {
            // text history; the tail suits none of the kinds in particular
            o = b.len();
            b.u8(x);
            lim = 14;
            b.raw(&[0; 40]);
        }
        1 => {
            b.u8(7).u64(5);
            o = b.len();
            b.u8(x).lit("c");
            lim = 5;
        }
        2 => {
            b.u8(8).u64(5);
            o = b.len();
            b.u8(x).lit("z").lit("c");
            lim = 5;
        }
        3 => {
            b.u8(9).u64(5);
            o = b.len();
            b.u8(x).u8(1).lit("z").lit("c");
            lim = 5;
        }
        4 => {
            b.u8(9).u64(5).u8(1);
            o = b.len();
            b.u8(x).lit("z").lit("c");
            lim = 5;
        }
        5 => {
            b.u8(10).u32(0).u8(11).lit("t").lit("k");
            o = b.len();
            b.u8(x);
            lim = 2;
        }
        6 => {
            b.u8(4).u8(2).u32(7).u32(1).u32(0).u32(1);
            o = b.len();
            b.u8(x).raw(&[1; 16]).u32(0);
            lim = 7;
        }
        _ => {
            // argument kind
            b.u8(4);
            o = b.len();
            b.u8(x);
            lim = 6;
            b.raw(&[0; 40]);
        }
    }
    let valid = if p.sub == 0 { x == 255 || x < lim } else { x < lim };
    let base = any_base();
    let pos = base + o as u64 + 1;
    match read_at(base, &b.0, 5, "TextProperty", false, None, &mut e) {
        Ok(_) => {
            sx::check(valid, "an unknown discriminant is rejected");
            sx::reach("accepted");
        }
        Err(e) => {
            let k = code(&e);
            sx::observe(k.kind as u64);
            if valid {
                sx::check(!(k.kind == K_ENUM && k.pos == pos) || p.sub == 0 || p.sub == 7, "a known discriminant is accepted");
            } else {
                sx::check(k == Code { kind: K_ENUM, val: x as u64, exp: 0, pos }, "kind, value and position of an unknown discriminant");
                sx::reach("rejected");
            }
        }
    }
    0
}

/// P18: the inner header of an array of structs.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_bad_structs(param: u32) -> u32 {
    let (p, mut e, c) = setup(param);
    let mut i = 4;
    let mut at = [0usize; 2];
    for k in 0..2 {
        at[k] = i;
        let l = i32::from_le_bytes([c.body[i], c.body[i + 1], c.body[i + 2], c.body[i + 3]]);
        i += 4 + if l < 0 { -l as usize * 2 } else { l as usize };
    }
    // [size u64][type][guid][terminator]
    let tl = struct_type(p.sub).len() + 5;
    let t = i + 8 + tl + 16;
    let mut cc = c.body.clone();
    let term = sx::u8();
    cc[t] = term;
    let mut b = B::new();
    b.u32(cc.len() as u32).u32(0).raw(&c.head).u8(0);
    let o = b.len();
    b.raw(&cc);
    let (s, st, ty, off) = place(&c, &b.0, p.var);
    let base = any_base();
    match read_at(base, &s, st, &ty, true, None, &mut e) {
        Ok(_) => {
            sx::check(term == 0, "a bad terminator is rejected");
            sx::reach("accepted");
        }
        Err(e) => {
            let k = code(&e);
            sx::check(term != 0, "a good terminator is accepted");
            sx::check(k == Code { kind: K_TERM, val: term as u64, exp: 0, pos: base + off + (o + t) as u64 }, "kind, value and position of a bad terminator");
            sx::reach("rejected");
        }
    }
    // an element type other than the struct property is an error
    let mut cc = c.body.clone();
    let nt: [u8; 14] = sx::bytes();
    sx::assume(!sx::eq(&nt, b"StructProperty"));
    let mut acc = 0;
    for x in &nt {
        acc |= *x;
    }
    sx::assume(acc < 0x80);
    cc[at[1] + 4..at[1] + 18].copy_from_slice(&nt);
    let mut b = B::new();
    b.u32(cc.len() as u32).u32(0).raw(&c.head).u8(0).raw(&cc);
    let (s, st, ty, _) = place(&c, &b.0, p.var);
    match read_at(base, &s, st, &ty, true, None, &mut e) {
        Ok(_) => sx::check(false, "a wrong inner type is rejected"),
        Err(e) => {
            let k = code(&e).kind;
            sx::check(k == K_PROP, "a wrong inner type is an invalid property");
        }
    }
    0
}
