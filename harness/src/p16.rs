use crate::common::*;
use crate::file::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;
use gvas::GvasFile;
use gvas::game_version::GameVersion;
use gvas::properties::Property;
use std::io::Cursor;

const KNOWN: [&str; 25] = [
    "Int8Property", "ByteProperty", "Int16Property", "UInt16Property", "IntProperty", "UInt32Property", "Int64Property",
    "UInt64Property", "FloatProperty", "DoubleProperty", "BoolProperty", "EnumProperty", "StrProperty", "TextProperty",
    "NameProperty", "StructProperty", "ArrayProperty", "SetProperty", "MapProperty", "ObjectProperty", "DelegateProperty",
    "MulticastInlineDelegateProperty", "MulticastSparseDelegateProperty", "FieldPathProperty", "None",
];
/// An arbitrary type name that is not one of the known ones. mode 0: `sl` ASCII characters,
/// 7: any characters followed by "Property", 8: `sub` ASCII characters.
fn name(p: &P) -> S {
    let s = if p.mode == 8 {
        S::ascii(p.sub as usize)
    } else if p.mode == 7 {
        let a = S::ascii(p.sl);
        let mut t = a.s.clone();
        t.push_str("Property");
        S { enc: enc_ascii(t.as_bytes()), s: t }
    } else {
        p.s()
    };
    for k in KNOWN {
        if k.len() == s.s.len() {
            sx::assume(!sx::eq(k.as_bytes(), s.s.as_bytes()));
        }
    }
    s
}
fn is_unknown(p: &Property) -> bool {
    matches!(p, Property::UnknownProperty(_))
}
fn tagged(raw: &[u8]) -> Vec<u8> {
    let mut b = B::new();
    b.u32(raw.len() as u32).u32(0).u8(0).raw(raw);
    b.0
}

/// P16: alone, followed by arbitrary bytes.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_unknown(param: u32) -> u32 {
    let p = P::new(param);
    let n = name(&p);
    let raw = sx::vec(p.n);
    let mut e = Env::new();
    let mut b = B(tagged(&raw));
    let end = b.len();
    b.raw(&sx::bytes::<3>());
    match read(&b.0, &n.s, true, None, &mut e) {
        Ok((v, pos)) => {
            sx::check(pos as usize == end, "exactly the declared payload is consumed");
            sx::check(is_unknown(&v), "an unknown kind is kept as such");
            let mut full = B::new();
            full.s(&n).raw(&b.0[..end]);
            match write(&v, true, &mut e) {
                Ok((out, c)) => {
                    sx::check(sx::eq(&out, &full.0), "an unknown property is written back identically");
                    sx::check(c == out.len(), "count");
                }
                Err(_) => sx::check(false, "an unknown property can be written"),
            }
            match write(&v, false, &mut e) {
                Ok((out, _)) => sx::check(sx::eq(&out, &raw), "the raw payload is kept"),
                Err(_) => sx::check(false, "the payload of an unknown property can be written"),
            }
        }
        Err(_) => sx::check(false, "an unknown property is accepted"),
    }
    sx::reach("end");
    0
}

/// P16: between two siblings inside a struct (var 0) or a file (var 1).
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_unknown_in(param: u32) -> u32 {
    let p = P::new(param);
    let n = name(&p);
    let raw = sx::vec(p.n);
    let member = S::ascii(3);
    sx::assume(!sx::eq(member.s.as_bytes(), b"pre") & !sx::eq(member.s.as_bytes(), b"pos"));
    let q = P { sl: 2, n: 1, mode: 0, ..p };
    let a = leaf(INT, &q, false);
    let z = leaf(STR, &q, false);
    let mut b = B::new();
    b.lit("pre").raw(&a.full());
    b.s(&member).s(&n).raw(&tagged(&raw));
    b.lit("pos").raw(&z.full());
    b.lit("None");
    if p.var == 0 {
        let mut t = B::new();
        t.u32(b.len() as u32).u32(0).lit("Outer").raw(&[0; 16]).u8(0).raw(&b.0);
        let mut e = Env::new();
        match read(&t.0, "StructProperty", true, None, &mut e) {
            Ok((v, pos)) => {
                sx::check(pos as usize == t.len(), "the following members stay in step");
                match write(&v, true, &mut e) {
                    Ok((out, _)) => sx::check(sx::eq(&out[19..], &t.0), "a struct with an unknown member is written back identically"),
                    Err(_) => sx::check(false, "a struct with an unknown member can be written"),
                }
            }
            Err(_) => sx::check(false, "a struct with an unknown member is accepted"),
        }
    } else {
        let h = header(true, 0, &S::lit("+"), &S::lit("/S"), &Env::new());
        let mut f = B(h.bytes);
        f.raw(&b.0).u32(0);
        match GvasFile::read(&mut Cursor::new(&f.0[..]), GameVersion::Default) {
            Ok(v) => {
                sx::check(v.properties.len() == 3, "no property is lost");
                sx::check(v.properties.get("pos") == Some(&z.prop), "the following properties stay in step");
                let mut out = Cursor::new(Vec::new());
                match v.write(&mut out) {
                    Ok(_) => sx::check(sx::eq(out.get_ref(), &f.0), "a file with an unknown property is written back identically"),
                    Err(_) => sx::check(false, "a file with an unknown property can be written"),
                }
            }
            Err(_) => sx::check(false, "a file with an unknown property is accepted"),
        }
    }
    sx::reach("end");
    0
}

/// P16: several members of a struct, unknown ones and others, some under one name. mode: the order.
/// var 0: two unknown members under one name, 1: an unknown one after a known one, 2: before it,
/// 3: three of them, 4: of two different types, 5: equal payloads, 6: an empty one first.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_unknown_many(param: u32) -> u32 {
    let p = P::new(param);
    let n = name(&P { mode: 0, ..p });
    let n2 = name(&P { mode: 7, ..p });
    let member = S::ascii(3);
    sx::assume(!sx::eq(member.s.as_bytes(), b"pre") & !sx::eq(member.s.as_bytes(), b"pos"));
    let q = P { sl: 2, n: 1, mode: 0, ..p };
    let (a, z, k) = (leaf(INT, &q, false), leaf(STR, &q, false), leaf(BOOL, &q, false));
    let raw: [Vec<u8>; 3] = [sx::vec(p.n), sx::vec(p.n + 1), sx::vec(p.n)];
    let unk = |t: &S, r: &[u8]| {
        let mut b = B::new();
        b.s(t).raw(&tagged(r));
        b.0
    };
    let values: Vec<Vec<u8>> = match p.var {
        0 => vec![unk(&n, &raw[0]), unk(&n, &raw[1])],
        1 => vec![k.full(), unk(&n, &raw[0])],
        2 => vec![unk(&n, &raw[0]), k.full()],
        3 => vec![unk(&n, &raw[0]), unk(&n, &raw[1]), unk(&n, &raw[2])],
        4 => vec![unk(&n, &raw[0]), unk(&n2, &raw[1])],
        5 => vec![unk(&n, &raw[0]), unk(&n, &raw[0])],
        _ => vec![unk(&n, &[]), unk(&n, &raw[0])],
    };
    let mut b = B::new();
    b.lit("pre").raw(&a.full());
    for v in &values {
        b.s(&member).raw(v);
    }
    b.lit("pos").raw(&z.full());
    b.lit("None");
    let mut t = B::new();
    t.u32(b.len() as u32).u32(0).lit("Outer").raw(&[0; 16]).u8(0).raw(&b.0);
    // inside further structs
    for _ in 0..p.mode {
        let mut o = B::new();
        o.lit("in").lit("StructProperty").raw(&t.0).lit("x").raw(&unk(&n, &raw[1])).lit("None");
        t = B::new();
        t.u32(o.len() as u32).u32(0).lit("Outer").raw(&[0; 16]).u8(0).raw(&o.0);
    }
    let mut e = Env::new();
    match read(&t.0, "StructProperty", true, None, &mut e) {
        Ok((v, pos)) => {
            sx::check(pos as usize == t.len(), "the following members stay in step");
            match write(&v, true, &mut e) {
                Ok((out, c)) => {
                    sx::check(sx::eq(&out[19..], &t.0), "a struct with unknown members is written back identically");
                    sx::check(c == out.len(), "count");
                }
                Err(_) => sx::check(false, "a struct with unknown members can be written"),
            }
        }
        Err(_) => sx::check(false, "a struct with unknown members is accepted"),
    }
    sx::reach("end");
    0
}

/// P16: fixed-size elements of arrays (var 0) and sets (var 1): `n` elements of
/// `kind + 256 * sub` bytes.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_unknown_elem(param: u32) -> u32 {
    let p = P::new(param);
    let n = name(&P { kind: 0, ..p });
    let mut b = B::new();
    if p.var == 1 {
        b.u32(sx::u32());
    }
    b.u32(p.n as u32);
    for _ in 0..p.n {
        b.raw(&sx::vec(p.kind as usize + 256 * p.sub as usize));
    }
    let ty = if p.var == 1 { "SetProperty" } else { "ArrayProperty" };
    let mut t = B::new();
    t.u32(b.len() as u32).u32(0).s(&n).u8(0).raw(&b.0);
    let end = t.len();
    t.raw(&[7; 5]);
    let mut e = Env::new();
    match read(&t.0, ty, true, None, &mut e) {
        Ok((v, pos)) => {
            sx::check(pos as usize == end, "exactly the elements are consumed");
            match write(&v, true, &mut e) {
                Ok((out, _)) => sx::check(sx::eq(&out[ty.len() + 5..], &t.0[..end]), "a container of unknown elements is written back identically"),
                Err(_) => sx::check(false, "a container of unknown elements can be written"),
            }
        }
        Err(_) => sx::check(false, "a container of unknown elements is accepted"),
    }
    sx::reach("end");
    0
}
