use crate::common::*;
use crate::file::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;
use gvas::GvasFile;
use gvas::error::{DeserializeError, Error};
use gvas::game_version::GameVersion;
use gvas::properties::Property;
use std::collections::HashMap;
use std::io::Cursor;

/// Containers holding one struct without a type, at different depths: the bytes after the
/// property type, the type, the path of the struct below the property, and its offset.
struct Site {
    ty: &'static str,
    bytes: Vec<u8>,
    path: String,
    off: usize,
    /// hints of the enclosing structs, below the property
    pre: Vec<String>,
}
const MEMBERS: [&str; 3] = ["A", "Bc", "Some.Name"];
/// Shapes from 12 on: one of the first twelve in a member of the second struct of a container.
fn site(shape: u32, payload: &[u8]) -> Site {
    if shape >= 12 {
        return second(shape / 12, site(shape % 12, payload));
    }
    let body: Vec<u8>;
    let mut h = B::new();
    let mut b = B::new();
    let off;
    let (ty, path): (&'static str, String);
    match shape {
        0 | 1 => {
            // map with a struct key or a struct value
            ty = "MapProperty";
            let key = shape == 0;
            h.lit(if key { "StructProperty" } else { "IntProperty" });
            h.lit(if key { "IntProperty" } else { "StructProperty" });
            b.u32(0).u32(1);
            if key {
                off = b.len();
                b.raw(payload).u32(7);
                path = "MapProperty.Key.StructProperty".into();
            } else {
                b.u32(7);
                off = b.len();
                b.raw(payload);
                path = "MapProperty.Value.StructProperty".into();
            }
        }
        2 => {
            ty = "SetProperty";
            h.lit("StructProperty");
            b.u32(0).u32(1);
            off = b.len();
            b.raw(payload);
            path = "SetProperty.StructProperty".into();
        }
        _ => {
            // struct with a plain sibling, holding one of the above
            let i = site(shape % 3, payload);
            ty = "StructProperty";
            h.lit("Outer").raw(&[0; 16]);
            let n = MEMBERS[(shape / 3 - 1) as usize % 3];
            b.lit("first").lit("IntProperty").u32(4).u32(0).u8(0).u32(5);
            b.lit(n).lit(i.ty);
            off = b.len() + i.off;
            b.raw(&i.bytes).lit("None");
            let mut s = String::from("StructProperty.");
            s.push_str(n);
            s.push('.');
            s.push_str(&i.path);
            path = s;
        }
    }
    body = b.0;
    let mut t = B::new();
    t.u32(body.len() as u32).u32(0).raw(&h.0).u8(0);
    let o = t.len() + off;
    t.raw(&body);
    Site { ty, bytes: t.0, path, off: o, pre: Vec::new() }
}
fn second(wrap: u32, i: Site) -> Site {
    let mut h = B::new();
    let mut b = B::new();
    let mut one = B::new();
    one.lit("x").lit("IntProperty").u32(4).u32(0).u8(0).u32(5).lit("None");
    let mut two = B::new();
    two.lit("x").lit("IntProperty").u32(4).u32(0).u8(0).u32(6).lit("M").lit(i.ty);
    let mut off = two.len() + i.off;
    two.raw(&i.bytes).lit("None");
    let (ty, pre): (&'static str, &str) = match wrap {
        1 => {
            h.lit("IntProperty").lit("StructProperty");
            b.u32(0).u32(2).u32(1).raw(&one.0).u32(2);
            ("MapProperty", "MapProperty.Value.StructProperty")
        }
        2 => {
            h.lit("StructProperty").lit("IntProperty");
            b.u32(0).u32(2).raw(&one.0).u32(2);
            ("MapProperty", "MapProperty.Key.StructProperty")
        }
        3 => {
            h.lit("StructProperty");
            b.u32(0).u32(2).raw(&one.0);
            ("SetProperty", "SetProperty.StructProperty")
        }
        _ => {
            h.lit("StructProperty");
            b.u32(2).lit("F").lit("StructProperty").u64((one.len() + two.len()) as u64).lit("Thing").raw(&[0; 16]).u8(0).raw(&one.0);
            ("ArrayProperty", "ArrayProperty")
        }
    };
    off += b.len();
    b.raw(&two.0);
    if wrap == 2 {
        b.u32(3);
    }
    let mut t = B::new();
    t.u32(b.len() as u32).u32(0).raw(&h.0).u8(0);
    let off = t.len() + off;
    t.raw(&b.0);
    let mut path = String::from(pre);
    path.push_str(".M.");
    path.push_str(&i.path);
    Site { ty, bytes: t.0, path, off, pre: if wrap < 4 { vec![pre.into()] } else { Vec::new() } }
}
/// A struct whose second member is the given property.
fn outer(i: Site) -> Site {
    let mut b = B::new();
    b.lit("x").lit("IntProperty").u32(4).u32(0).u8(0).u32(6).lit("M").lit(i.ty);
    let off = b.len() + i.off;
    b.raw(&i.bytes).lit("None");
    let mut t = B::new();
    t.u32(b.len() as u32).u32(0).lit("Outer").raw(&[0; 16]).u8(0);
    let off = t.len() + off;
    t.raw(&b.0);
    let below = |x: &String| {
        let mut s = String::from("StructProperty.M.");
        s.push_str(x);
        s
    };
    Site { ty: "StructProperty", bytes: t.0, path: below(&i.path), off, pre: i.pre.iter().map(below).collect() }
}
fn ascii(n: usize) -> String {
    S::ascii(n).s
}
fn missing(e: &Error, path: &str, pos: u64) {
    match e {
        Error::Deserialize(DeserializeError::MissingHint(ty, p, at)) => {
            sx::check(sx::eq(ty.as_bytes(), b"StructProperty"), "the error names the kind");
            sx::check(sx::eq(p.as_bytes(), path.as_bytes()), "the error names the exact path");
            sx::check(*at == pos, "the error names the position of the value");
        }
        _ => sx::check(false, "a missing hint is reported as such"),
    }
}

/// P09: one hint with an arbitrary key of the same length, shape `kind`, stack depth `n`,
/// mode 2: below `sub` structs.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_hint_key(param: u32) -> u32 {
    let p = P::new(param);
    let g: [u8; 16] = sx::bytes();
    let mut s = site(p.kind, &g);
    if p.mode == 2 {
        for _ in 0..p.sub {
            s = outer(s);
        }
    }
    let mut e = Env::new();
    let mut path = String::new();
    for i in 0..p.n {
        let n = format_name(i);
        path.push_str(&n);
        path.push('.');
        e.stack.push(n);
    }
    path.push_str(&s.path);
    let before = e.stack.clone();
    // sl 0: same length; otherwise the hint is longer or shorter
    let len = match p.sl {
        _ if p.mode == 1 => p.sub as usize,
        0 => path.len(),
        1 => path.len() + 1,
        2 => path.len() - 1,
        _ => path.len() - s.path.len() + p.sl,
    };
    let key = ascii(len);
    let hit = sx::eq(key.as_bytes(), path.as_bytes());
    for x in &s.pre {
        let mut f = path[..path.len() - s.path.len()].to_string();
        f.push_str(x);
        if f.len() == key.len() {
            sx::assume(!sx::eq(f.as_bytes(), key.as_bytes()));
        }
        e.hints.insert(f, "Thing".into());
    }
    e.hints.insert(key, "Guid".into());
    if p.mode == 1 && p.sub as usize > path.len() + 3 {
        return 0;
    }
    let mut b = B::new();
    b.raw(&[0; 6]).raw(&s.bytes);
    let base = any_base();
    let r = read_at(base, &b.0, 6, s.ty, true, None, &mut e);
    sx::check(e.stack == before, "path tracking is restored");
    match r {
        Ok((v, _)) => {
            sx::check(hit, "only the exact path selects a hint");
            match write(&v, true, &mut e) {
                Ok((out, _)) => sx::check(sx::eq(&out[4 + s.ty.len() + 1..], &s.bytes), "the struct is decoded with the hint"),
                Err(_) => sx::check(false, "a value that was read can be written"),
            }
            sx::reach("hit");
        }
        Err(er) => {
            sx::check(!hit, "a registered hint is used");
            missing(&er, &path, base + 6 + s.off as u64);
            sx::reach("miss");
        }
    }
    0
}

/// P09: several hints for different paths; each struct gets its own, whatever came before.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_hint_siblings(param: u32) -> u32 {
    let p = P::new(param);
    let g: [u8; 16] = sx::bytes();
    let t: [u8; 8] = sx::bytes();
    let s1 = site(p.kind, &g);
    let s2 = site(p.sub, &t);
    let h = header(p.n & 1 == 1, 0, &S::lit("+"), &S::lit("/S"), &Env::new());
    let mut b = B(h.bytes.clone());
    b.lit("One").lit(s1.ty).raw(&s1.bytes);
    b.lit("Two").lit(s2.ty);
    let at2 = b.len() + s2.off;
    b.raw(&s2.bytes);
    b.lit("None").u32(0);
    let mut p1 = String::from("One.");
    p1.push_str(&s1.path);
    let mut p2 = String::from("Two.");
    p2.push_str(&s2.path);
    let mut hints: HashMap<String, String> = HashMap::new();
    for (n, s) in [("One.", &s1), ("Two.", &s2)] {
        for x in &s.pre {
            let mut f = n.to_string();
            f.push_str(x);
            hints.insert(f, "Thing".into());
        }
    }
    hints.insert(p1.clone(), "Guid".into());
    // mode 0: the second struct has its hint, 1: it has none, 2: the first has none
    if p.mode != 1 {
        hints.insert(p2.clone(), "DateTime".into());
    }
    if p.mode == 2 {
        hints.remove(&p1);
    }
    let mut c = Cursor::new(&b.0[..]);
    match GvasFile::read_with_hints(&mut c, GameVersion::Default, &hints) {
        Ok(f) => {
            sx::check(p.mode == 0, "a struct without a hint is an error");
            let mut out = Cursor::new(Vec::new());
            match f.write(&mut out) {
                Ok(_) => sx::check(sx::eq(out.get_ref(), &b.0), "each struct is decoded with its own hint"),
                Err(_) => sx::check(false, "a file that was read can be written"),
            }
        }
        Err(e) => {
            sx::check(p.mode != 0, "registered hints are used");
            if p.mode == 1 {
                missing(&e, &p2, at2 as u64);
            } else {
                missing(&e, &p1, h.bytes.len() as u64 + 4 + 4 + 4 + s1.ty.len() as u64 + 1 + s1.off as u64);
            }
        }
    }
    sx::reach("end");
    0
}

/// P09: after a failed read the path tracking is what it was, for any input.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_hint_stack(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    sx::pin(true);
    let c = make(&p, &mut e);
    sx::pin(false);
    e.stack.push("Outer".into());
    e.stack.push("x".into());
    // hints under the outer path
    let hints: Vec<(String, String)> = e.hints.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (k, v) in hints {
        let mut s = String::from("Outer.x.");
        s.push_str(&k);
        e.hints.insert(s, v);
    }
    let before = e.stack.clone();
    let mut b = c.tagged();
    // one arbitrary byte anywhere
    let at = sx::u32() as usize;
    sx::assume(at < b.len());
    let at = sx::fork(at as u64) as usize;
    b[at] = sx::u8();
    let r = Property::new(&mut Cursor::new(&b[..]), &c.ty, true, &mut e.opts(), None);
    sx::check(e.stack == before, "path tracking is restored");
    if r.is_ok() {
        sx::reach("ok");
    } else {
        sx::reach("err");
    }
    0
}
