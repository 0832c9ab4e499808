use crate::common::*;
use crate::file::*;
use crate::gen_::*;
use crate::p01::shaped;
use crate::spec::*;
use crate::sx;
use gvas::GvasFile;
use gvas::game_version::GameVersion;
use std::io::Cursor;

fn round_trip(f: &FileCase, e: &Env, deep: bool) {
    match GvasFile::read_with_hints(&mut Cursor::new(&f.bytes[..]), GameVersion::Default, &e.hints) {
        Ok(v) => {
            if deep {
                sx::check(v == f.value, "the file read is the file encoded");
            }
            let mut out = Cursor::new(Vec::new());
            match v.write(&mut out) {
                Ok(_) => sx::check(sx::eq(out.get_ref(), &f.bytes), "the file is written back byte for byte"),
                Err(_) => sx::check(false, "a file that was read can be written"),
            }
        }
        Err(_) => sx::check(false, "a well-formed file is accepted"),
    }
}
/// P02: a value between two siblings. mode bit 3: header version 3.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_file(param: u32) -> u32 {
    let p = P::new(param);
    let (f, e) = around(&p, p.var & 1 == 1);
    round_trip(&f, &e, p.n <= 4 || p.n > 8);
    sx::reach("end");
    0
}
/// P02: the value nested in structs in an array, in a file.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_file_nested(param: u32) -> u32 {
    let p = P::new(param);
    let (c, mut e) = nested(&p);
    let h = header(p.var & 1 == 1, 2, &p.s(), &p.s(), &e);
    let hints: Vec<(String, String)> = e.hints.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (k, v) in hints {
        let mut s = String::from("Top.");
        s.push_str(&k);
        e.hints.insert(s, v);
    }
    let f = file(h, vec![("Top".into(), c.full(), c.prop)]);
    round_trip(&f, &e, p.n <= 4 || p.n > 8);
    sx::reach("end");
    0
}
/// P02: many properties of different kinds in an arbitrary order, property names arbitrary.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_file_many(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = Env::new();
    let v3 = p.var & 1 == 1;
    let mut ps = Vec::new();
    let mut names: Vec<Vec<u8>> = Vec::new();
    for i in 0..p.n {
        let k = LEAVES[(p.kind as usize + i * (p.sub as usize + 1)) % LEAVES.len()];
        let c = leaf(k, &P { n: 2, sl: 2, mode: p.mode, ..p }, false);
        let s = S::ascii(p.sl);
        for o in &names {
            sx::assume(!sx::eq(o, s.s.as_bytes()));
        }
        if p.sl == 4 {
            sx::assume(!sx::eq(s.s.as_bytes(), b"None"));
        }
        names.push(s.s.as_bytes().to_vec());
        ps.push((s, c.full(), c.prop));
    }
    e.set(EDITOR, CULTURE);
    let h = header(v3, 3, &S::lit("branch"), &S::lit("/Script/Save"), &e);
    let mut b = B(h.bytes);
    let mut m = gvas::types::map::HashableIndexMap::new();
    for (s, enc, q) in ps {
        b.s(&s).raw(&enc);
        m.insert(s.s, q);
    }
    b.lit("None").u32(0);
    let f = FileCase {
        bytes: b.0,
        value: GvasFile { deserialized_game_version: Default::default(), header: h.value, properties: m },
    };
    round_trip(&f, &e, true);
    sx::reach("end");
    0
}
/// P02: a struct of arbitrary type with members of arbitrary names.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_file_members(param: u32) -> u32 {
    let p = P::new(param);
    let c = members(&p, &LEAVES);
    let mut e = Env::new();
    e.set(EDITOR, CULTURE);
    let h = header(p.var & 1 == 1, 0, &S::lit("+"), &S::lit("/S"), &e);
    let z = leaf(INT, &p, false);
    let f = file(h, vec![("Top".into(), c.full(), c.prop), ("Z".into(), z.full(), z.prop)]);
    round_trip(&f, &e, true);
    sx::reach("end");
    0
}
/// P02: a value under an arbitrary name, with a sibling.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_file_name(param: u32) -> u32 {
    let p = P::new(param);
    let q = P { sl: 2, mode: 0, var: 0, ..p };
    let mut e = env_for(&q);
    let c = make(&q, &mut e);
    let h = header(p.var & 1 == 1, 0, &S::lit("+"), &S::lit("/S"), &e);
    let name = fresh(&if p.var & 2 == 2 { more(&p) } else { p }, &["None", "Z"], &mut Vec::new());
    let hints: Vec<(String, String)> = e.hints.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (k, v) in hints {
        let mut s = name.s.clone();
        s.push('.');
        s.push_str(&k);
        e.hints.insert(s, v);
    }
    let z = leaf(INT, &q, false);
    let mut b = B(h.bytes);
    b.s(&name).raw(&c.full()).lit("Z").raw(&z.full()).lit("None").u32(0);
    let mut m = gvas::types::map::HashableIndexMap::new();
    m.insert(name.s, c.prop);
    m.insert("Z".to_string(), z.prop);
    let f = FileCase {
        bytes: b.0,
        value: GvasFile { deserialized_game_version: Default::default(), header: h.value, properties: m },
    };
    round_trip(&f, &e, p.n <= 4);
    sx::reach("end");
    0
}
/// P02: files with many properties and custom versions.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_file_large(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = Env::new();
    e.set(EDITOR, CULTURE);
    let h = header(p.var & 1 == 1, p.n, &S::ascii(p.sl), &S::ascii(p.sl), &e);
    let mut ps = Vec::new();
    for i in 0..p.n {
        let k = LEAVES[(p.kind as usize + i) % LEAVES.len()];
        let c = within(i, p.n, || leaf(k, &P { n: 2, sl: 2, mode: 0, ..p }, false));
        ps.push((format_name(i), c.full(), c.prop));
    }
    let f = file(h, ps);
    round_trip(&f, &e, true);
    sx::reach("end");
    0
}
pub const LEAVES: [u32; 20] = [
    INT, STR, BOOL, BYTE, NAME_NULL, ENUM, UINT64, OBJECT, DELEGATE, FIELD_PATH, INT8, BYTE_NS, GUID, DATETIME, STR_NULL, INT16,
    T_BASE, UNKNOWN, MC_INLINE, CUSTOM,
];

/// P02: whatever is accepted is stable. Input shapes as for P01.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_stable(param: u32) -> u32 {
    let p = P::new(param);
    let (ty, b, mut e) = shaped(&p);
    let head = p.mode & 4 == 0;
    let hint = if head { None } else { Some(sx::u32()) };
    let v = match read(&b, ty, head, hint, &mut e) {
        Ok((v, _)) => v,
        Err(_) => {
            sx::reach("rejected");
            return 0;
        }
    };
    sx::reach("accepted");
    let w = match write(&v, head, &mut e) {
        Ok((w, _)) => w,
        Err(_) => {
            sx::check(false, "an accepted value can be written");
            return 1;
        }
    };
    let o = if head { 4 + ty.len() + 1 } else { 0 };
    match read(&w[o..], ty, head, hint, &mut e) {
        Ok((x, pos)) => {
            sx::check(pos as usize == w.len() - o, "exactly what was written is read");
            sx::check(x == v, "reading what was written yields an equal value");
            match write(&x, head, &mut e) {
                Ok((w2, _)) => sx::check(sx::eq(&w2, &w), "writing again yields the same bytes"),
                Err(_) => sx::check(false, "a stable value can be written"),
            }
        }
        Err(_) => sx::check(false, "what was written can be read"),
    }
    1
}

/// P02: two top-level properties whose names may coincide (elements of a static array).
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_file_dup(param: u32) -> u32 {
    let p = P::new(param);
    let q = P { sl: 2, n: 1, mode: 0, ..p };
    let h = header(true, 0, &S::lit("+"), &S::lit("/S"), &Env::new());
    let mut b = B(h.bytes);
    for i in 0..2u32 {
        let s = q.s();
        b.lit("Slots").lit("NameProperty").u32(s.enc.len() as u32).u32(i).u8(0).s(&s);
    }
    b.lit("None").u32(0);
    match GvasFile::read(&mut Cursor::new(&b.0[..]), GameVersion::Default) {
        Ok(v) => {
            let mut out = Cursor::new(Vec::new());
            match v.write(&mut out) {
                Ok(_) => sx::check(sx::eq(out.get_ref(), &b.0), "a static array at top level is written back byte for byte"),
                Err(_) => sx::check(false, "a file that was read can be written"),
            }
        }
        Err(_) => {}
    }
    sx::reach("end");
    0
}
/// P02: static array of names inside a struct.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_struct_array(param: u32) -> u32 {
    let p = P::new(param);
    let mut b = B::new();
    let c = leaf(INT, &p, false);
    b.lit("a").raw(&c.full());
    for i in 0..p.n as u32 {
        let s = p.s();
        b.lit("Slots").lit("NameProperty").u32(s.enc.len() as u32).u32(i).u8(0).s(&s);
    }
    b.lit("z").raw(&c.full());
    b.lit("None");
    let mut t = B::new();
    t.u32(b.len() as u32).u32(0).lit("Outer").raw(&[0; 16]).u8(0).raw(&b.0);
    let mut e = Env::new();
    match read(&t.0, "StructProperty", true, None, &mut e) {
        Ok((v, _)) => match write(&v, true, &mut e) {
            Ok((out, _)) => sx::check(sx::eq(&out[19..], &t.0), "a static array in a struct is written back byte for byte"),
            Err(_) => sx::check(false, "a value that was read can be written"),
        },
        Err(_) => sx::check(false, "a static array in a struct is accepted"),
    }
    sx::reach("end");
    0
}
