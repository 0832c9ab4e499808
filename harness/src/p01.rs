use crate::common::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;
use gvas::cursor_ext::ReadExt;
use gvas::game_version::GameVersion;
use gvas::properties::Property;
use gvas::{GvasFile, GvasHeader};
use std::collections::HashMap;
use std::io::Cursor;

/// Arbitrary bytes shaped like a property of kind `kind`: the names in the header are fixed, every
/// size, index, terminator, count and payload byte is arbitrary. mode bit 0: versions present with
/// arbitrary numbers, bit 1: hints present, bit 2: without header.
pub fn shaped(p: &P) -> (&'static str, Vec<u8>, Env) {
    let mut e = Env::new();
    if p.mode & 1 == 1 {
        e.set(UE5_RELEASE, sx::u32());
        e.set(EDITOR, sx::u32());
    }
    let sub = p.sub;
    let vk = MAP_VALUES[p.var as usize];
    if p.mode & 2 == 2 {
        for k in ["MapProperty.Key.StructProperty", "SetProperty.StructProperty", "StructProperty"] {
            e.hints.insert(k.into(), struct_type(sub).into());
        }
        e.hints.insert("MapProperty.Value.StructProperty".into(), struct_type(vk).into());
    }
    let mut b = B::new();
    if p.mode & 4 == 0 {
        b.raw(&sx::bytes::<8>());
        match p.kind {
            BOOL => {
                b.u8(sx::u8());
            }
            BYTE | BYTE_NS | ENUM => {
                b.lit("E");
            }
            ARRAY | SET => {
                b.lit(type_of(sub));
            }
            MAP => {
                b.lit(type_of(sub)).lit(type_of(vk));
            }
            k if is_struct(k) => {
                b.lit(struct_type(k)).raw(&sx::bytes::<16>());
            }
            _ => {}
        }
        b.u8(sx::u8());
    }
    b.raw(&sx::vec(p.n));
    (type_of(p.kind), b.0, e)
}

/// P01: one property.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_any(param: u32) -> u32 {
    let p = P::new(param);
    let (ty, b, mut e) = shaped(&p);
    e.stack.push("x".into());
    let head = p.mode & 4 == 0;
    let hint = if head { None } else { Some(sx::u32()) };
    let r = read(&b, ty, head, hint, &mut e);
    sx::check(e.stack.len() == 1, "path tracking is restored");
    match r {
        Ok((_, pos)) => {
            sx::check(pos as usize <= b.len(), "never reads past the end");
            sx::reach("accepted");
            1
        }
        Err(_) => {
            sx::reach("rejected");
            0
        }
    }
}
/// P01: one property whose header is arbitrary as well, type fixed.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_any_raw(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = Env::new();
    let b = sx::vec(p.n);
    match read(&b, type_of(p.kind), true, None, &mut e) {
        Ok(_) => 1,
        Err(_) => {
            sx::reach("rejected");
            0
        }
    }
}
/// P01: array of structs with a fixed inner type name.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_any_structs(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = Env::new();
    if p.mode & 1 == 1 {
        e.set(UE5_RELEASE, sx::u32());
    }
    let mut b = B::new();
    b.raw(&sx::bytes::<8>()).lit("StructProperty").u8(sx::u8());
    b.raw(&sx::bytes::<4>()).lit("f").lit("StructProperty").raw(&sx::bytes::<8>());
    b.lit(struct_type(p.kind)).raw(&[0; 16]).u8(sx::u8()).raw(&sx::vec(p.n));
    match read(&b.0, "ArrayProperty", true, None, &mut e) {
        Ok(_) => 1,
        Err(_) => {
            sx::reach("rejected");
            0
        }
    }
}
/// P01: a struct with one member of kind `kind` whose header is arbitrary.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_any_member(param: u32) -> u32 {
    let p = P::new(param);
    let (_, b, mut e) = shaped(&p);
    let mut s = B::new();
    s.lit("m").lit(type_of(p.kind)).raw(&b);
    let mut t = B::new();
    t.raw(&sx::bytes::<4>()).u32(0).lit("Outer").raw(&[0; 16]).u8(0).raw(&s.0);
    if p.var & 1 == 1 {
        t.lit("m").lit("IntProperty").u64(4).u8(0).u32(1);
    }
    t.lit("None");
    match read(&t.0, "StructProperty", true, None, &mut e) {
        Ok(_) => {
            sx::reach("accepted");
            1
        }
        Err(_) => {
            sx::reach("rejected");
            0
        }
    }
}
/// P01: a text history of type `sub` followed by arbitrary bytes.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_any_text(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = Env::new();
    if p.mode & 1 == 1 {
        e.set(UE5_RELEASE, sx::u32());
        e.set(EDITOR, sx::u32());
    }
    let mut b = B::new();
    b.u32(sx::u32()).u8(p.sub as u8);
    if p.sub >= 1 && p.sub <= 3 {
        // the source format
        b.u32(0).u8(11).lit("t").lit("k");
    }
    b.raw(&sx::vec(p.n));
    match read(&b.0, "TextProperty", false, None, &mut e) {
        Ok(_) => {
            sx::reach("accepted");
            1
        }
        Err(_) => {
            sx::reach("rejected");
            0
        }
    }
}

fn game(k: u32) -> GameVersion {
    if k == 1 { GameVersion::Palworld } else { GameVersion::Default }
}
/// P01: whole files, everything arbitrary. mode selects the game.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_file_any(param: u32) -> u32 {
    let n = param & 0xffff;
    let b = sx::vec(n as usize);
    match GvasFile::read(&mut Cursor::new(&b[..]), game(param >> 16)) {
        Ok(_) => 1,
        Err(_) => {
            sx::reach("rejected");
            0
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_header_any(n: u32) -> u32 {
    let b = sx::vec(n as usize);
    match GvasHeader::read(&mut Cursor::new(&b[..])) {
        Ok(_) => 1,
        Err(_) => {
            sx::reach("rejected");
            0
        }
    }
}
/// P01: a header whose fixed part is valid, followed by arbitrary bytes.
/// sub 0: from the custom version count on, 1: from the class name on, 2: from the first property
/// name on, 3: from the type of the first property on, 4: from its header on (type `kind`).
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_file_tail(param: u32) -> u32 {
    let p = P::new(param);
    let mut b = B::new();
    b.raw(b"GVAS").u32(3).u32(0x20d).u32(1009).raw(&sx::bytes::<10>()).lit("+").u32(3);
    if p.sub > 0 {
        b.u32(1).raw(&sx::bytes::<16>()).u32(sx::u32());
    }
    if p.sub > 1 {
        b.lit("/S");
    }
    if p.sub > 2 {
        b.lit("Name");
    }
    if p.sub > 3 {
        b.lit(type_of(p.kind));
    }
    b.raw(&sx::vec(p.n));
    let r = if p.mode == 1 {
        // inside an uncompressed container with an arbitrary length
        let mut t = B::new();
        let mut dl = sx::u32();
        if dl as usize <= b.0.len() {
            dl = sx::fork(dl as u64) as u32;
        }
        t.u32(dl).u32(sx::u32()).raw(b"PlZ").u8(0x30).raw(&b.0);
        GvasFile::read(&mut Cursor::new(&t.0[..]), GameVersion::Palworld)
    } else {
        GvasFile::read_with_hints(&mut Cursor::new(&b.0[..]), GameVersion::Default, &HashMap::new())
    };
    match r {
        Ok(_) => {
            sx::reach("accepted");
            1
        }
        Err(_) => {
            sx::reach("rejected");
            0
        }
    }
}
/// P01: container kinds with a compressed payload that is arbitrary.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_plz_any(param: u32) -> u32 {
    let p = P::new(param);
    let mut t = B::new();
    t.u32(sx::u32()).u32(sx::u32()).raw(b"PlZ").u8(p.kind as u8).raw(&sx::vec(p.n));
    match GvasFile::read(&mut Cursor::new(&t.0[..]), GameVersion::Palworld) {
        Ok(_) => 1,
        Err(_) => {
            sx::reach("rejected");
            0
        }
    }
}
/// P01: a string, any bytes.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_str_any(n: u32) -> u32 {
    let b = sx::vec(n as usize);
    let mut c = Cursor::new(&b[..]);
    let _ = c.read_string();
    c.set_position(0);
    let _ = c.read_fstring();
    sx::check(c.position() as usize <= b.len(), "never reads past the end");
    sx::reach("end");
    0
}
/// P01: nesting. kind 0: structs in structs, 1: texts in texts, 2: maps in structs in maps,
/// 3: texts as arguments of texts, 4: arrays of structs in structs; `n` levels.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_deep(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = Env::new();
    let x = sx::u32();
    let mut b: Vec<u8> = Vec::new();
    let ty;
    match p.kind {
        1 => {
            ty = "TextProperty";
            for _ in 0..p.n {
                b.extend_from_slice(&[0, 0, 0, 0, 10]);
            }
            b.extend_from_slice(&[0, 0, 0, 0, 255]);
            for _ in 0..p.n {
                b.push(1);
            }
            let mut t = B::new();
            t.u32(b.len() as u32).u32(0).u8(0).raw(&b);
            b = t.0;
        }
        3 => {
            ty = "TextProperty";
            for _ in 0..p.n {
                b.extend_from_slice(&[0, 0, 0, 0, 4, 4]);
            }
            b.extend_from_slice(&[0, 0, 0, 0, 255]);
            for _ in 0..p.n {
                b.extend_from_slice(&[0; 8]);
            }
            let mut t = B::new();
            t.u32(b.len() as u32).u32(0).u8(0).raw(&b);
            b = t.0;
        }
        k => {
            // prefixes nest outwards: the sizes of the outer levels count the inner ones
            let mut pre: Vec<Vec<u8>> = Vec::new();
            let mut inner = B::new();
            inner.lit("v").lit("IntProperty").u64(4).u8(0).u32(x).lit("None");
            let mut len = inner.len();
            let mut suf = 0;
            for _ in 0..p.n {
                let mut t = B::new();
                match k {
                    0 => {
                        t.lit("s").lit("StructProperty").u32(len as u32).u32(0).lit("S").raw(&[0; 16]).u8(0);
                    }
                    2 => {
                        t.lit("s").lit("MapProperty").u32(len as u32 + 12).u32(0).lit("IntProperty").lit("StructProperty").u8(0);
                        t.u32(0).u32(1).u32(5);
                    }
                    _ => {
                        let mut q = B::new();
                        q.u32(1).lit("f").lit("StructProperty").u64(len as u64).lit("S").raw(&[0; 16]).u8(0);
                        t.lit("s").lit("ArrayProperty").u32((len + q.len()) as u32).u32(0).lit("StructProperty").u8(0).raw(&q.0);
                    }
                }
                len += t.len() + 9;
                suf += 1;
                pre.push(t.0);
            }
            let mut t = B::new();
            t.u32(len as u32).u32(0).lit("S").raw(&[0; 16]).u8(0);
            for x in pre.iter().rev() {
                t.raw(x);
            }
            t.raw(&inner.0);
            for _ in 0..suf {
                t.lit("None");
            }
            ty = "StructProperty";
            b = t.0;
            if k == 2 {
                // every level needs its hint
                let mut path = String::from("StructProperty.s.MapProperty.Value.StructProperty");
                for _ in 0..p.n.min(600) {
                    e.hints.insert(path.clone(), "S".into());
                    path.push_str(".s.MapProperty.Value.StructProperty");
                }
            }
        }
    }
    match Property::new(&mut Cursor::new(&b[..]), ty, true, &mut e.opts(), None) {
        Ok(_) => sx::reach("accepted"),
        Err(_) => sx::reach("rejected"),
    }
    sx::check(e.stack.is_empty(), "path tracking is restored");
    sx::reach("end");
    0
}

/// P01: an untyped struct under a hint whose value is arbitrary. `kind`: length of the hint, `sub`:
/// container.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_any_hint(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = Env::new();
    if p.mode & 1 == 1 {
        e.set(UE5_RELEASE, sx::u32());
    }
    let hint = S::ascii(p.kind as usize).s;
    let mut b = B::new();
    b.raw(&sx::bytes::<8>());
    let ty = match p.sub {
        0 => {
            b.lit("StructProperty").lit("IntProperty");
            e.hints.insert("MapProperty.Key.StructProperty".into(), hint);
            "MapProperty"
        }
        1 => {
            b.lit("IntProperty").lit("StructProperty");
            e.hints.insert("MapProperty.Value.StructProperty".into(), hint);
            "MapProperty"
        }
        _ => {
            b.lit("StructProperty");
            e.hints.insert("SetProperty.StructProperty".into(), hint);
            "SetProperty"
        }
    };
    b.u8(0).u32(0).u32(1).raw(&sx::vec(p.n));
    match read(&b.0, ty, true, None, &mut e) {
        Ok(_) => 1,
        Err(_) => {
            sx::reach("rejected");
            0
        }
    }
}
