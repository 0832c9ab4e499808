use crate::common::*;
use crate::file::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;

/// P07: structs whose width depends on the version. `var` 0: version absent, 1: any version,
/// 2: any version among other entries.
fn versions(e: &mut Env, key: [u8; 16], var: u32) -> Option<u32> {
    match var {
        0 => {
            // some other key carries an arbitrary number
            let mut k: [u8; 16] = sx::bytes();
            k[0] = 0xee;
            e.set(k, sx::u32());
            None
        }
        1 => {
            let v = sx::u32();
            e.set(key, v);
            Some(v)
        }
        _ => {
            let mut k: [u8; 16] = sx::bytes();
            k[15] = 1;
            e.set(k, sx::u32());
            let v = sx::u32();
            e.set(key, v);
            let mut k: [u8; 16] = sx::bytes();
            k[15] = 2;
            e.set(k, sx::u32());
            Some(v)
        }
    }
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ver_struct(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = Env::new();
    let v = versions(&mut e, UE5_RELEASE, p.var);
    // the other table entry never matters
    if p.mode == 1 {
        e.set(EDITOR, sx::u32());
    }
    let wide = match v {
        None => false,
        Some(v) => v >= LWC,
    };
    if wide {
        sx::reach("wide");
    } else {
        sx::reach("narrow");
    }
    let fits = lwc(p.kind) == Some(wide);
    let c = leaf(p.kind, &p, false);
    let c = if p.sub == 1 { custom("Outer", vec![("V".into(), c.full(), c.prop)]) } else { c };
    match write(&c.prop, true, &mut e) {
        Ok((out, _)) => {
            sx::check(fits, "a width that does not fit the versions is refused");
            sx::check(sx::eq(&out, &c.full()), "the width the versions call for is written");
        }
        Err(_) => sx::check(!fits, "a fitting width is written"),
    }
    let mut b = B(c.tagged());
    b.raw(&[0; 40]);
    match read(&b.0, &c.ty, true, None, &mut e) {
        Ok((x, _)) => {
            sx::check(fits, "the width is taken from the versions when reading");
            sx::check(x == c.prop, "the value read is the value encoded");
        }
        Err(_) => sx::check(!fits, "a fitting width is read"),
    }
    0
}

/// P07: text arguments and the culture invariant text.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ver_text(param: u32) -> u32 {
    let p = P::new(param);
    let tk = deciding(&p);
    let mut e = Env::new();
    let (wide, culture);
    if text_culture(tk).is_some() {
        let v = versions(&mut e, EDITOR, p.var & 3);
        wide = false;
        culture = match v {
            None => false,
            Some(v) => v >= CULTURE,
        };
        if p.mode == 1 {
            e.set(UE5_RELEASE, sx::u32());
        }
    } else {
        let v = versions(&mut e, UE5_RELEASE, p.var & 3);
        culture = false;
        wide = match v {
            None => false,
            Some(v) => v >= TEXT64,
        };
        if p.mode == 1 {
            e.set(EDITOR, sx::u32());
        }
    }
    if wide || culture {
        sx::reach("new");
    } else {
        sx::reach("old");
    }
    // bits 2 and 3 of var select the argument kind
    let q = P { var: (p.var >> 2) * 2, mode: 0, ..p };
    let c = leaf(p.kind, &q, false);
    let has_int = has_int_args(tk, &q);
    let fits = match (text_wide(tk), text_culture(tk)) {
        (Some(w), _) => !has_int || w == wide,
        (_, Some(x)) => x == culture,
        _ => true,
    };
    match write(&c.prop, true, &mut e) {
        Ok((out, _)) => {
            if text_culture(tk).is_some() {
                // only the presence of the field depends on the version
                if fits {
                    sx::check(sx::eq(&out, &c.full()), "the field set the versions call for is written");
                }
            } else {
                sx::check(fits, "a width that does not fit the versions is refused");
                sx::check(sx::eq(&out, &c.full()), "the width the versions call for is written");
            }
        }
        Err(_) => sx::check(!fits, "a fitting value is written"),
    }
    if tk != p.kind && !fits {
        // what follows the inner text may parse as something else
        return 0;
    }
    match read(&c.tagged(), &c.ty, true, None, &mut e) {
        Ok((x, _)) => {
            // arguments of another width may happen to parse as something else
            if text_culture(tk).is_some() {
                sx::check(fits, "the encoding is taken from the versions when reading");
            }
            if fits {
                sx::check(x == c.prop, "the value read is the value encoded");
            }
        }
        Err(_) => sx::check(!fits, "a fitting encoding is read"),
    }
    0
}
fn has_int_args(k: u32, p: &P) -> bool {
    let i = p.var as usize / 2;
    let ints = |j: usize| (i + j) % 5 < 2;
    match k {
        T_NUMBER | T_PERCENT | T_CURRENCY | T_NUMBER_OPT => ints(0),
        _ => (0..p.n).any(ints),
    }
}

/// P07: an argument of a width the versions do not have is refused, and what is written reads back.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ver_culture(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = Env::new();
    let v = versions(&mut e, EDITOR, p.var);
    let culture = match v {
        None => false,
        Some(v) => v >= CULTURE,
    };
    let c = leaf(p.kind, &p, false);
    // a culture invariant text cannot be expressed without the field
    let fits = p.kind == T_EMPTY || p.kind == T_EMPTY_OLD || culture;
    match write(&c.prop, true, &mut e) {
        Ok((out, _)) => {
            let o = 4 + c.ty.len() + 1;
            match read(&out[o..], &c.ty, true, None, &mut e) {
                Ok((x, _)) => sx::check(x == c.prop, "what is written under the file's versions reads back"),
                Err(_) => sx::check(false, "what is written can be read"),
            }
            sx::reach("written");
        }
        Err(_) => sx::check(!fits, "a fitting value is written"),
    }
    0
}

/// P07: whole files with arbitrary engine numbers and branch. `var` bit 0: version 3 header, bit 1: in
/// a container; `mode`: as for `versions`.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ver_file(param: u32) -> u32 {
    let p = P::new(param);
    let q = P { var: p.sub * 2, sub: 0, mode: 0, ..p };
    let mut e = Env::new();
    let text = p.kind >= TEXT;
    let culture = text_culture(p.kind).is_some();
    let v = versions(&mut e, if culture { EDITOR } else { UE5_RELEASE }, p.mode);
    let min = if culture {
        CULTURE
    } else if text {
        TEXT64
    } else {
        LWC
    };
    let new = match v {
        None => false,
        Some(v) => v >= min,
    };
    let c = leaf(p.kind, &P { sl: 3, ..q }, false);
    let fits = match (lwc(p.kind), text_wide(p.kind), text_culture(p.kind)) {
        (Some(w), _, _) => w == new,
        (_, Some(w), _) => !has_int_args(p.kind, &q) || w == new,
        (_, _, Some(x)) => x == new,
        _ => true,
    };
    let h = header(p.var & 1 == 1, 0, &S::ascii(q.sl), &S::lit("/S"), &e);
    let a = leaf(INT, &q, false);
    let mut f = file(h, vec![("V".to_string(), c.full(), c.prop), ("Z".to_string(), a.full(), a.prop)]);
    let gv = if p.var & 2 == 2 {
        use gvas::game_version::*;
        f.value.deserialized_game_version = DeserializedGameVersion::Palworld(PalworldCompressionType::None);
        let n = f.bytes.len() as u32;
        let mut b = B::new();
        b.u32(n).u32(n).raw(b"PlZ").u8(0x30).raw(&f.bytes);
        f.bytes = b.0;
        GameVersion::Palworld
    } else {
        gvas::game_version::GameVersion::Default
    };
    let mut out = std::io::Cursor::new(Vec::new());
    match f.value.write(&mut out) {
        Ok(_) => {
            if fits {
                sx::check(sx::eq(out.get_ref(), &f.bytes), "the encoding the versions call for is written");
                sx::reach("written");
            } else {
                // only the presence of the culture field adapts to the version
                sx::check(culture, "a width that does not fit the versions is refused");
            }
        }
        Err(_) => {
            sx::check(!fits, "a fitting value is written");
            sx::reach("refused");
        }
    }
    if !fits {
        // what another width parses as is covered by the single properties
        return 0;
    }
    match gvas::GvasFile::read(&mut std::io::Cursor::new(&f.bytes[..]), gv) {
        Ok(x) => sx::check(x == f.value, "the file read is the file encoded"),
        Err(_) => sx::check(false, "a fitting encoding is read"),
    }
    0
}
