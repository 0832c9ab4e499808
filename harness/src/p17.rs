use crate::data::*;
use crate::file::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;
use gvas::GvasFile;
use gvas::game_version::DeserializedGameVersion;
use gvas::properties::Property;
use gvas::types::Guid;

fn through(p: &Property, e: &mut Env, head: bool) {
    let d = match store(p) {
        Ok(d) => d,
        Err(_) => {
            sx::check(false, "a value can be stored");
            return;
        }
    };
    match load::<Property>(d) {
        Ok(q) => {
            sx::check(q == *p, "the value loaded is the value stored");
            // equality may be coarser than what is written
            match (crate::common::write(p, head, e), crate::common::write(&q, head, e)) {
                (Ok((a, _)), Ok((b, _))) => sx::check(sx::eq(&a, &b), "the value loaded is written like the value stored"),
                (Err(_), Err(_)) => {}
                _ => sx::check(false, "the value loaded can be written"),
            }
        }
        Err(_) => sx::check(false, "a stored value can be loaded"),
    }
}

/// P17: a property of every kind.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_serde(param: u32) -> u32 {
    let p = P::new(param);
    sx::narrow_guids();
    let mut e = env_for(&p);
    let c = make(&p, &mut e);
    through(&c.prop, &mut e, true);
    sx::reach("end");
    0
}
/// P17: the form inside containers.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_serde_elem(param: u32) -> u32 {
    let p = P::new(param);
    sx::narrow_guids();
    let mut e = env_for(&p);
    let c = leaf(p.kind, &p, true);
    through(&c.prop, &mut e, false);
    sx::reach("end");
    0
}
/// P17: nested in structs in an array.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_serde_nested(param: u32) -> u32 {
    let p = P::new(param);
    sx::narrow_guids();
    let (c, mut e) = nested(&p);
    through(&c.prop, &mut e, true);
    sx::reach("end");
    0
}
/// P17: structs of arbitrary type with arbitrary member names.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_serde_members(param: u32) -> u32 {
    let p = P::new(param);
    sx::narrow_guids();
    let c = members(&p, &crate::p02::LEAVES);
    through(&c.prop, &mut Env::new(), true);
    sx::reach("end");
    0
}
/// P17: whole files. sub: how the file was read.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_serde_file(param: u32) -> u32 {
    let p = P::new(param);
    sx::narrow_guids();
    let (mut f, _) = around(&P { sub: 0, ..p }, p.var & 1 == 1);
    f.value.deserialized_game_version = match p.sub {
        0 => DeserializedGameVersion::Default,
        k => DeserializedGameVersion::Palworld(gvas_kind(k)),
    };
    let d = match store(&f.value) {
        Ok(d) => d,
        Err(_) => {
            sx::check(false, "a file can be stored");
            return 0;
        }
    };
    match load::<GvasFile>(d) {
        Ok(x) => {
            sx::check(x == f.value, "the file loaded is the file stored");
            sx::check(x.deserialized_game_version == f.value.deserialized_game_version, "the kind of container is kept");
            let mut a = std::io::Cursor::new(Vec::new());
            if p.sub < 2 {
                match x.write(&mut a) {
                    Ok(_) if p.sub == 0 => sx::check(sx::eq(a.get_ref(), &f.bytes), "the file loaded is written like the file stored"),
                    Ok(_) => {}
                    Err(_) => sx::check(false, "the file loaded can be written"),
                }
            }
        }
        Err(_) => sx::check(false, "a stored file can be loaded"),
    }
    sx::reach("end");
    0
}
fn gvas_kind(k: u32) -> gvas::game_version::PalworldCompressionType {
    use gvas::game_version::PalworldCompressionType as T;
    match k {
        1 => T::None,
        2 => T::Zlib,
        _ => T::ZlibTwice,
    }
}
/// P17: headers and identifiers.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_serde_header(param: u32) -> u32 {
    let p = P::new(param);
    sx::narrow_guids();
    let h = header(p.sub == 1, p.n, &p.s(), &p.s(), &Env::new()).value;
    match store(&h).and_then(load::<gvas::GvasHeader>) {
        Ok(x) => sx::check(x == h, "the header loaded is the header stored"),
        Err(_) => sx::check(false, "a header can be stored and loaded"),
    }
    sx::reach("end");
    0
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_serde_guid(param: u32) -> u32 {
    // eight arbitrary bits at a time, over two backgrounds
    let mut g = [if param & 32 != 0 { 0xa7 } else { 0 }; 16];
    g[param as usize & 15] = sx::u8();
    let g = Guid(g);
    match store(&g).and_then(load::<Guid>) {
        Ok(x) => sx::check(sx::eq(&x.0, &g.0), "the identifier loaded is the identifier stored"),
        Err(_) => sx::check(false, "an identifier can be stored and loaded"),
    }
    sx::reach("end");
    0
}
