use crate::common::*;
use crate::file::*;
use crate::gen_::*;
use crate::sx;
use gvas::game_version::GameVersion;
use gvas::properties::Property;
use gvas::{GvasFile, GvasHeader};

/// P14: any proper prefix of a property is an error.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_cut(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let c = make(&p, &mut e);
    let b = c.tagged();
    let l = sx::u32() as usize;
    sx::assume(l < b.len());
    let mut r = CutR { data: &b, pos: 0, limit: l };
    let v = Property::new(&mut r, &c.ty, true, &mut e.opts(), None);
    sx::check(v.is_err(), "a truncated property is an error");
    sx::check(e.stack.is_empty(), "path tracking is restored");
    sx::reach("end");
    0
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_cut_elem(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    if is_struct(p.kind) {
        e.hints.insert("StructProperty".into(), struct_type(p.kind).into());
    }
    let c = leaf(p.kind, &p, true);
    let l = sx::u32() as usize;
    sx::assume(l < c.body.len());
    let mut r = CutR { data: &c.body, pos: 0, limit: l };
    let v = Property::new(&mut r, &c.ty, false, &mut e.opts(), Some(c.body.len() as u32));
    sx::check(v.is_err(), "a truncated element is an error");
    sx::reach("end");
    0
}
/// P14: faults and chunking of the reader.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_rfault(param: u32) -> u32 {
    let p = P { var: 0, ..P::new(param) };
    let kind = P::new(param).var;
    let mut e = env_for(&p);
    let c = make(&p, &mut e);
    let b = c.tagged();
    let mut r = FaultR::new(&b, kind);
    let v = Property::new(&mut r, &c.ty, true, &mut e.opts(), None);
    if r.fired {
        sx::reach("fired");
    }
    match v {
        Ok(v) => {
            sx::check(!(r.fired && (kind == F_ERR || kind == F_ZERO || kind == F_OUTAGE)), "a failing read is an error");
            sx::check(r.pos == b.len(), "consumes exactly the property");
            if p.n <= 4 {
                sx::check(v == c.prop, "chunking does not change the value");
            } else {
                match write(&v, true, &mut e) {
                    Ok((o, _)) => sx::check(sx::eq(&o, &c.full()), "chunking does not change the bits"),
                    Err(_) => sx::check(false, "a value that was read can be written"),
                }
            }
            sx::reach("ok");
        }
        Err(_) => {
            sx::check(r.fired && kind != F_SHORT && kind != F_INTR && kind != F_TWO, "chunking does not cause errors");
            sx::reach("err");
        }
    }
    0
}
/// P14: whole files cut anywhere before the end of the property list.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_cut_file(param: u32) -> u32 {
    let p = P::new(param);
    let (f, e) = around(&p, p.n & 1 == 1);
    let l = sx::u32() as usize;
    sx::assume(l < f.bytes.len() - 4);
    let mut r = CutR { data: &f.bytes, pos: 0, limit: l };
    let v = GvasFile::read_with_hints(&mut r, GameVersion::Default, &e.hints);
    sx::check(v.is_err(), "a truncated file is an error");
    sx::reach("end");
    0
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_cut_header(param: u32) -> u32 {
    let p = P::new(param);
    let h = header(p.sub == 1, p.n, &p.s(), &p.s(), &Env::new());
    let l = sx::u32() as usize;
    sx::assume(l < h.bytes.len());
    let mut r = CutR { data: &h.bytes, pos: 0, limit: l };
    let v = GvasHeader::read(&mut r);
    sx::check(v.is_err(), "a truncated header is an error");
    sx::reach("end");
    0
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_rfault_file(param: u32) -> u32 {
    let p = P { var: 0, ..P::new(param) };
    let kind = P::new(param).var;
    let (f, e) = around(&p, p.n & 1 == 1);
    let mut r = FaultR::new(&f.bytes, kind);
    let v = GvasFile::read_with_hints(&mut r, GameVersion::Default, &e.hints);
    if r.fired {
        sx::reach("fired");
    }
    match v {
        Ok(v) => {
            // an early zero-length read is the end of the stream
            sx::check(!(r.fired && (kind == F_ERR || kind == F_OUTAGE)), "a failing read is an error");
            sx::check(v == f.value, "chunking does not change the file");
            sx::reach("ok");
        }
        Err(_) => {
            sx::check(r.fired && kind != F_SHORT && kind != F_INTR && kind != F_TWO, "chunking does not cause errors");
            sx::reach("err");
        }
    }
    0
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_rfault_header(param: u32) -> u32 {
    let p = P { var: 0, ..P::new(param) };
    let kind = P::new(param).var;
    let h = header(p.sub == 1, p.n, &p.s(), &p.s(), &Env::new());
    let mut r = FaultR::new(&h.bytes, kind);
    let v = GvasHeader::read(&mut r);
    if r.fired {
        sx::reach("fired");
    }
    match v {
        Ok(v) => {
            sx::check(!(r.fired && (kind == F_ERR || kind == F_ZERO || kind == F_OUTAGE)), "a failing read is an error");
            sx::check(v == h.value, "chunking does not change the header");
            sx::reach("ok");
        }
        Err(_) => {
            sx::check(r.fired && kind != F_SHORT && kind != F_INTR && kind != F_TWO, "chunking does not cause errors");
            sx::reach("err");
        }
    }
    0
}
