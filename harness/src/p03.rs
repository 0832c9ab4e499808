use crate::common::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;
use gvas::properties::PropertyTrait;

/// P03: written bytes are the documented layout and read back to the same value.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_layout(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let c = make(&p, &mut e);
    let full = c.full();
    match write(&c.prop, true, &mut e) {
        Ok((out, _)) => {
            if out.len() < 400 {
                sx::observe_bytes(&out);
            }
            sx::check(sx::eq(&out, &full), "written bytes are the documented layout");
        }
        Err(_) => sx::check(false, "a representable value can be written"),
    }
    let b = c.tagged();
    match read(&b, &c.ty, true, None, &mut e) {
        Ok((v, pos)) => {
            sx::check(pos == b.len() as u64, "reading consumes exactly the property");
            if p.n <= 4 || p.n > 8 {
                sx::check(v == c.prop, "the value read is the value encoded");
            }
            match write(&v, true, &mut e) {
                Ok((out, _)) => sx::check(sx::eq(&out, &full), "the value read carries exactly the encoded bits"),
                Err(_) => sx::check(false, "a value that was read can be written"),
            }
        }
        Err(_) => sx::check(false, "the documented layout is accepted"),
    }
    sx::reach("end");
    0
}

/// P03: the form used inside containers.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_layout_elem(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let c = leaf(p.kind, &p, true);
    if is_struct(p.kind) {
        e.hints.insert("StructProperty".into(), struct_type(p.kind).into());
    }
    match write(&c.prop, false, &mut e) {
        Ok((out, _)) => sx::check(sx::eq(&out, &c.body), "written element bytes are the documented layout"),
        Err(_) => sx::check(false, "a representable element can be written"),
    }
    let mut out: Vec<u8> = Vec::new();
    match c.prop.write_body(&mut out, &mut e.opts()) {
        Ok(_) => sx::check(sx::eq(&out, &c.body), "written body is the documented layout"),
        Err(_) => sx::check(false, "a representable body can be written"),
    }
    let mut b = B::new();
    b.raw(&c.body).raw(&sx::bytes::<3>());
    match read(&b.0, &c.ty, false, Some(c.body.len() as u32), &mut e) {
        Ok((v, pos)) => {
            sx::check(pos == c.body.len() as u64, "reading consumes exactly the element");
            if p.n <= 4 || p.n > 8 {
                sx::check(v == c.prop, "the element read is the element encoded");
            }
            match write(&v, false, &mut e) {
                Ok((out, _)) => sx::check(sx::eq(&out, &c.body), "the element read carries exactly the encoded bits"),
                Err(_) => sx::check(false, "an element that was read can be written"),
            }
        }
        Err(_) => sx::check(false, "the documented element layout is accepted"),
    }
    sx::reach("end");
    0
}

/// P03: a property nested two levels deep, between siblings.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_layout_nested(param: u32) -> u32 {
    let p = P::new(param);
    let (c, mut e) = nested(&p);
    let full = c.full();
    match write(&c.prop, true, &mut e) {
        Ok((out, _)) => sx::check(sx::eq(&out, &full), "written bytes are the documented layout"),
        Err(_) => sx::check(false, "a representable value can be written"),
    }
    let b = c.tagged();
    match read(&b, &c.ty, true, None, &mut e) {
        Ok((v, pos)) => {
            sx::check(pos == b.len() as u64, "reading consumes exactly the property");
            if p.n <= 4 || p.n > 8 {
                sx::check(v == c.prop, "the value read is the value encoded");
            }
            match write(&v, true, &mut e) {
                Ok((out, _)) => sx::check(sx::eq(&out, &full), "the value read carries exactly the encoded bits"),
                Err(_) => sx::check(false, "a value that was read can be written"),
            }
        }
        Err(_) => sx::check(false, "the documented layout is accepted"),
    }
    sx::reach("end");
    0
}

/// P03: structs of arbitrary type with arbitrary member names.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_layout_members(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = Env::new();
    e.set(EDITOR, CULTURE);
    let c = members(&p, &crate::p02::LEAVES);
    let full = c.full();
    match write(&c.prop, true, &mut e) {
        Ok((out, _)) => sx::check(sx::eq(&out, &full), "written bytes are the documented layout"),
        Err(_) => sx::check(false, "a representable value can be written"),
    }
    let b = c.tagged();
    match read(&b, &c.ty, true, None, &mut e) {
        Ok((v, pos)) => {
            sx::check(pos == b.len() as u64, "reading consumes exactly the property");
            sx::check(v == c.prop, "the value read is the value encoded");
            match write(&v, true, &mut e) {
                Ok((out, _)) => sx::check(sx::eq(&out, &full), "the value read carries exactly the encoded bits"),
                Err(_) => sx::check(false, "a value that was read can be written"),
            }
        }
        Err(_) => sx::check(false, "the documented layout is accepted"),
    }
    sx::reach("end");
    0
}
