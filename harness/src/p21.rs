use crate::common::*;
use crate::file::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;
use gvas::cursor_ext::ReadExt;
use gvas::game_version::*;
use gvas::properties::Property;
use gvas::{GvasFile, GvasHeader};
use std::io::{Cursor, Write};

/// P21: a property anywhere in a stream, followed by arbitrary bytes.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_local(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let c = make(&p, &mut e);
    let mut b = B(c.tagged());
    let end = b.len();
    b.raw(&sx::bytes::<6>());
    let mut r = BaseR::new(&b.0);
    match Property::new(&mut r, &c.ty, true, &mut e.opts(), None) {
        Ok(v) => {
            sx::check(r.pos == end, "a property consumes exactly its own bytes");
            judge(&v, &c, &p, &mut e);
        }
        Err(_) => sx::check(false, "a property is accepted wherever it starts and whatever follows"),
    }
    sx::check(e.stack.is_empty(), "no trace is left");
    sx::reach("end");
    0
}
fn judge(v: &Property, c: &Case, p: &P, e: &mut Env) {
    if p.n <= 4 {
        sx::check(*v == c.prop, "the value does not depend on its surroundings");
    }
    match write(v, true, e) {
        Ok((o, _)) => sx::check(sx::eq(&o, &c.full()), "the contents do not depend on the surroundings"),
        Err(_) => sx::check(false, "a value that was read can be written"),
    }
}
/// P21: elements and strings.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_local_elem(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    if is_struct(p.kind) {
        e.hints.insert("StructProperty".into(), struct_type(p.kind).into());
    }
    let c = leaf(p.kind, &p, true);
    let mut b = B(c.body.clone());
    let end = b.len();
    b.raw(&sx::bytes::<6>());
    let mut r = BaseR::new(&b.0);
    match Property::new(&mut r, &c.ty, false, &mut e.opts(), Some(end as u32)) {
        Ok(v) => {
            sx::check(r.pos == end, "an element consumes exactly its own bytes");
            match write(&v, false, &mut e) {
                Ok((o, _)) => sx::check(sx::eq(&o, &c.body), "the contents do not depend on the surroundings"),
                Err(_) => sx::check(false, "a value that was read can be written"),
            }
        }
        Err(_) => sx::check(false, "an element is accepted wherever it starts and whatever follows"),
    }
    let s = p.s();
    let mut b = B(s.enc.clone());
    b.raw(&sx::bytes::<6>());
    let mut r = BaseR::new(&b.0);
    match r.read_string() {
        Ok(t) => {
            sx::check(r.pos == s.enc.len(), "a string consumes exactly its own bytes");
            sx::check(sx::eq(t.as_bytes(), s.s.as_bytes()), "a string does not depend on its surroundings");
        }
        Err(_) => sx::check(false, "a string is accepted wherever it starts and whatever follows"),
    }
    sx::reach("end");
    0
}
/// P21: headers (n custom versions) and files; for files the rest after the property list is arbitrary.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_local_file(param: u32) -> u32 {
    let p = P::new(param);
    let (f, e) = around(&P { var: 0, ..p }, p.var & 1 == 1);
    let mut r = BaseR::new(&f.bytes);
    match GvasHeader::read(&mut r) {
        Ok(h) => {
            sx::check(h == f.value.header, "a header does not depend on what surrounds it");
            let mut out: Vec<u8> = Vec::new();
            match h.write(&mut out) {
                Ok(_) => sx::check(r.pos == out.len() && sx::eq(&out, &f.bytes[..r.pos]), "a header consumes exactly its own bytes"),
                Err(_) => sx::check(false, "a header that was read can be written"),
            }
        }
        Err(_) => sx::check(false, "a header is accepted wherever it starts and whatever follows"),
    }
    let mut r = BaseR::new(&f.bytes);
    match GvasFile::read_with_hints(&mut r, GameVersion::Default, &e.hints) {
        Ok(v) => sx::check(v == f.value, "a file does not depend on where it starts"),
        Err(_) => sx::check(false, "a file is accepted wherever it starts"),
    }
    // written after and over other contents
    let pre = sx::bytes::<3>();
    let post = sx::bytes::<5>();
    let mut out = Cursor::new(Vec::new());
    let _ = out.write_all(&pre);
    let _ = out.write_all(&vec![0xdd; f.bytes.len()]);
    let _ = out.write_all(&post);
    out.set_position(3);
    match f.value.write(&mut out) {
        Ok(_) => {
            sx::check(out.position() as usize == 3 + f.bytes.len(), "the writer is left at the end of the file");
            let mut want = B::new();
            want.raw(&pre).raw(&f.bytes).raw(&post);
            sx::check(sx::eq(out.get_ref(), &want.0), "nothing but the file itself is written");
        }
        Err(_) => sx::check(false, "a file can be written anywhere"),
    }
    sx::reach("end");
    0
}
/// P21: a read after a failed or successful one gives what it gives alone. mode 0: any byte of the
/// first is arbitrary.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_local_after(param: u32) -> u32 {
    let p = P::new(param);
    let pa = P { sub: 0, ..p };
    let pb = P { kind: p.sub, sub: 0, n: 1, sl: 2, mode: 0, var: 0 };
    let mut e = env_for(&pb);
    sx::pin(true);
    let a = make(&pa, &mut e);
    sx::pin(false);
    let b = make(&pb, &mut e);
    let mut x = a.tagged();
    let at = sx::u32() as usize;
    sx::assume(at < x.len());
    let at = sx::fork(at as u64) as usize;
    x[at] = sx::u8();
    let one = Property::new(&mut Cursor::new(&x[..]), &a.ty, true, &mut e.opts(), None);
    if one.is_ok() {
        sx::reach("ok");
    } else {
        sx::reach("err");
    }
    match read(&b.tagged(), &b.ty, true, None, &mut e) {
        Ok((v, pos)) => {
            sx::check(pos as usize == b.tagged().len(), "a property consumes exactly its own bytes");
            judge(&v, &b, &pb, &mut e);
        }
        Err(_) => sx::check(false, "a property is accepted whatever was read before"),
    }
    0
}
