use crate::common::*;
use crate::file::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;
use gvas::cursor_ext::WriteExt;
use gvas::properties::{Property, PropertyTrait};
use gvas::properties::text_property::*;

/// P05: property writes, with and without header.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_count(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let c = make(&p, &mut e);
    match write(&c.prop, true, &mut e) {
        Ok((out, n)) => {
            sx::check(n == out.len(), "count of a property with header");
            sx::reach("headed");
        }
        Err(_) => {}
    }
    match write(&c.prop, false, &mut e) {
        Ok((out, n)) => sx::check(n == out.len(), "count of a property without header"),
        Err(_) => {}
    }
    let mut out: Vec<u8> = Vec::new();
    match c.prop.write_body(&mut out, &mut e.opts()) {
        Ok(n) => sx::check(n == out.len(), "count of a property body"),
        Err(_) => {}
    }
    sx::reach("end");
    0
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_count_nested(param: u32) -> u32 {
    let p = P::new(param);
    let (c, mut e) = nested(&p);
    match write(&c.prop, true, &mut e) {
        Ok((out, n)) => {
            sx::check(n == out.len(), "count of a property with header");
            sx::reach("headed");
        }
        Err(_) => {}
    }
    0
}
/// P05: elements as stored in containers.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_count_elem(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let c = leaf(p.kind, &p, true);
    match write(&c.prop, false, &mut e) {
        Ok((out, n)) => {
            sx::check(n == out.len(), "count of an element");
            sx::reach("written");
        }
        Err(_) => {}
    }
    0
}
/// P05: strings, texts, headers and their parts.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_count_parts(param: u32) -> u32 {
    let p = P::new(param);
    let s = p.s();
    let mut out: Vec<u8> = Vec::new();
    if let Ok(n) = out.write_string(&s.s) {
        sx::check(n == out.len(), "count of a string");
        sx::reach("string");
    }
    let mut out: Vec<u8> = Vec::new();
    if let Ok(n) = out.write_fstring(Some(&s.s)) {
        sx::check(n == out.len(), "count of an optional string");
    }
    let mut out: Vec<u8> = Vec::new();
    if let Ok(n) = out.write_fstring(None) {
        sx::check(n == out.len(), "count of a null string");
    }
    let e = Env::new();
    for v3 in [false, true] {
        let h = header(v3, p.n, &s, &p.s(), &e);
        let mut out: Vec<u8> = Vec::new();
        if let Ok(n) = h.value.write(&mut out) {
            sx::check(n == out.len(), "count of a header");
            sx::reach("header");
        }
    }
    0
}
/// P05: text values.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_count_text(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let mut b = B::new();
    let t = text(p.kind, &p, &mut b);
    let mut out: Vec<u8> = Vec::new();
    match t.write(&mut out, &e.opts()) {
        Ok(n) => {
            sx::check(n == out.len(), "count of a text");
            sx::reach("text");
        }
        Err(_) => {}
    }
    let mut out: Vec<u8> = Vec::new();
    if let Ok(n) = t.history.write(&mut out, &e.opts()) {
        sx::check(n == out.len(), "count of a text history");
    }
    let args: Vec<&FormatArgumentValue> = match &t.history {
        FTextHistory::NamedFormat { arguments, .. } | FTextHistory::ArgumentFormat { arguments, .. } => {
            arguments.iter().map(|(_, v)| v).collect()
        }
        FTextHistory::OrderedFormat { arguments, .. } => arguments.iter().collect(),
        FTextHistory::AsNumber { source_value, .. } => vec![&**source_value],
        _ => Vec::new(),
    };
    for a in args {
        let mut out: Vec<u8> = Vec::new();
        if let Ok(n) = a.write(&mut out, &e.opts()) {
            sx::check(n == out.len(), "count of a text argument");
        }
    }
    if let FTextHistory::AsNumber { format_options: Some(o), .. } = &t.history {
        let mut out: Vec<u8> = Vec::new();
        if let Ok(n) = o.write(&mut out) {
            sx::check(n == out.len(), "count of number options");
        }
    }
    let _: Option<Property> = None;
    0
}
