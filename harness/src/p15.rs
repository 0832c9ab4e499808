use crate::common::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;
use gvas::properties::array_property::ArrayProperty;
use gvas::properties::enum_property::EnumProperty;
use gvas::properties::int_property::*;
use gvas::properties::map_property::MapProperty;
use gvas::properties::name_property::NameProperty;
use gvas::properties::str_property::StrProperty;
use gvas::properties::struct_property::StructPropertyValue;
use gvas::properties::{Property, PropertyTrait};
use gvas::types::{Guid, map::HashableIndexMap};

/// Element forms: the plain form, or one carrying extra information.
pub const FORMS: [(u32, bool); 16] = [
    (BOOL, true),
    (BYTE, true),
    (BYTE, false),
    (BYTE_NS, true),
    (ENUM, true),
    (ENUM, false),
    (INT, true),
    (FLOAT, true),
    (NAME, true),
    (NAME, false),
    (NAME_NULL, true),
    (NAME_NULL, false),
    (STR, true),
    (STR_NULL, true),
    (UINT32, true),
    (GUID, true),
];
pub const TYPES: [&str; 12] = [
    "BoolProperty",
    "ByteProperty",
    "EnumProperty",
    "FloatProperty",
    "IntProperty",
    "NameProperty",
    "StrProperty",
    "StructProperty",
    "UInt32Property",
    "Int8Property",
    "ObjectProperty",
    "WeirdProperty",
];
fn form(i: u32, p: &P) -> Case {
    let (k, elem) = FORMS[i as usize & 15];
    leaf(k, &P { n: 2, ..*p }, elem)
}
fn list(a: &ArrayProperty) -> Vec<Property> {
    match a {
        ArrayProperty::Bools { bools } => bools.iter().map(|x| BoolProperty::new(*x).into()).collect(),
        ArrayProperty::Bytes { bytes } => bytes.iter().map(|x| ByteProperty::new_byte(None, *x).into()).collect(),
        ArrayProperty::Enums { enums } => enums.iter().map(|x| EnumProperty::new(None, x.clone()).into()).collect(),
        ArrayProperty::Floats { floats } => floats.iter().map(|x| FloatProperty::new(x.0).into()).collect(),
        ArrayProperty::Ints { ints } => ints.iter().map(|x| IntProperty::new(*x).into()).collect(),
        ArrayProperty::Names { names } => names.iter().map(|x| NameProperty { array_index: 0, value: x.clone() }.into()).collect(),
        ArrayProperty::Strings { strings } => strings.iter().map(|x| StrProperty::new(x.clone()).into()).collect(),
        ArrayProperty::Structs { structs, .. } => structs.iter().map(|x| x.clone().into()).collect(),
        ArrayProperty::Properties { properties, .. } => properties.clone(),
    }
}
fn same_list(a: &[Property], b: &[Property]) {
    sx::check(a.len() == b.len(), "no element is dropped or added");
    if a.len() == b.len() {
        for i in 0..a.len() {
            sx::check(a[i] == b[i], "no element is altered or moved");
        }
    }
}

/// P15: arrays. kind: declared type; sub: forms of first and remaining elements; n elements.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_array_new(param: u32) -> u32 {
    let p = P::new(param);
    let ty = TYPES[p.kind as usize % TYPES.len()];
    let mut e = Env::new();
    let mut items = Vec::new();
    let mut b = B::new();
    b.u32(p.n as u32);
    for i in 0..p.n {
        // the odd one out is first or last
        let odd = match p.var {
            0 => i == 0,
            1 => i + 1 == p.n,
            _ => i == p.n / 2,
        };
        let c = within(i, p.n, || form(if odd { p.sub >> 4 } else { p.sub & 15 }, &p));
        b.raw(&c.body);
        items.push(c.prop);
    }
    let a = match ArrayProperty::new(ty.into(), None, items.clone()) {
        Ok(a) => a,
        Err(_) => {
            sx::check(false, "a list of elements can be turned into an array");
            return 0;
        }
    };
    same_list(&list(&a), &items);
    let mut full = B::new();
    full.lit("ArrayProperty").u32(b.len() as u32).u32(0).lit(ty).u8(0).raw(&b.0);
    let a: Property = a.into();
    match write(&a, true, &mut e) {
        Ok((out, _)) => sx::check(sx::eq(&out, &full.0), "written like the generic element list"),
        Err(_) => sx::check(false, "an array can be written"),
    }
    let g: Property = ArrayProperty::Properties { property_type: ty.into(), properties: items }.into();
    match write(&g, true, &mut e) {
        Ok((out, _)) => sx::check(sx::eq(&out, &full.0), "the generic list is written element by element"),
        Err(_) => sx::check(false, "a generic array can be written"),
    }
    sx::reach("end");
    0
}

/// P15: arrays of structs.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_array_structs(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let mut items: Vec<Property> = Vec::new();
    let mut b = B::new();
    for _ in 0..p.n {
        let (v, vb) = struct_value(p.kind, &P { n: 2, ..p });
        b.raw(&vb.0);
        items.push(v.into());
    }
    let f = p.s();
    let t = p.s();
    let g: [u8; 16] = sx::bytes();
    let info = Some((f.s.clone(), t.s.clone(), Guid(g)));
    match ArrayProperty::new("StructProperty".into(), info, items.clone()) {
        Ok(a) => {
            same_list(&list(&a), &items);
            let mut body = B::new();
            body.u32(p.n as u32).s(&f).lit("StructProperty").u64(b.len() as u64).s(&t).raw(&g).u8(0).raw(&b.0);
            let mut full = B::new();
            full.lit("ArrayProperty").u32(body.len() as u32).u32(0).lit("StructProperty").u8(0).raw(&body.0);
            let a: Property = a.into();
            match write(&a, true, &mut e) {
                Ok((out, _)) => sx::check(sx::eq(&out, &full.0), "written with its declared types"),
                Err(_) => sx::check(false, "an array of structs can be written"),
            }
        }
        Err(_) => sx::check(false, "structs can be turned into an array"),
    }
    // an element that is no struct is refused rather than dropped
    if p.n > 0 {
        let mut bad = items.clone();
        let at = sx::fork(sx::u8() as u64 % p.n as u64) as usize;
        bad[at] = form(p.sub, &p).prop;
        let ok = matches!(bad[at], Property::StructPropertyValue(_));
        let info = Some((f.s.clone(), t.s.clone(), Guid(g)));
        match ArrayProperty::new("StructProperty".into(), info, bad.clone()) {
            Ok(a) => same_list(&list(&a), &bad),
            Err(_) => sx::check(!ok, "structs are accepted"),
        }
    }
    sx::reach("end");
    let _ = core::mem::size_of::<StructPropertyValue>();
    0
}

fn entries(m: &MapProperty) -> Vec<(Property, Property)> {
    fn st(k: &String) -> Property {
        StrProperty::new(Some(k.clone())).into()
    }
    fn nm(k: &String) -> Property {
        NameProperty { array_index: 0, value: Some(k.clone()) }.into()
    }
    fn en(k: &String) -> Property {
        EnumProperty::new(None, k.clone()).into()
    }
    fn bo(v: &bool) -> Property {
        BoolProperty::new(*v).into()
    }
    fn it(v: &i32) -> Property {
        IntProperty::new(*v).into()
    }
    match m {
        MapProperty::EnumBool { enum_bools } => enum_bools.iter().map(|(k, v)| (en(k), bo(v))).collect(),
        MapProperty::EnumInt { enum_ints } => enum_ints.iter().map(|(k, v)| (en(k), it(v))).collect(),
        MapProperty::EnumProperty { enum_props, .. } => enum_props.iter().map(|(k, v)| (en(k), v.clone())).collect(),
        MapProperty::NameBool { name_bools } => name_bools.iter().map(|(k, v)| (nm(k), bo(v))).collect(),
        MapProperty::NameInt { name_ints } => name_ints.iter().map(|(k, v)| (nm(k), it(v))).collect(),
        MapProperty::NameProperty { name_props, .. } => name_props.iter().map(|(k, v)| (nm(k), v.clone())).collect(),
        MapProperty::Properties { value, .. } => value.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        MapProperty::StrBool { str_bools } => str_bools.iter().map(|(k, v)| (st(k), bo(v))).collect(),
        MapProperty::StrInt { str_ints } => str_ints.iter().map(|(k, v)| (st(k), it(v))).collect(),
        MapProperty::StrProperty { str_props, .. } => str_props.iter().map(|(k, v)| (st(k), v.clone())).collect(),
        MapProperty::StrStr { str_strs } => str_strs.iter().map(|(k, v)| (st(k), StrProperty::new(v.clone()).into())).collect(),
    }
}
/// P15: maps. kind: declared key type (low 4 bits) and value type (high 4 bits); sub: form of the
/// keys (low) and values (high); var: form of the first value
/// (mode bit 0: the last one, bit 1: key instead); flags arbitrary.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_map_new(param: u32) -> u32 {
    let p = P::new(param);
    let (kt, vt) = (TYPES[(p.kind & 15) as usize % 12], TYPES[(p.kind >> 4) as usize % 12]);
    let mut e = Env::new();
    let flags = sx::u32();
    let mut b = B::new();
    b.u32(flags).u32(p.n as u32);
    let mut m = HashableIndexMap::new();
    let mut want: Vec<(Property, Property)> = Vec::new();
    for i in 0..p.n {
        let odd = if p.mode & 1 == 0 { i == 0 } else { i + 1 == p.n };
        let q = P { mode: 0, ..p };
        // of many entries only the first, the last and the odd one are arbitrary
        let pinned = p.n > 4 && i > 0 && i + 1 < p.n;
        if pinned {
            sx::pin_to(scatter(i));
        }
        let k = form(if odd && p.mode & 2 == 2 { p.var } else { p.sub & 15 }, &q);
        let v = form(if odd && p.mode & 2 == 0 { p.var } else { p.sub >> 4 }, &q);
        sx::pin(false);
        b.raw(&k.body).raw(&v.body);
        for (o, _) in &want {
            if !pinned {
                sx::assume(*o != k.prop);
            }
        }
        want.push((k.prop.clone(), v.prop.clone()));
        m.insert(k.prop, v.prop);
    }
    sx::assume(m.len() == p.n);
    let generic = MapProperty::Properties { key_type: kt.into(), value_type: vt.into(), allocation_flags: flags, value: m.clone() };
    let s = MapProperty::new(kt.into(), vt.into(), flags, m);
    let got = entries(&s);
    sx::check(got.len() == want.len(), "no entry is dropped or added");
    if got.len() == want.len() {
        for i in 0..got.len() {
            sx::check(got[i].0 == want[i].0, "no key is altered or moved");
            sx::check(got[i].1 == want[i].1, "no value is altered or moved");
        }
    }
    let mut full = B::new();
    full.lit("MapProperty").u32(b.len() as u32).u32(0).lit(kt).lit(vt).u8(0).raw(&b.0);
    let s: Property = s.into();
    match write(&s, true, &mut e) {
        Ok((out, _)) => sx::check(sx::eq(&out, &full.0), "written like the generic entry list"),
        Err(_) => sx::check(false, "a map can be written"),
    }
    let g: Property = generic.into();
    match write(&g, true, &mut e) {
        Ok((out, _)) => sx::check(sx::eq(&out, &full.0), "the generic map is written entry by entry"),
        Err(_) => sx::check(false, "a generic map can be written"),
    }
    let mut out: Vec<u8> = Vec::new();
    match s.write_body(&mut out, &mut e.opts()) {
        Ok(_) => sx::check(sx::eq(&out, &b.0), "the body is written like the generic entry list"),
        Err(_) => sx::check(false, "a map body can be written"),
    }
    sx::reach("end");
    0
}
