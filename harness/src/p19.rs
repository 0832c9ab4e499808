use crate::file::*;
use crate::gen_::*;
use crate::p02::LEAVES;
use crate::spec::*;
use crate::sx;
use gvas::game_version::*;
use gvas::properties::Property;
use gvas::properties::array_property::ArrayProperty;
use gvas::properties::int_property::*;
use gvas::properties::map_property::MapProperty;
use gvas::properties::set_property::SetProperty;
use gvas::properties::struct_property::StructPropertyValue;
use gvas::{GvasFile, GvasHeader};
use std::collections::HashMap;
use std::io::Cursor;

fn load(b: &[u8], hints: &HashMap<String, String>) -> Option<GvasFile> {
    match GvasFile::read_with_hints(&mut Cursor::new(b), GameVersion::Default, hints) {
        Ok(f) => Some(f),
        Err(_) => {
            sx::check(false, "a well-formed file is accepted");
            None
        }
    }
}
fn saved(f: &GvasFile, want: &[u8]) {
    let mut out = Cursor::new(Vec::new());
    match f.write(&mut out) {
        Ok(_) => sx::check(sx::eq(out.get_ref(), want), "the edited file is written as what it is now"),
        Err(_) => sx::check(false, "an edited file can be written"),
    }
    let mut again = Cursor::new(Vec::new());
    match f.write(&mut again) {
        Ok(_) => sx::check(sx::eq(again.get_ref(), out.get_ref()), "writing twice gives the same bytes"),
        Err(_) => sx::check(false, "a file can be written twice"),
    }
    sx::reach("end");
}
/// Versions that fit both kinds.
fn versions(a: &P, b: &P) -> Env {
    let mut e = env_for(a);
    let g = env_for(b);
    for (k, v) in &g.versions {
        match e.versions.get(k) {
            Some(o) => sx::assume(*o == *v),
            None => {
                e.versions.insert(*k, *v);
            }
        }
    }
    e
}
/// Whether some versions suit values of both kinds.
fn compatible(a: u32, b: u32) -> bool {
    let text = |k| k >= TEXT && k < ARRAY;
    let side = |k| lwc(k).or(if text(k) { text_wide(k) } else { None });
    if text(a) && text(b) && a != b {
        return false;
    }
    match (side(a), side(b)) {
        (Some(x), Some(y)) => x == y,
        _ => true,
    }
}
fn move_hints(e: &mut Env, pre: &str) {
    let hints: Vec<(String, String)> = e.hints.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    e.hints.clear();
    for (k, v) in hints {
        let mut s = String::from(pre);
        s.push_str(&k);
        e.hints.insert(s, v);
    }
}
fn tail(q: &P) -> (Case, Case) {
    (leaf(INT, q, false), leaf(STR, q, false))
}

/// P19: a top-level value of kind `kind` replaced by one of kind `sub`, with `n` elements and
/// strings of length `sl`. mode 0: assigned; 1: inserted under the same name; 2: removed and
/// added at the end; 3: removed; 4: added at the end; 5: two properties exchange their places;
/// 6: moved to another name.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_edit_top(param: u32) -> u32 {
    let p = P::new(param);
    if !compatible(p.kind, p.sub) {
        return 0;
    }
    let pa = P { n: 1, sl: 1, sub: 0, mode: 0, var: 0, ..p };
    let pb = P { kind: p.sub, sub: 0, mode: if p.var & 2 == 2 { 5 } else { 0 }, var: 0, ..p };
    let mut e = versions(&pa, &pb);
    let a = make(&pa, &mut e);
    let b = make(&pb, &mut Env::new());
    let q = P { sl: 1, n: 1, mode: 0, ..p };
    let (x, z) = tail(&q);
    move_hints(&mut e, "Middle.");
    let h = header(p.var & 1 == 1, 1, &S::lit("++UE"), &S::lit("/S"), &e);
    let head = h.bytes.clone();
    let before = file(h, vec![("First".into(), x.full(), x.prop.clone()), ("Middle".into(), a.full(), a.prop.clone()), ("Last".into(), z.full(), z.prop.clone())]);
    let Some(mut f) = load(&before.bytes, &e.hints) else { return 0 };
    let mut w = B(head);
    let bf = b.full();
    let (xf, zf, af) = (x.full(), z.full(), a.tagged());
    let mut aff = B::new();
    aff.lit(&a.ty).raw(&af);
    let put = |w: &mut B, n: &str, v: &[u8]| {
        w.lit(n).raw(v);
    };
    match p.mode {
        0 => {
            match f.properties.get_mut("Middle") {
                Some(m) => *m = b.prop,
                None => sx::check(false, "a property is found under its name"),
            }
            put(&mut w, "First", &xf);
            put(&mut w, "Middle", &bf);
            put(&mut w, "Last", &zf);
        }
        1 => {
            sx::check(f.properties.insert("Middle".into(), b.prop).is_some(), "the old value is given back");
            put(&mut w, "First", &xf);
            put(&mut w, "Middle", &bf);
            put(&mut w, "Last", &zf);
        }
        2 => {
            sx::check(f.properties.shift_remove("Middle").is_some(), "the old value is given back");
            f.properties.insert("Middle".into(), b.prop);
            put(&mut w, "First", &xf);
            put(&mut w, "Last", &zf);
            put(&mut w, "Middle", &bf);
        }
        3 => {
            f.properties.shift_remove("First");
            put(&mut w, "Middle", &aff.0);
            put(&mut w, "Last", &zf);
        }
        4 => {
            f.properties.insert("New".into(), b.prop);
            put(&mut w, "First", &xf);
            put(&mut w, "Middle", &aff.0);
            put(&mut w, "Last", &zf);
            put(&mut w, "New", &bf);
        }
        5 => {
            f.properties.swap_indices(0, 1);
            f.properties.insert("Last".into(), b.prop);
            put(&mut w, "Middle", &aff.0);
            put(&mut w, "First", &xf);
            put(&mut w, "Last", &bf);
        }
        _ => {
            let v = f.properties.shift_remove("Middle");
            if let Some(v) = v {
                f.properties.insert("Moved".into(), v);
            }
            put(&mut w, "First", &xf);
            put(&mut w, "Last", &zf);
            put(&mut w, "Moved", &aff.0);
        }
    }
    w.lit("None").u32(0);
    saved(&f, &w.0);
    0
}

/// The struct `In` of the first element of the array of structs under `Top`.
fn inner<'a>(f: &'a mut GvasFile) -> Option<&'a mut StructPropertyValue> {
    let a = f.properties.get_mut("Top")?.get_array_mut()?;
    let ArrayProperty::Structs { structs, .. } = a else { return None };
    let m = structs.get_mut(0)?.get_custom_struct_mut()?;
    Some(&mut m.get_mut("In")?.get_mut(0)?.get_struct_mut()?.value)
}
/// P19: a member of a struct in a struct in an array of structs. mode 0: replaced; 1: added;
/// 2: removed; 3: a second value under the same name; 4: the whole inner struct replaced by a
/// plain one; 5: a second element of the array; 6: the elements removed; 7: a guid of the struct.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_edit_nested(param: u32) -> u32 {
    let p = P::new(param);
    if !compatible(p.kind, p.sub) {
        return 0;
    }
    let pa = P { n: 1, sl: 1, sub: 0, mode: 0, var: 0, ..p };
    let pb = P { kind: p.sub, sub: 0, mode: 0, var: 0, ..p };
    let mut e = versions(&pa, &pb);
    let mut a = make(&pa, &mut e);
    let mut b = make(&pb, &mut Env::new());
    unindexed(&mut a);
    unindexed(&mut b);
    let q = P { sl: 1, n: 1, mode: 0, ..p };
    let (x, z) = tail(&q);
    move_hints(&mut e, "Top.ArrayProperty.In.StructProperty.V.");
    let gi: [u8; 16] = sx::bytes();
    let ga: [u8; 16] = sx::bytes();
    let h = header(p.var & 1 == 1, 1, &S::lit("++UE"), &S::lit("/S"), &e);
    // members of the inner struct -> the file
    let render = |members: &[(&str, Vec<u8>)], elems: usize, gi: &[u8; 16]| {
        let mut mb = B::new();
        for (n, v) in members {
            mb.lit(n).raw(v);
        }
        mb.lit("None");
        let mut eb = B::new();
        for i in 0..elems {
            if i == 0 {
                eb.lit("In").lit("StructProperty").u32(mb.len() as u32).u32(0).lit("Inner").raw(gi).u8(0).raw(&mb.0);
            }
            eb.lit("None");
        }
        let mut body = B::new();
        body.u32(elems as u32).lit("Fld").lit("StructProperty").u64(eb.len() as u64).lit("Outer").raw(&ga).u8(0).raw(&eb.0);
        let mut w = B(h.bytes.clone());
        w.lit("Top").lit("ArrayProperty").u32(body.len() as u32).u32(0).lit("StructProperty").u8(0).raw(&body.0);
        w.lit("Last").raw(&z.full()).lit("None").u32(0);
        w.0
    };
    let (xf, af, bf) = (x.full(), a.full(), b.full());
    let before = render(&[("A", xf.clone()), ("V", af.clone())], 1, &gi);
    let Some(mut f) = load(&before, &e.hints) else { return 0 };
    let want;
    match p.mode {
        4 => {
            // whole struct replaced by a value of its own type
            let t = sx::u64();
            match inner(&mut f) {
                Some(v) => *v = StructPropertyValue::CustomStruct(Default::default()),
                None => sx::check(false, "the struct is found"),
            }
            let _ = t;
            want = render(&[], 1, &gi);
        }
        5 | 6 => {
            match f.properties.get_mut("Top").and_then(|x| x.get_array_mut()) {
                Some(ArrayProperty::Structs { structs, .. }) => {
                    if p.mode == 5 {
                        structs.push(StructPropertyValue::CustomStruct(Default::default()));
                    } else {
                        structs.clear();
                    }
                }
                _ => sx::check(false, "an array of structs is read as one"),
            }
            want = render(&[("A", xf), ("V", af)], if p.mode == 5 { 2 } else { 0 }, &gi);
        }
        7 => {
            let g: [u8; 16] = sx::bytes();
            let s = f.properties.get_mut("Top").and_then(|x| x.get_array_mut()).and_then(|a| match a {
                ArrayProperty::Structs { structs, .. } => structs.get_mut(0),
                _ => None,
            });
            match s.and_then(|s| s.get_custom_struct_mut()).and_then(|m| m.get_mut("In")).and_then(|v| v[0].get_struct_mut()) {
                Some(s) => s.guid = gvas::types::Guid(g),
                None => sx::check(false, "the struct is found"),
            }
            want = render(&[("A", xf), ("V", af)], 1, &g);
        }
        k => {
            let Some(m) = inner(&mut f).and_then(|v| v.get_custom_struct_mut()) else {
                sx::check(false, "the struct is found");
                return 0;
            };
            match k {
                0 => {
                    match m.get_mut("V") {
                        Some(v) if v.len() == 1 => v[0] = b.prop,
                        _ => sx::check(false, "the member is found"),
                    }
                    want = render(&[("A", xf), ("V", bf)], 1, &gi);
                }
                1 => {
                    m.insert("W".into(), vec![b.prop]);
                    want = render(&[("A", xf), ("V", af), ("W", bf)], 1, &gi);
                }
                2 => {
                    m.shift_remove("A");
                    want = render(&[("V", af)], 1, &gi);
                }
                _ => {
                    match m.get_mut("V") {
                        Some(v) => v.push(b.prop),
                        None => sx::check(false, "the member is found"),
                    }
                    want = render(&[("A", xf), ("V", af), ("V", bf)], 1, &gi);
                }
            }
        }
    }
    saved(&f, &want);
    0
}

/// P19: elements of a container. kind: ARRAY, SET or MAP; sub: element kind; n elements.
/// mode 0: one added; 1: the first removed; 2: the last replaced; 3: all removed; 4: reversed.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_edit_list(param: u32) -> u32 {
    let p = P::new(param);
    let q = P { var: if p.kind == MAP { p.var } else { 0 }, mode: 0, ..p };
    let mut e = env_for(&q);
    let vk = MAP_VALUES[p.var as usize];
    let ty = type_of(p.sub);
    let one = |k: u32| leaf(k, &P { n: 1, sl: 2, sub: 0, mode: 0, ..p }, true);
    let mut items: Vec<(Case, Option<Case>)> = Vec::new();
    for _ in 0..p.n + 1 {
        let k = one(p.sub);
        for (o, _) in &items {
            if p.kind == MAP && o.body.len() == k.body.len() {
                sx::assume(!sx::eq(&o.body, &k.body));
            }
        }
        items.push((k, if p.kind == MAP { Some(one(vk)) } else { None }));
    }
    if p.kind == MAP {
        // keys that are equal without being written alike
        let mut m = gvas::types::map::HashableIndexMap::new();
        for x in &items {
            m.insert(x.0.prop.clone(), 0u8);
        }
        sx::assume(m.len() == p.n + 1);
    }
    let extra = items.pop().unwrap();
    let enc = |x: &(Case, Option<Case>)| {
        let mut b = B::new();
        b.raw(&x.0.body);
        if let Some(v) = &x.1 {
            b.raw(&v.body);
        }
        b.0
    };
    let flags = sx::u32();
    let g: [u8; 16] = sx::bytes();
    let h = header(false, 1, &S::lit("+"), &S::lit("/S"), &e);
    let z = leaf(INT, &P { sl: 1, n: 1, mode: 0, ..p }, false);
    let render = |list: &[Vec<u8>]| {
        let mut eb = B::new();
        for x in list {
            eb.raw(x);
        }
        let mut body = B::new();
        if p.kind != ARRAY {
            body.u32(flags);
        }
        body.u32(list.len() as u32);
        if p.kind == ARRAY && is_struct(p.sub) {
            body.lit("Fld").lit("StructProperty").u64(eb.len() as u64).lit(struct_type(p.sub)).raw(&g).u8(0);
        }
        body.raw(&eb.0);
        let mut w = B(h.bytes.clone());
        w.lit("Top").lit(type_of(p.kind)).u32(body.len() as u32).u32(0).lit(ty);
        if p.kind == MAP {
            w.lit(type_of(vk));
        }
        w.u8(0).raw(&body.0).lit("Last").raw(&z.full()).lit("None").u32(0);
        w.0
    };
    let list: Vec<Vec<u8>> = items.iter().map(enc).collect();
    for (k, s) in [("SetProperty.StructProperty", p.sub), ("MapProperty.Key.StructProperty", p.sub), ("MapProperty.Value.StructProperty", vk)] {
        if is_struct(s) {
            let mut n = String::from("Top.");
            n.push_str(k);
            e.hints.insert(n, struct_type(s).into());
        }
    }
    let Some(mut f) = load(&render(&list), &e.hints) else { return 0 };
    let mut want = list.clone();
    let xb = enc(&extra);
    match p.mode {
        0 => want.push(xb),
        1 => {
            want.remove(0);
        }
        2 => {
            want.pop();
            want.push(xb);
        }
        3 => want.clear(),
        _ => want.reverse(),
    }
    fn change<T>(v: &mut Vec<T>, mode: u32, x: T) {
        match mode {
            0 => v.push(x),
            1 => {
                v.remove(0);
            }
            2 => {
                if let Some(l) = v.last_mut() {
                    *l = x;
                }
            }
            3 => v.clear(),
            _ => v.reverse(),
        }
    }
    let top = match f.properties.get_mut("Top") {
        Some(t) => t,
        None => {
            sx::check(false, "the container is found");
            return 0;
        }
    };
    let done = match top {
        Property::SetProperty(SetProperty { properties, .. }) => {
            change(properties, p.mode, extra.0.prop);
            true
        }
        Property::ArrayProperty(a) => match (a, extra.0.prop) {
            (ArrayProperty::Properties { properties, .. }, x) => {
                change(properties, p.mode, x);
                true
            }
            (ArrayProperty::Structs { structs, .. }, Property::StructPropertyValue(x)) => {
                change(structs, p.mode, x);
                true
            }
            (ArrayProperty::Bools { bools }, Property::BoolProperty(x)) => {
                change(bools, p.mode, x.value);
                true
            }
            (ArrayProperty::Bytes { bytes }, Property::ByteProperty(ByteProperty { value: BytePropertyValue::Byte(x), .. })) => {
                change(bytes, p.mode, x);
                true
            }
            (ArrayProperty::Enums { enums }, Property::EnumProperty(x)) => {
                change(enums, p.mode, x.value);
                true
            }
            (ArrayProperty::Floats { floats }, Property::FloatProperty(x)) => {
                change(floats, p.mode, x.value);
                true
            }
            (ArrayProperty::Ints { ints }, Property::IntProperty(x)) => {
                change(ints, p.mode, x.value);
                true
            }
            (ArrayProperty::Names { names }, Property::NameProperty(x)) => {
                change(names, p.mode, x.value);
                true
            }
            (ArrayProperty::Strings { strings }, Property::StrProperty(x)) => {
                change(strings, p.mode, x.value);
                true
            }
            _ => false,
        },
        Property::MapProperty(m) => edit_map(m, p.mode, extra.0.prop, extra.1.map(|c| c.prop)),
        _ => {
            sx::check(false, "a container is read as one");
            return 0;
        }
    };
    if done {
        saved(&f, &render(&want));
    }
    0
}
fn edit_map(m: &mut MapProperty, mode: u32, k: Property, v: Option<Property>) -> bool {
    use gvas::types::map::HashableIndexMap;
    use std::hash::Hash;
    fn change<K: Hash + Eq, V: Hash>(m: &mut HashableIndexMap<K, V>, mode: u32, k: K, v: V) -> bool {
        match mode {
            0 => {
                m.insert(k, v);
            }
            1 => {
                m.shift_remove_index(0);
            }
            2 => {
                m.pop();
                m.insert(k, v);
            }
            3 => m.clear(),
            _ => m.reverse(),
        }
        true
    }
    let Some(v) = v else { return false };
    let text = |p: &Property| match p {
        Property::StrProperty(x) => x.value.clone(),
        Property::NameProperty(x) => x.value.clone(),
        Property::EnumProperty(x) => Some(x.value.clone()),
        _ => None,
    };
    let t = text(&k);
    match (m, t, v) {
        (MapProperty::Properties { value, .. }, _, v) => change(value, mode, k, v),
        (MapProperty::EnumBool { enum_bools: m } | MapProperty::NameBool { name_bools: m } | MapProperty::StrBool { str_bools: m }, Some(t), Property::BoolProperty(v)) => change(m, mode, t, v.value),
        (MapProperty::EnumInt { enum_ints: m } | MapProperty::NameInt { name_ints: m } | MapProperty::StrInt { str_ints: m }, Some(t), Property::IntProperty(v)) => change(m, mode, t, v.value),
        (MapProperty::EnumProperty { enum_props: m, .. } | MapProperty::NameProperty { name_props: m, .. } | MapProperty::StrProperty { str_props: m, .. }, Some(t), v) => change(m, mode, t, v),
        (MapProperty::StrStr { str_strs: m }, Some(t), Property::StrProperty(v)) => change(m, mode, t, v.value),
        _ => false,
    }
}

/// P19: header fields and the kind of file. mode: which field.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_edit_header(param: u32) -> u32 {
    let p = P::new(param);
    let v3 = p.var & 1 == 1;
    let e = Env::new();
    let q = P { sl: 2, n: 1, mode: 0, ..p };
    let (x, z) = tail(&q);
    let mut b = B::new();
    let pv = sx::u32();
    sx::assume((pv >= 0x205) & (pv <= 0x20d));
    let p5 = sx::u32();
    sx::assume((p5 >= 1000) & (p5 <= 1009));
    let (ma, mi, pa, cl) = (sx::u16(), sx::u16(), sx::u16(), sx::u32());
    let (k1, n1): ([u8; 16], u32) = (sx::bytes(), sx::u32());
    let (k2, n2): ([u8; 16], u32) = (sx::bytes(), sx::u32());
    sx::assume(!sx::eq(&k1, &k2));
    let (branch, class) = (q.s(), q.s());
    let text = P { mode: p.sub & 7, ..p }.s();
    let mut props = B::new();
    props.lit("A").raw(&x.full()).lit("Z").raw(&z.full()).lit("None").u32(0);
    let mut h = Head { pv, p5, ma, mi, pa, cl, branch: branch.enc.clone(), table: vec![(k1, n1)], class: class.enc.clone() };
    b.raw(&h.bytes(v3)).raw(&props.0);
    let Some(mut f) = load(&b.0, &e.hints) else { return 0 };
    let (pv, ev, cv, sc) = match &mut f.header {
        GvasHeader::Version2 { package_file_version, engine_version, custom_versions, save_game_class_name, .. } => (package_file_version, engine_version, custom_versions, save_game_class_name),
        GvasHeader::Version3 { package_file_version, engine_version, custom_versions, save_game_class_name, .. } => (package_file_version, engine_version, custom_versions, save_game_class_name),
    };
    match p.mode {
        0 => {
            *sc = text.s;
            h.class = text.enc;
        }
        1 => {
            ev.branch = text.s;
            h.branch = text.enc;
        }
        2 => {
            h.ma = sx::u16();
            h.mi = sx::u16();
            h.pa = sx::u16();
            h.cl = sx::u32();
            (ev.major, ev.minor, ev.patch, ev.change_list) = (h.ma, h.mi, h.pa, h.cl);
        }
        3 => {
            cv.insert(gvas::types::Guid(k2), n2);
            h.table.push((k2, n2));
        }
        4 => {
            cv.clear();
            h.table.clear();
        }
        5 => {
            cv.insert(gvas::types::Guid(k1), n2);
            h.table[0].1 = n2;
        }
        6 => {
            let n = sx::u32();
            *pv = n;
            h.pv = n;
        }
        _ => {}
    }
    let mut w = B(h.bytes(v3));
    w.raw(&props.0);
    if p.mode == 7 {
        // turned into a container, and back
        f.deserialized_game_version = DeserializedGameVersion::Palworld(PalworldCompressionType::None);
        let mut c = B::new();
        c.u32(w.len() as u32).u32(w.len() as u32).raw(b"PlZ").u8(0x30).raw(&w.0);
        saved(&f, &c.0);
        match GvasFile::read(&mut Cursor::new(&c.0[..]), GameVersion::Palworld) {
            Ok(mut g) => {
                sx::check(g == f, "the container holds the same file");
                g.deserialized_game_version = DeserializedGameVersion::Default;
                saved(&g, &w.0);
            }
            Err(_) => sx::check(false, "the container is accepted"),
        }
        return 0;
    }
    saved(&f, &w.0);
    0
}
struct Head {
    pv: u32,
    p5: u32,
    ma: u16,
    mi: u16,
    pa: u16,
    cl: u32,
    branch: Vec<u8>,
    table: Vec<([u8; 16], u32)>,
    class: Vec<u8>,
}
impl Head {
    fn bytes(&self, v3: bool) -> Vec<u8> {
        let mut b = B::new();
        b.raw(b"GVAS").u32(if v3 { 3 } else { 2 }).u32(self.pv);
        if v3 {
            b.u32(self.p5);
        }
        b.u16(self.ma).u16(self.mi).u16(self.pa).u32(self.cl).raw(&self.branch).u32(3).u32(self.table.len() as u32);
        for (k, v) in &self.table {
            b.raw(k).u32(*v);
        }
        b.raw(&self.class);
        b.0
    }
}
pub const EDITED: usize = LEAVES.len();
