//! Whole save files with symbolic contents and their expected encoding.
use crate::gen_::*;
use crate::spec::*;
use crate::sx;
use gvas::engine_version::FEngineVersion;
use gvas::game_version::DeserializedGameVersion;
use gvas::properties::Property;
use gvas::types::{Guid, map::HashableIndexMap};
use gvas::{GvasFile, GvasHeader};

pub struct Hdr {
    pub bytes: Vec<u8>,
    pub value: GvasHeader,
}
/// A valid header with `n` distinct custom versions besides those in `e`.
pub fn header(v3: bool, n: usize, s: &S, class: &S, e: &Env) -> Hdr {
    let mut b = B::new();
    b.raw(b"GVAS").u32(if v3 { 3 } else { 2 });
    let pv = sx::u32();
    sx::assume((pv >= 0x205) & (pv <= 0x20d));
    b.u32(pv);
    let pv5 = if v3 {
        let x = sx::u32();
        sx::assume((x >= 1000) & (x <= 1009));
        b.u32(x);
        x
    } else {
        0
    };
    let (ma, mi, pa, cl) = (sx::u16(), sx::u16(), sx::u16(), sx::u32());
    b.u16(ma).u16(mi).u16(pa).u32(cl).s(s);
    b.u32(3);
    b.u32((n + e.versions.len()) as u32);
    let mut cv = HashableIndexMap::new();
    for (k, v) in &e.versions {
        b.raw(&k.0).u32(*v);
        cv.insert(*k, *v);
    }
    for i in 0..n {
        let (mut g, v) = within(i, n, || (sx::guid(), sx::u32()));
        // distinct from each other and from the keys that select encodings
        g[0] = i as u8;
        g[1] = (i >> 8) as u8;
        b.raw(&g).u32(v);
        cv.insert(Guid(g), v);
    }
    b.s(class);
    let ev = FEngineVersion { major: ma, minor: mi, patch: pa, change_list: cl, branch: s.s.clone() };
    let value = if v3 {
        GvasHeader::Version3 {
            package_file_version: pv,
            package_file_version_ue5: pv5,
            engine_version: ev,
            custom_version_format: 3,
            custom_versions: cv,
            save_game_class_name: class.s.clone(),
        }
    } else {
        GvasHeader::Version2 {
            package_file_version: pv,
            engine_version: ev,
            custom_version_format: 3,
            custom_versions: cv,
            save_game_class_name: class.s.clone(),
        }
    };
    Hdr { bytes: b.0, value }
}
pub struct FileCase {
    pub bytes: Vec<u8>,
    pub value: GvasFile,
}
/// File with the given properties, in order.
pub fn file(h: Hdr, props: Vec<(String, Vec<u8>, Property)>) -> FileCase {
    let mut b = B(h.bytes);
    let mut m = HashableIndexMap::new();
    for (n, enc, p) in props {
        b.lit(&n).raw(&enc);
        m.insert(n, p);
    }
    b.lit("None").u32(0);
    FileCase {
        bytes: b.0,
        value: GvasFile { deserialized_game_version: DeserializedGameVersion::Default, header: h.value, properties: m },
    }
}
/// A file holding the value described by `p` between two fixed siblings.
pub fn around(p: &P, v3: bool) -> (FileCase, Env) {
    let mut e = env_for(p);
    let c = make(p, &mut e);
    let h = header(v3, 1, &S::lit("++UE"), &S::lit("/S"), &e);
    let mut ps = Vec::new();
    let q = P { sl: 1, n: 1, mode: 0, ..*p };
    let a = leaf(INT, &q, false);
    let z = leaf(STR, &q, false);
    ps.push(("First".to_string(), a.full(), a.prop));
    ps.push(("Middle".to_string(), c.full(), c.prop));
    ps.push(("Last".to_string(), z.full(), z.prop));
    let hints: Vec<(String, String)> = e.hints.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    e.hints.clear();
    for (k, v) in hints {
        let mut s = String::from("Middle.");
        s.push_str(&k);
        e.hints.insert(s, v);
    }
    (file(h, ps), e)
}
