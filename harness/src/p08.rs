use crate::common::*;
use crate::file::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;
use gvas::GvasHeader;
use std::io::Cursor;

/// P08: every numeric field arbitrary.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_hdr(param: u32) -> u32 {
    let p = P::new(param);
    let (magic, ver, pkg, ue5, fmt) = (sx::u32(), sx::u32(), sx::u32(), sx::u32(), sx::u32());
    let branch = p.s();
    let class = p.s();
    let ev: [u8; 10] = sx::bytes();
    let mut b = B::new();
    b.u32(magic).u32(ver).u32(pkg);
    let v3 = ver == 3;
    if v3 {
        b.u32(ue5);
    }
    b.raw(&ev).s(&branch).u32(fmt).u32(p.n as u32);
    let mut tab: Vec<([u8; 16], u32)> = Vec::new();
    for _ in 0..p.n {
        let k: [u8; 16] = sx::bytes();
        let v = sx::u32();
        for (o, _) in &tab {
            sx::assume(!sx::eq(o, &k));
        }
        b.raw(&k).u32(v);
        tab.push((k, v));
    }
    b.s(&class);
    let end = b.len();
    b.raw(&[9, 9]);
    let magic_ok = magic == u32::from_le_bytes(*b"GVAS");
    let ver_ok = ver == 2 || ver == 3;
    let pkg_ok = (pkg >= 0x205) & (pkg <= 0x20d);
    let ue5_ok = !v3 | ((ue5 >= 1000) & (ue5 <= 1009));
    let ok = magic_ok & ver_ok & pkg_ok & ue5_ok & (fmt == 3);
    let mut c = Cursor::new(&b.0[..]);
    match GvasHeader::read(&mut c) {
        Ok(h) => {
            sx::check(ok, "only supported headers are accepted");
            sx::check(c.position() as usize == end, "exactly the header is consumed");
            let mut out: Vec<u8> = Vec::new();
            match h.write(&mut out) {
                Ok(_) => sx::check(sx::eq(&out, &b.0[..end]), "the header is written back unchanged"),
                Err(_) => sx::check(false, "a header that was read can be written"),
            }
            let (p1, p2, e, f, t, s) = match &h {
                GvasHeader::Version2 { package_file_version, engine_version, custom_version_format, custom_versions, save_game_class_name } => {
                    sx::check(!v3, "version 2 layout for version 2");
                    (*package_file_version, 0, engine_version, *custom_version_format, custom_versions, save_game_class_name)
                }
                GvasHeader::Version3 { package_file_version, package_file_version_ue5, engine_version, custom_version_format, custom_versions, save_game_class_name } => {
                    sx::check(v3, "version 3 layout for version 3");
                    (*package_file_version, *package_file_version_ue5, engine_version, *custom_version_format, custom_versions, save_game_class_name)
                }
            };
            sx::check(p1 == pkg, "package version");
            sx::check(f == fmt, "custom version format");
            if v3 {
                sx::check(p2 == ue5, "UE5 package version");
                sx::reach("v3");
            } else {
                sx::reach("v2");
            }
            let u = |i: usize| ev[i] as u16 | (ev[i + 1] as u16) << 8;
            sx::check(e.major == u(0), "engine major");
            sx::check(e.minor == u(2), "engine minor");
            sx::check(e.patch == u(4), "engine patch");
            sx::check(e.change_list == (u(6) as u32 | (u(8) as u32) << 16), "engine change list");
            sx::check(sx::eq(e.branch.as_bytes(), branch.s.as_bytes()), "engine branch");
            sx::check(sx::eq(s.as_bytes(), class.s.as_bytes()), "class name");
            sx::check(t.len() == tab.len(), "number of custom versions");
            sx::check(h.get_custom_versions() == t, "custom version table");
            for (i, (k, v)) in t.iter().enumerate() {
                sx::check(sx::eq(&k.0, &tab[i].0), "custom version key and order");
                sx::check(*v == tab[i].1, "custom version number");
            }
        }
        Err(e) => {
            sx::check(!ok, "every supported header is accepted");
            sx::check(code(&e).kind == K_HEADER, "an unsupported header is reported as such");
            sx::reach("rejected");
        }
    }
    0
}

/// P08: values of the header type survive writing and reading.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_hdr_value(param: u32) -> u32 {
    let p = P::new(param);
    let h = header(p.sub == 1, p.n, &p.s(), &p.s(), &Env::new());
    let mut out: Vec<u8> = Vec::new();
    match h.value.write(&mut out) {
        Ok(_) => sx::check(sx::eq(&out, &h.bytes), "written bytes are the documented layout"),
        Err(_) => sx::check(false, "a header can be written"),
    }
    match GvasHeader::read(&mut Cursor::new(&h.bytes[..])) {
        Ok(x) => sx::check(x == h.value, "the header read is the header encoded"),
        Err(_) => sx::check(false, "the documented layout is accepted"),
    }
    sx::reach("end");
    0
}

/// P08: the strings of the header must be well formed. `sub` 0 branch, 1 class name.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_hdr_strings(param: u32) -> u32 {
    let p = P::new(param);
    let raw = sx::vec(4 + p.sl);
    let len = i32::from_le_bytes([raw[0], raw[1], raw[2], raw[3]]);
    // a text that fills its field exactly
    let narrow = len == p.sl as i32;
    let wide = p.sl % 2 == 0 && len == -(p.sl as i32 / 2);
    sx::assume(narrow | wide | (len == 0) | (len < -131072) | (len > 131072));
    let mut b = B::new();
    b.raw(b"GVAS").u32(2).u32(0x20d).raw(&[0; 10]);
    if p.sub == 0 {
        b.raw(&raw).u32(3).u32(0).lit("/S");
    } else {
        b.lit("+").u32(3).u32(0).raw(&raw);
    }
    let t = &raw[4..];
    let good = if narrow {
        t[p.sl - 1] == 0 && sx::utf8(&t[..p.sl - 1])
    } else if wide {
        let mut g = t[p.sl - 1] == 0 && t[p.sl - 2] == 0;
        let mut high = false;
        for i in 0..p.sl / 2 - 1 {
            let x = t[2 * i] as u16 | (t[2 * i + 1] as u16) << 8;
            let (h, l) = (x & 0xfc00 == 0xd800, x & 0xfc00 == 0xdc00);
            g = g & (l == high);
            high = h;
        }
        g & !high
    } else {
        false
    };
    let r = GvasHeader::read(&mut Cursor::new(&b.0[..]));
    if r.is_ok() {
        sx::reach("accepted");
    } else {
        sx::reach("rejected");
    }
    sx::check(r.is_ok() == good, "exactly well-formed strings are accepted");
    0
}
