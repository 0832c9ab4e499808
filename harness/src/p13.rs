use crate::common::*;
use crate::file::*;
use crate::gen_::*;
use crate::spec::*;
use crate::sx;
use gvas::cursor_ext::WriteExt;
use gvas::properties::PropertyTrait;

fn judge(ok: bool, w: &FaultW, full: &[u8]) {
    sx::observe(w.out.len() as u64);
    if ok {
        sx::check(sx::eq(&w.out, full), "success means the complete encoding was delivered");
        sx::reach("ok");
    } else {
        sx::check(w.out.len() <= full.len() && sx::eq(&w.out, &full[..w.out.len()]), "what was delivered before an error is a prefix");
        sx::reach("err");
    }
    if w.fired {
        sx::reach("fired");
    }
}

/// P13: fault kind `var`, at an arbitrary call of the writer.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_wfault(param: u32) -> u32 {
    let p = P { var: 0, ..P::new(param) };
    let kind = P::new(param).var;
    let mut e = env_for(&p);
    let c = make(&p, &mut e);
    let full = c.full();
    let mut w = FaultW::new(kind);
    let r = c.prop.write(&mut w, true, &mut e.opts());
    judge(r.is_ok(), &w, &full);
    if let Ok(n) = r {
        sx::check(n == full.len(), "the reported count is what was delivered");
    }
    0
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_wfault_elem(param: u32) -> u32 {
    let p = P { var: 0, ..P::new(param) };
    let kind = P::new(param).var;
    let mut e = env_for(&p);
    let c = leaf(p.kind, &p, true);
    let mut w = FaultW::new(kind);
    let r = c.prop.write(&mut w, false, &mut e.opts());
    judge(r.is_ok(), &w, &c.body);
    0
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_wfault_parts(param: u32) -> u32 {
    let p = P { var: 0, ..P::new(param) };
    let kind = P::new(param).var;
    let s = p.s();
    let mut w = FaultW::new(kind);
    let r = w.write_fstring(Some(&s.s));
    judge(r.is_ok(), &w, &s.enc);
    let e = Env::new();
    let h = header(p.sub & 1 == 1, p.n, &s, &p.s(), &e);
    let mut w = FaultW::new(kind);
    let r = h.value.write(&mut w);
    judge(r.is_ok(), &w, &h.bytes);
    0
}
/// P13: whole files.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_wfault_file(param: u32) -> u32 {
    let p = P { var: 0, ..P::new(param) };
    let kind = P::new(param).var;
    let (f, _) = around(&p, p.n & 1 == 1);
    let mut w = FaultW::new(kind);
    let r = f.value.write(&mut w);
    judge(r.is_ok(), &w, &f.bytes);
    0
}
/// P13: container without compression.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_wfault_plz(param: u32) -> u32 {
    let p = P { var: 0, ..P::new(param) };
    let kind = P::new(param).var;
    let (mut f, _) = around(&p, true);
    use gvas::game_version::*;
    f.value.deserialized_game_version = DeserializedGameVersion::Palworld(PalworldCompressionType::None);
    let mut b = B::new();
    b.u32(f.bytes.len() as u32).u32(f.bytes.len() as u32).raw(b"PlZ").u8(0x30).raw(&f.bytes);
    let mut w = FaultW::new(kind);
    let r = f.value.write(&mut w);
    if r.is_ok() {
        sx::check(sx::eq(&w.out, &b.0), "success means the complete container was delivered");
        sx::reach("ok");
    } else {
        // the stored length is filled in last
        let mut out = w.out.clone();
        if out.len() >= 8 {
            out[4..8].copy_from_slice(&b.0[4..8]);
        } else if out.len() > 4 {
            let n = out.len();
            out[4..n].copy_from_slice(&b.0[4..n]);
        }
        sx::check(out.len() <= b.0.len() && sx::eq(&out, &b.0[..out.len()]), "what was delivered before an error is a prefix");
        sx::reach("err");
    }
    0
}
