//! Functions whose bodies are replaced by a model. Everything else is executed from its IR.

#[derive(Clone, Debug, PartialEq)]
pub enum Hook {
    Panic,
    Malloc,
    Calloc,
    Realloc,
    Free,
    MemAlign,
    AlignedAlloc,
    MemCmp,
    Bcmp,
    MemCpyFn,
    MemSetFn,
    Strlen,
    Zero,
    SymBytes,
    SymAssume,
    SymCheck,
    SymFork,
    SymObserve,
    SymReach,
    SymUtf8,
    SymEq,
    SymSel,
    /// returns its first argument
    First,
    /// Display of an integer of that width; signed
    FmtInt(u16, bool),
    /// diagnostic text whose contents are irrelevant
    FmtMark,
    Redirect(&'static str),
}

/// Functions modelled instead of executed; their bodies are dropped before optimisation so
/// that calls to them stay visible.
pub fn modelled(dem: &str) -> Option<Hook> {
    // SipHash: the hash value is abstracted to a constant (tables degrade to linear search)
    if dem.contains("core::hash::sip::Hasher<") && dem.contains("as core::hash::Hasher>::") {
        return Some(Hook::Zero);
    }
    if dem.starts_with("std::sys::random::") && dem.ends_with("hashmap_random_keys") {
        return Some(Hook::Zero);
    }
    // diagnostic output: Debug and floating point text is a placeholder, integers are printed
    // when they are concrete
    if dem.ends_with(" as core::fmt::Debug>::fmt") {
        return Some(Hook::FmtMark);
    }
    if let Some(t) = dem.strip_suffix(" as core::fmt::Display>::fmt").and_then(|t| t.strip_prefix('<')) {
        return match t {
            "u8" => Some(Hook::FmtInt(8, false)),
            "u16" => Some(Hook::FmtInt(16, false)),
            "u32" => Some(Hook::FmtInt(32, false)),
            "u64" | "usize" => Some(Hook::FmtInt(64, false)),
            "i8" => Some(Hook::FmtInt(8, true)),
            "i16" => Some(Hook::FmtInt(16, true)),
            "i32" => Some(Hook::FmtInt(32, true)),
            "i64" | "isize" => Some(Hook::FmtInt(64, true)),
            "f32" | "f64" => Some(Hook::FmtMark),
            _ => None,
        };
    }
    // checksums of compressed streams are abstracted (also in the harness)
    if dem == "miniz_oxide::shared::update_adler32" {
        return Some(Hook::First);
    }
    if dem == "core::str::converts::from_utf8" {
        return Some(Hook::Redirect("symex_stub_from_utf8"));
    }
    None
}

pub fn hook_for(name: &str, dem: &str, has_body: bool, noreturn: bool) -> Option<Hook> {
    if has_body {
        return None;
    }
    Some(match name {
        "malloc" => Hook::Malloc,
        "calloc" => Hook::Calloc,
        "realloc" => Hook::Realloc,
        "free" => Hook::Free,
        "posix_memalign" => Hook::MemAlign,
        "aligned_alloc" | "memalign" => Hook::AlignedAlloc,
        "memcmp" => Hook::MemCmp,
        "bcmp" => Hook::Bcmp,
        "memcpy" | "memmove" => Hook::MemCpyFn,
        "memset" => Hook::MemSetFn,
        "strlen" => Hook::Strlen,
        "symex_bytes" => Hook::SymBytes,
        "symex_assume" => Hook::SymAssume,
        "symex_check" => Hook::SymCheck,
        "symex_fork" => Hook::SymFork,
        "symex_observe" => Hook::SymObserve,
        "symex_reach" => Hook::SymReach,
        "symex_utf8" => Hook::SymUtf8,
        "symex_eq" => Hook::SymEq,
        "symex_and" => Hook::SymSel,
        _ => {
            if let Some(h) = modelled(dem) {
                return Some(h);
            }
            if noreturn || name == "abort" {
                return Some(Hook::Panic);
            }
            return None;
        }
    })
}

/// Turn the definitions of modelled and never-returning functions into declarations.
pub fn prep(text: &str) -> (String, Vec<String>) {
    let mut noret = std::collections::HashSet::new();
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("attributes #") {
            if r.split_whitespace().any(|w| w == "noreturn") {
                noret.insert(r.split(' ').next().unwrap().to_string());
            }
        }
    }
    let mut out = String::with_capacity(text.len());
    let mut dropped = vec![];
    let mut lines = text.lines();
    while let Some(l) = lines.next() {
        if l.starts_with("define ") {
            let at = crate::ir::find_fn_name(l.as_bytes());
            let rest = &l[at + 1..];
            let name: String = if let Some(r) = rest.strip_prefix('"') {
                r.split('"').next().unwrap().to_string()
            } else {
                rest.split('(').next().unwrap().to_string()
            };
            let close = l.rfind(") ").unwrap_or(l.len());
            let attr = l[close..].split_whitespace().find_map(|w| w.strip_prefix('#')).unwrap_or("").to_string();
            let dem = format!("{:#}", rustc_demangle::demangle(&name));
            let drop = (noret.contains(&attr) || modelled(&dem).is_some()) && !name.starts_with("symex_") && !name.starts_with("h_");
            if drop {
                let mut head = l[7..].to_string();
                for w in ["internal ", "private ", "hidden ", "weak_odr ", "linkonce_odr ", "weak ", "dso_local "] {
                    head = head.replacen(w, "", 1);
                }
                let at = crate::ir::find_fn_name(head.as_bytes());
                // parameter list end
                let b = head.as_bytes();
                let mut q = at;
                if b[q + 1] == b'"' {
                    q += 2;
                    while b[q] != b'"' {
                        q += 1;
                    }
                }
                while b[q] != b'(' {
                    q += 1;
                }
                let mut d = 0;
                loop {
                    match b[q] {
                        b'(' => d += 1,
                        b')' => {
                            d -= 1;
                            if d == 0 {
                                break;
                            }
                        }
                        _ => {}
                    }
                    q += 1;
                }
                out.push_str("declare ");
                out.push_str(&head[..=q]);
                if !attr.is_empty() {
                    out.push_str(" #");
                    out.push_str(&attr);
                }
                out.push('\n');
                dropped.push(dem);
                for l in lines.by_ref() {
                    if l == "}" {
                        break;
                    }
                }
                continue;
            }
        }
        out.push_str(l);
        out.push('\n');
    }
    (out, dropped)
}
