//! Table of all harness functions, for the native replay.
use std::{env, fs, path::Path};

fn main() {
    let src = Path::new(&env::var("CARGO_MANIFEST_DIR").unwrap()).join("src");
    println!("cargo:rerun-if-changed=src");
    let mut names = vec![];
    for f in fs::read_dir(&src).unwrap() {
        let p = f.unwrap().path();
        let stem = p.file_stem().unwrap().to_str().unwrap().to_string();
        if !stem.starts_with('p') || p.extension().map(|e| e != "rs").unwrap_or(true) {
            continue;
        }
        for l in fs::read_to_string(&p).unwrap().lines() {
            if let Some(r) = l.strip_prefix("pub extern \"C-unwind\" fn h_") {
                names.push(format!("(\"h_{0}\", crate::{stem}::h_{0}),", r.split('(').next().unwrap()));
            }
        }
    }
    names.sort();
    let t = format!("pub static TABLE: &[(&str, extern \"C-unwind\" fn(u32) -> u32)] = &[{}];", names.join("\n"));
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("table.rs"), t).unwrap();
}
