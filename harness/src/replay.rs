//! Native replay of models found by the solver.
use crate::sx::raw::{AssumeFailed, R, Replay};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Write};

include!(concat!(env!("OUT_DIR"), "/table.rs"));

pub const ALLOC_LIMIT: usize = 64 << 20;
pub const EXIT_ALLOC: i32 = 77;

/// Ends the process on a request above the limit the symbolic runs use.
pub struct Limited;
fn guard(n: usize) {
    if n > ALLOC_LIMIT {
        std::process::exit(EXIT_ALLOC);
    }
}
unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        guard(n);
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn unhex(s: &str) -> Vec<u8> {
    s.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

fn one(name: &str, param: u32, model: Vec<u8>) -> String {
    let Some((_, f)) = TABLE.iter().find(|x| x.0 == name) else {
        return format!("{{\"error\":{}}}", js(&format!("no harness {name}")));
    };
    R.with(|r| *r.borrow_mut() = Replay { input: model, ..Default::default() });
    crate::sx::reset();
    let res = std::panic::catch_unwind(|| f(param));
    let st = R.with(|r| std::mem::take(&mut *r.borrow_mut()));
    let list = |v: &[String]| v.iter().map(|x| js(x)).collect::<Vec<_>>().join(",");
    let (ret, panic) = match res {
        Ok(v) => (v.to_string(), "null".to_string()),
        Err(e) if e.is::<AssumeFailed>() => ("null".into(), "null".into()),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            ("null".into(), js(&m.unwrap_or("panic".into())))
        }
    };
    format!(
        "{{\"ret\":{ret},\"panic\":{panic},\"assume_failed\":{},\"failed\":[{}],\"reached\":[{}],\"obs\":[{}]}}",
        st.assume_failed,
        list(&st.failed),
        list(&st.reached),
        st.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    )
}

/// Lines `harness param hex` on standard input, one line of JSON for each.
pub fn main() {
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    // the usual stack of a main thread
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(|| {
            let out = std::io::stdout();
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                let f: Vec<&str> = l.split_whitespace().collect();
                if f.len() < 2 {
                    continue;
                }
                let s = one(f[0], f[1].parse().unwrap(), unhex(f.get(2).copied().unwrap_or("")));
                let mut o = out.lock();
                writeln!(o, "{s}").unwrap();
                o.flush().unwrap();
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
