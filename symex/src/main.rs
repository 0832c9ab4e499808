//! Symbolic executor for LLVM IR with Z3 as the deciding solver.
mod exec;
mod expr;
mod hooks;
mod ir;
mod z3;

use exec::*;
use std::fmt::Write as _;
use std::io::Read;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn map_js<'a>(it: impl Iterator<Item = (&'a String, &'a u64)>) -> String {
    let v: Vec<String> = it.map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

fn viol(v: &Violation) -> String {
    let st: Vec<String> = v.stack.iter().map(|x| js(x)).collect();
    format!("{{\"kind\":{},\"label\":{},\"count\":{},\"model\":\"{}\",\"stack\":[{}]}}", js(&v.kind), js(&v.label), v.count, hex(&v.model), st.join(","))
}

#[derive(Clone)]
struct Job {
    harness: String,
    param: u64,
    secs: u64,
    depth: usize,
    witnesses: usize,
    out: String,
}

fn run_job(m: ir::Module, j: &Job, solver_ms: u32, dump: Option<(u64, std::path::PathBuf)>) {
    let t0 = Instant::now();
    let lim = Limits {
        deadline: t0 + Duration::from_secs(j.secs),
        max_depth: j.depth,
        alloc_limit: 64 << 20,
        max_paths: u64::MAX,
        witnesses: j.witnesses,
    };
    let mut ex = Exec::new(m, solver_ms, lim);
    ex.z.dump = dump;
    ex.trace = std::env::var("SYMEX_TRACE").is_ok();
    if !ex.m.fn_ids.contains_key(&j.harness) {
        std::fs::write(&j.out, format!("{{\"error\":{}}}", js(&format!("no harness {}", j.harness)))).unwrap();
        return;
    }
    let side = format!("{}.v", j.out);
    ex.on_violation = Some(Box::new(move |v| {
        use std::io::Write;
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(&side) {
            let _ = f.write_all(format!("{}\n", viol(v)).as_bytes());
        }
    }));
    let init = ex.initial(&j.harness, &[j.param]);
    ex.explore(init);
    let mut o = String::new();
    let _ = write!(o, "{{\"harness\":{},\"param\":{},\"wall_s\":{:.3}", js(&j.harness), j.param, t0.elapsed().as_secs_f64());
    let s = &ex.st;
    let _ = write!(
        o,
        ",\"insts\":{},\"forks\":{},\"paths\":{},\"dropped\":{},\"checks\":{},\"checks_by_solver\":{},\"cache_hits\":{},\"max_depth\":{},\"max_pc\":{},\"max_vars\":{},\"max_alloc\":{}",
        s.insts, s.forks, s.paths, s.dropped, s.checks, s.checks_solver, s.cache_hits, s.max_depth, s.max_pc, s.max_vars, s.max_alloc
    );
    let _ = write!(
        o,
        ",\"solver\":{{\"version\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"time_s\":{:.3},\"max_s\":{:.3}}}",
        js(&z3::version()),
        ex.z.queries,
        ex.z.sat,
        ex.z.unsat,
        ex.z.unknown,
        ex.z.time,
        ex.z.max_time
    );
    let _ = write!(o, ",\"outcomes\":{}", map_js(ex.outcomes.iter()));
    let _ = write!(o, ",\"inconclusive\":{}", map_js(ex.inconclusive.iter()));
    let _ = write!(o, ",\"reach\":{}", map_js(ex.reach.iter()));
    let _ = write!(o, ",\"labels\":{}", map_js(ex.check_labels.iter()));
    let _ = write!(o, ",\"stubs\":{}", map_js(ex.hook_used.iter()));
    let f: Vec<String> = ex.fns_used.iter().map(|i| js(&ex.m.fns[*i as usize].dem)).collect();
    let _ = write!(o, ",\"functions\":[{}]", f.join(","));
    let v: Vec<String> = ex
        .violations
        .values()
        .map(viol)
        .collect();
    let _ = write!(o, ",\"violations\":[{}]", v.join(","));
    let w: Vec<String> = ex
        .witnesses
        .iter()
        .map(|w| {
            let ob: Vec<String> = w.obs.iter().map(|x| x.to_string()).collect();
            format!("{{\"model\":\"{}\",\"obs\":[{}],\"ret\":{}}}", hex(&w.model), ob.join(","), w.ret)
        })
        .collect();
    let _ = write!(o, ",\"witnesses\":[{}]}}", w.join(","));
    std::fs::write(&j.out, o).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("prep") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let (o, d) = hooks::prep(&t);
            std::fs::write(&a[3], o).unwrap();
            if let Some(p) = a.get(4) {
                std::fs::write(p, d.join("\n")).unwrap();
            }
        }
        Some("run") => {
            // symex run module.ll procs solver_ms outdir [dump_every dumpdir] < jobs
            let text: &'static [u8] = Box::leak(std::fs::read(&a[2]).unwrap().into_boxed_slice());
            let procs: usize = a[3].parse().unwrap();
            let solver_ms: u32 = a[4].parse().unwrap();
            let outdir = a[5].clone();
            let dump = a.get(6).map(|e| (e.parse().unwrap(), std::path::PathBuf::from(&a[7])));
            let mut inp = String::new();
            std::io::stdin().read_to_string(&mut inp).unwrap();
            let mut jobs = vec![];
            for (i, l) in inp.lines().enumerate() {
                let f: Vec<&str> = l.split_whitespace().collect();
                if f.len() < 5 {
                    continue;
                }
                jobs.push(Job {
                    harness: f[0].into(),
                    param: f[1].parse().unwrap(),
                    secs: f[2].parse().unwrap(),
                    depth: f[3].parse().unwrap(),
                    witnesses: f[4].parse().unwrap(),
                    out: format!("{outdir}/{i}.json"),
                });
            }
            let m = ir::Module::load(text);
            if procs == 0 {
                let j = jobs[0].clone();
                run_job(m, &j, solver_ms, dump);
                return;
            }
            let mut m = Some(m);
            let mut running: Vec<(i32, Instant, u64)> = vec![];
            let mut next = 0;
            while next < jobs.len() || !running.is_empty() {
                while next < jobs.len() && running.len() < procs {
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        let j = jobs[next].clone();
                        let mm = m.take().unwrap();
                        let child = std::thread::Builder::new().stack_size(1 << 30).spawn_job(move || run_job_unsafe(mm, &j, solver_ms, dump));
                        unsafe { _exit(if child { 0 } else { 3 }) }
                    }
                    running.push((pid, Instant::now(), jobs[next].secs));
                    next += 1;
                }
                let mut i = 0;
                let mut any = false;
                while i < running.len() {
                    let mut st = 0;
                    let r = unsafe { waitpid(running[i].0, &mut st, 1) };
                    if r != 0 {
                        running.remove(i);
                        any = true;
                        continue;
                    }
                    if running[i].1.elapsed().as_secs() > running[i].2 + 60 {
                        unsafe { kill(running[i].0, 9) };
                    }
                    i += 1;
                }
                if !any {
                    std::thread::sleep(Duration::from_millis(3));
                }
            }
        }
        _ => {
            eprintln!("usage: symex prep|run");
            std::process::exit(2);
        }
    }
}

fn run_job_unsafe(m: ir::Module, j: &Job, ms: u32, dump: Option<(u64, std::path::PathBuf)>) {
    run_job(m, j, ms, dump)
}
trait SpawnJob {
    fn spawn_job<F: FnOnce()>(self, f: F) -> bool;
}
struct Send1<F>(F);
unsafe impl<F> Send for Send1<F> {}
impl<F: FnOnce()> Send1<F> {
    fn go(self) {
        (self.0)()
    }
}
impl SpawnJob for std::thread::Builder {
    /// run on a thread with a large stack; the module is moved wholesale, nothing is shared
    fn spawn_job<F: FnOnce()>(self, f: F) -> bool {
        let s = Send1(f);
        std::thread::scope(|sc| {
            let b: std::thread::Builder = self;
            b.spawn_scoped(sc, move || s.go()).unwrap().join().is_ok()
        })
    }
}
