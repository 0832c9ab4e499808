//! Minimal binding to the Z3 C API and translation of terms.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case, improper_ctypes)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_geq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
}
extern "C" fn on_err(_c: P, _e: c_int) {}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    memo: Vec<P>,
    sorts: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    nq_on_solver: u32,
    timeout_ms: u32,
    pub dump: Option<(u64, std::path::PathBuf)>,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut z = Z3 {
                c,
                s: std::ptr::null_mut(),
                memo: vec![],
                sorts: vec![std::ptr::null_mut(); 129],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                nq_on_solver: 0,
                timeout_ms,
                dump: None,
            };
            z.new_solver();
            z
        }
    }
    fn new_solver(&mut self) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.c, self.s);
            }
            let _ = Z3_mk_solver_for_logic as usize;
            self.s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.timeout_ms);
            let k = CString::new("random_seed").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), 1);
            Z3_solver_set_params(self.c, self.s, p);
        }
    }
    fn sort(&mut self, w: u16) -> P {
        unsafe {
            if self.sorts[w as usize].is_null() {
                self.sorts[w as usize] = Z3_mk_bv_sort(self.c, w as c_uint);
            }
            self.sorts[w as usize]
        }
    }
    /// Bool for width-1 terms, bit-vector otherwise
    pub fn ast(&mut self, ar: &Arena, e: E) -> P {
        if self.memo.len() <= e as usize {
            self.memo.resize(ar.nodes.len() + 1024, std::ptr::null_mut());
        }
        let m = self.memo[e as usize];
        if !m.is_null() {
            return m;
        }
        let n = ar.node(e);
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let v = ar.as_const(e).unwrap();
                    if n.w == 1 {
                        if v == 1 {
                            Z3_mk_true(self.c)
                        } else {
                            Z3_mk_false(self.c)
                        }
                    } else {
                        let s = self.sort(n.w);
                        if n.w <= 64 {
                            Z3_mk_unsigned_int64(self.c, v as u64, s)
                        } else {
                            let t = CString::new(v.to_string()).unwrap();
                            Z3_mk_numeral(self.c, t.as_ptr(), s)
                        }
                    }
                }
                Op::Var => {
                    let s = self.sort(8);
                    Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, n.a as c_int), s)
                }
                Op::Extract => {
                    let a = self.bv(ar, n.a);
                    let x = Z3_mk_extract(self.c, n.b + n.w as u32 - 1, n.b, a);
                    if n.w == 1 {
                        let s = self.sort(1);
                        Z3_mk_eq(self.c, x, Z3_mk_unsigned_int64(self.c, 1, s))
                    } else {
                        x
                    }
                }
                Op::ZExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_zero_ext(self.c, (n.w - ar.w(n.a)) as u32, a)
                }
                Op::SExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_sign_ext(self.c, (n.w - ar.w(n.a)) as u32, a)
                }
                Op::Concat => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    Z3_mk_concat(self.c, a, b)
                }
                Op::Ite => {
                    let a = self.ast(ar, n.a);
                    let b = self.ast(ar, n.b);
                    let c = self.ast(ar, n.c);
                    Z3_mk_ite(self.c, a, b, c)
                }
                Op::FpExt | Op::FpTrunc => {
                    let a = self.bv(ar, n.a);
                    let (s, t) = if n.op == Op::FpExt {
                        (Z3_mk_fpa_sort_32(self.c), Z3_mk_fpa_sort_64(self.c))
                    } else {
                        (Z3_mk_fpa_sort_64(self.c), Z3_mk_fpa_sort_32(self.c))
                    };
                    let f = Z3_mk_fpa_to_fp_bv(self.c, a, s);
                    let g = Z3_mk_fpa_to_fp_float(self.c, Z3_mk_fpa_rne(self.c), f, t);
                    Z3_mk_fpa_to_ieee_bv(self.c, g)
                }
                Op::Fp => {
                    let c = self.c;
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    let aw = ar.w(n.a);
                    let fs = |w: u16| if w == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
                    if n.c == F_SI || n.c == F_UI {
                        let rm = Z3_mk_fpa_rne(c);
                        let f = if n.c == F_SI { Z3_mk_fpa_to_fp_signed(c, rm, a, fs(n.w)) } else { Z3_mk_fpa_to_fp_unsigned(c, rm, a, fs(n.w)) };
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    } else if n.c == F_TOSI || n.c == F_TOUI {
                        let x = Z3_mk_fpa_to_fp_bv(c, a, fs(aw));
                        let signed = n.c == F_TOSI;
                        // bounds are powers of two (or zero), so they are exact
                        let (lo, hi) = if signed { (-(2f64.powi(n.w as i32 - 1)), 2f64.powi(n.w as i32 - 1)) } else { (0.0, 2f64.powi(n.w as i32)) };
                        let num = |z: &mut Z3, v: f64| {
                            let s = z.sort(aw);
                            let bits = if aw == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
                            Z3_mk_fpa_to_fp_bv(c, Z3_mk_unsigned_int64(c, bits, s), fs(aw))
                        };
                        let (l, h) = (num(self, lo), num(self, hi));
                        let s = self.sort(n.w);
                        let m = crate::expr::mask(n.w) as u64;
                        let (lv, hv) = if signed { (1u64 << (n.w - 1), m >> 1) } else { (0, m) };
                        let (lv, hv, zv) = (Z3_mk_unsigned_int64(c, lv, s), Z3_mk_unsigned_int64(c, hv, s), Z3_mk_unsigned_int64(c, 0, s));
                        let rm = Z3_mk_fpa_rtz(c);
                        let v = if signed { Z3_mk_fpa_to_sbv(c, rm, x, n.w as c_uint) } else { Z3_mk_fpa_to_ubv(c, rm, x, n.w as c_uint) };
                        let v = Z3_mk_ite(c, Z3_mk_fpa_geq(c, x, h), hv, v);
                        let v = Z3_mk_ite(c, Z3_mk_fpa_lt(c, x, l), lv, v);
                        Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), zv, v)
                    } else {
                        let x = Z3_mk_fpa_to_fp_bv(c, a, fs(aw));
                        let rne = Z3_mk_fpa_rne(c);
                        let y = if n.c <= F_DIV { Z3_mk_fpa_to_fp_bv(c, b, fs(aw)) } else { x };
                        let f = match n.c {
                            F_ADD => Z3_mk_fpa_add(c, rne, x, y),
                            F_SUB => Z3_mk_fpa_sub(c, rne, x, y),
                            F_MUL => Z3_mk_fpa_mul(c, rne, x, y),
                            F_DIV => Z3_mk_fpa_div(c, rne, x, y),
                            F_SQRT => Z3_mk_fpa_sqrt(c, rne, x),
                            F_FLOOR => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), x),
                            F_CEIL => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), x),
                            F_TRUNC => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), x),
                            F_EVEN => Z3_mk_fpa_round_to_integral(c, rne, x),
                            _ => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), x),
                        };
                        let s = self.sort(n.w);
                        let nan = Z3_mk_unsigned_int64(c, fp_nan(n.w) as u64, s);
                        Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), nan, Z3_mk_fpa_to_ieee_bv(c, f))
                    }
                }
                op if n.w == 1 && matches!(op, Op::And | Op::Or | Op::Xor) => {
                    let a = self.ast(ar, n.a);
                    if op == Op::Xor && n.b == 1 {
                        Z3_mk_not(self.c, a)
                    } else {
                        let b = self.ast(ar, n.b);
                        let l = [a, b];
                        match op {
                            Op::And => Z3_mk_and(self.c, 2, l.as_ptr()),
                            Op::Or => Z3_mk_or(self.c, 2, l.as_ptr()),
                            _ => Z3_mk_xor(self.c, a, b),
                        }
                    }
                }
                op => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    let c = self.c;
                    let r = match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        Op::Sle => Z3_mk_bvsle(c, a, b),
                        _ => unreachable!(),
                    };
                    assert!(n.w > 1 || matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle), "1-bit {:?}", op);
                    r
                }
            }
        };
        self.memo[e as usize] = r;
        r
    }
    fn bv(&mut self, ar: &Arena, e: E) -> P {
        let a = self.ast(ar, e);
        if ar.w(e) == 1 {
            let s = self.sort(1);
            unsafe { Z3_mk_ite(self.c, a, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s)) }
        } else {
            a
        }
    }
    /// Check satisfiability of the conjunction; on Sat, write values of `vars` into `model`.
    pub fn check(&mut self, ar: &Arena, cs: &[E], vars: &[u32], model: &mut Vec<u8>, need: &[E]) -> Res {
        let t0 = Instant::now();
        self.nq_on_solver += 1;
        if self.nq_on_solver > 3000 {
            self.nq_on_solver = 0;
            self.new_solver();
        }
        let _ = need;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for c in cs {
                let a = self.ast(ar, *c);
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = Z3_solver_check(self.c, self.s);
            let err = Z3_get_error_code(self.c);
            self.queries += 1;
            let res = if err != 0 {
                Res::Unknown
            } else {
                match r {
                    1 => Res::Sat,
                    -1 => Res::Unsat,
                    _ => Res::Unknown,
                }
            };
            if let Some((every, dir)) = &self.dump {
                if self.queries % *every == 0 && res != Res::Unknown {
                    let txt = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    let st = if res == Res::Sat { "sat" } else { "unsat" };
                    let f = dir.join(format!("q{}_{}.{st}.smt2", std::process::id(), self.queries));
                    let _ = std::fs::write(f, format!("(set-logic ALL)\n(set-info :status {st})\n{txt}\n(check-sat)\n"));
                }
            }
            if res == Res::Sat {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                for v in vars {
                    let s = self.sort(8);
                    let x = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, *v as c_int), s);
                    let mut o: P = std::ptr::null_mut();
                    let mut val = 0u64;
                    if Z3_model_eval(self.c, m, x, true, &mut o) && Z3_get_numeral_uint64(self.c, o, &mut val) {
                        if model.len() <= *v as usize {
                            model.resize(*v as usize + 1, 0);
                        }
                        model[*v as usize] = val as u8;
                    } else {
                        self.unknown += 1;
                    }
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
            res
        };
        match r {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        r
    }
}
