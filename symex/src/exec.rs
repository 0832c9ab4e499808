//! Symbolic execution of the IR.
use crate::expr::*;
use crate::expr::Op as X;
use crate::hooks::{self, Hook};
use crate::ir::*;
use crate::ir::Op;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Global,
    Stack,
    Heap,
}
#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// empty, or one entry per byte: 0 = concrete, else a term
    pub sym: Vec<E>,
    pub size: u64,
    /// symbolic size, with `size` an upper bound and `min_ok` a proved lower bound
    pub ssize: Option<E>,
    pub min_ok: u64,
    pub kind: Kind,
    pub ro: bool,
}
impl Obj {
    fn grow(&mut self, n: usize) {
        if self.data.len() < n {
            let m = n.max(self.data.len() * 2).min(self.size as usize);
            self.data.resize(m, 0);
            if !self.sym.is_empty() {
                self.sym.resize(m, 0);
            }
        }
    }
    #[inline]
    fn set(&mut self, i: usize, v: u8) {
        self.data[i] = v;
        if !self.sym.is_empty() {
            self.sym[i] = 0;
        }
    }
    fn set_sym(&mut self, i: usize, e: E) {
        if self.sym.is_empty() {
            self.sym = vec![0; self.data.len()];
        }
        self.sym[i] = e;
    }
}

const CH: usize = 64;
#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    next: u32,
}
impl Mem {
    fn add(&mut self, o: Obj) -> u32 {
        let id = self.next;
        self.next += 1;
        let (c, i) = (id as usize / CH, id as usize % CH);
        if c >= self.chunks.len() {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[i] = Some(Rc::new(o));
        id
    }
    fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH)?[id as usize % CH].as_ref()
    }
    fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        let s = Rc::make_mut(c)[id as usize % CH].as_mut()?;
        Some(Rc::make_mut(s))
    }
    fn kill(&mut self, id: u32) {
        if let Some(c) = self.chunks.get_mut(id as usize / CH) {
            Rc::make_mut(c)[id as usize % CH] = None;
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub b: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub ret_dst: u32,
    pub normal: Option<u32>,
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub pinned: Vec<u64>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub obs: Vec<Val>,
    pub reached: Vec<u32>,
    pub alloc_total: u64,
    pub nforks: u32,
    pub retval: u64,
}

pub enum Stop {
    /// path is infeasible / dropped by an assumption
    Drop,
    /// path ended
    End(Outcome),
    /// cannot decide
    Inconclusive(String),
}
#[derive(Clone, Debug)]
pub enum Outcome {
    Ret,
    Panic(String),
    Mem(String),
    OverAlloc(String),
    Depth(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub label: String,
    pub stack: Vec<String>,
    pub model: Vec<u8>,
    pub count: u64,
}
pub struct Witness {
    pub model: Vec<u8>,
    pub obs: Vec<u64>,
    pub ret: u64,
}

#[derive(Default)]
pub struct Stats {
    pub insts: u64,
    pub forks: u64,
    pub paths: u64,
    pub dropped: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub cache_hits: u64,
    pub max_depth: usize,
    pub max_pc: usize,
    pub max_vars: u32,
    pub max_alloc: u64,
}

pub struct Limits {
    pub deadline: Instant,
    pub max_depth: usize,
    pub alloc_limit: u64,
    pub max_paths: u64,
    pub witnesses: usize,
}

pub struct Exec {
    pub m: Module,
    pub ar: Arena,
    pub z: Z3,
    pub hooks: Vec<Option<Option<Hook>>>,
    pub work: Vec<State>,
    pub cache: FxMap<Vec<E>, Option<Rc<Vec<(u32, u8)>>>>,
    bits: Vec<Option<Rc<[u64]>>>,
    pub violations: BTreeMap<(String, String), Violation>,
    /// called when a violation is first seen
    pub on_violation: Option<Box<dyn Fn(&Violation)>>,
    pub witnesses: Vec<Witness>,
    pub inconclusive: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    reach_ids: HashMap<String, u32>,
    pub check_labels: BTreeMap<String, u64>,
    pub fns_used: std::collections::BTreeSet<u32>,
    pub st: Stats,
    pub lim: Limits,
    pub outcomes: BTreeMap<String, u64>,
    pub conc_sites: HashMap<(u32, u32, u32), u64>,
    pub trace: bool,
    pub allow: Allow,
    pub hook_used: BTreeMap<String, u64>,
}
#[derive(Default, Clone)]
pub struct Allow {
    /// treat a call that never returns as an ordinary end of the path
    pub panics: bool,
}

fn cval(v: u128, w: u16, ar: &mut Arena) -> Val {
    if w > 64 {
        Val::S(ar.cnst(v, w))
    } else {
        Val::C(v as u64 & mask(w) as u64)
    }
}

impl Exec {
    pub fn new(m: Module, solver_ms: u32, lim: Limits) -> Self {
        let n = m.fns.len();
        Exec {
            m,
            ar: Arena::new(),
            z: Z3::new(solver_ms),
            hooks: vec![None; n],
            work: vec![],
            cache: Default::default(),
            bits: vec![],
            violations: Default::default(),
            on_violation: None,
            witnesses: vec![],
            inconclusive: Default::default(),
            reach: Default::default(),
            reach_ids: Default::default(),
            check_labels: Default::default(),
            fns_used: Default::default(),
            st: Default::default(),
            lim,
            outcomes: Default::default(),
            conc_sites: Default::default(),
            trace: false,
            allow: Default::default(),
            hook_used: Default::default(),
        }
    }
    pub fn initial(&mut self, entry: &str, args: &[u64]) -> State {
        let mut mem = Mem::default();
        mem.next = 1;
        for g in &self.m.globals {
            mem.add(Obj {
                data: g.data.clone(),
                sym: vec![],
                size: g.size,
                ssize: None,
                min_ok: g.size,
                kind: Kind::Global,
                ro: g.constant,
            });
        }
        let id = *self.m.fn_ids.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        let f = self.m.func(id, &mut self.ar).expect("entry body");
        self.fns_used.insert(id);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() {
            regs[*p as usize] = Val::C(args.get(i).copied().unwrap_or(0));
        }
        State {
            frames: vec![Frame { f, b: 0, ip: 0, regs, allocas: vec![], ret_dst: NODST, normal: None }],
            mem,
            pc: vec![],
            pinned: vec![],
            model: Rc::new(vec![]),
            nvars: 0,
            obs: vec![],
            reached: vec![],
            alloc_total: 0,
            nforks: 0,
            retval: 0,
        }
    }

    // ---- constraints -------------------------------------------------
    fn is_pinned(&self, st: &State, e: E) -> bool {
        self.ar.support(e).iter().all(|v| st.pinned.get(*v as usize / 64).is_some_and(|w| w >> (v % 64) & 1 == 1))
    }
    fn bitset(&mut self, e: E) -> Rc<[u64]> {
        let s = self.ar.supp_id(e) as usize;
        if self.bits.len() <= s {
            self.bits.resize(s + 256, None);
        }
        if let Some(b) = &self.bits[s] {
            return b.clone();
        }
        let v = self.ar.support(e);
        let n = v.last().map_or(0, |x| *x as usize / 64 + 1);
        let mut b = vec![0u64; n];
        for x in v {
            b[*x as usize / 64] |= 1 << (x % 64);
        }
        let r: Rc<[u64]> = b.into();
        self.bits[s] = Some(r.clone());
        r
    }
    pub fn add(&mut self, st: &mut State, e: E) {
        if e == 1 {
            return;
        }
        let n = self.ar.node(e);
        if n.op == X::And && n.w == 1 {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if st.pc.contains(&e) {
            return;
        }
        if n.op == X::Eq {
            let l = self.ar.node(n.a);
            if l.op == X::Var && self.ar.as_const(n.b).is_some() {
                let k = l.a as usize / 64;
                if st.pinned.len() <= k {
                    st.pinned.resize(k + 1, 0);
                }
                if st.pinned[k] >> (l.a % 64) & 1 == 1 {
                    return;
                }
                st.pinned[k] |= 1 << (l.a % 64);
            }
        }
        st.pc.push(e);
        self.st.max_pc = self.st.max_pc.max(st.pc.len());
    }
    /// Is pc ∧ e satisfiable? Returns a model (full) when it is.
    pub fn query(&mut self, st: &State, e: E) -> R<Option<Rc<Vec<u8>>>> {
        if e == 0 {
            return Ok(None);
        }
        if e == 1 {
            return Ok(Some(st.model.clone()));
        }
        // slice
        let mut need: Vec<u64> = self.bitset(e).to_vec();
        let mut chosen: Vec<E> = vec![e];
        let mut rest: Vec<(E, Rc<[u64]>)> = Vec::with_capacity(st.pc.len());
        for c in st.pc.iter() {
            let b = self.bitset(*c);
            rest.push((*c, b));
        }
        let pin = |i: usize| st.pinned.get(i).copied().unwrap_or(0);
        loop {
            let mut changed = false;
            rest.retain(|(c, b)| {
                let hit_free = b.iter().enumerate().any(|(i, w)| w & need.get(i).copied().unwrap_or(0) & !pin(i) != 0);
                if hit_free {
                    chosen.push(*c);
                    if need.len() < b.len() {
                        need.resize(b.len(), 0);
                    }
                    for (i, w) in b.iter().enumerate() {
                        if need[i] | w != need[i] {
                            need[i] |= w;
                            changed = true;
                        }
                    }
                    return false;
                }
                true
            });
            if !changed {
                break;
            }
        }
        // values of pinned variables that occur
        for (c, b) in &rest {
            if b.iter().enumerate().all(|(i, w)| w & !pin(i) == 0) && b.iter().enumerate().any(|(i, w)| w & need.get(i).copied().unwrap_or(0) != 0) {
                let n = self.ar.node(*c);
                if n.op == X::Eq && self.ar.node(n.a).op == X::Var {
                    chosen.push(*c);
                }
            }
        }
        chosen[1..].sort_unstable();
        if let Some(r) = self.cache.get(&chosen) {
            self.st.cache_hits += 1;
            return Ok(r.as_ref().map(|l| {
                let mut m = (*st.model).clone();
                for (v, x) in l.iter() {
                    if m.len() <= *v as usize {
                        m.resize(*v as usize + 1, 0);
                    }
                    m[*v as usize] = *x;
                }
                Rc::new(m)
            }));
        }
        let mut vars = vec![];
        for (i, w) in need.iter().enumerate() {
            let mut w = *w;
            while w != 0 {
                vars.push(i as u32 * 64 + w.trailing_zeros());
                w &= w - 1;
            }
        }
        let mut m = (*st.model).clone();
        let r = self.z.check(&self.ar, &chosen, &vars, &mut m, &[]);
        match r {
            Res::Sat => {
                // the model must satisfy the slice under our own evaluator
                for c in &chosen {
                    if self.ar.eval(*c, &m) != 1 {
                        return Err(Stop::Inconclusive("solver model does not satisfy the encoded constraints".into()));
                    }
                }
                let l: Vec<(u32, u8)> = vars.iter().map(|v| (*v, m.get(*v as usize).copied().unwrap_or(0))).collect();
                self.cache.insert(chosen, Some(Rc::new(l)));
                Ok(Some(Rc::new(m)))
            }
            Res::Unsat => {
                self.cache.insert(chosen, None);
                Ok(None)
            }
            Res::Unknown => Err(Stop::Inconclusive("solver answered unknown (time limit)".into())),
        }
    }
    fn holds_syntactically(&mut self, st: &State, e: E) -> Option<bool> {
        if e <= 1 {
            return Some(e == 1);
        }
        if self.is_pinned(st, e) {
            let m = st.model.clone();
            return Some(self.ar.eval(e, &m) == 1);
        }
        if st.pc.contains(&e) {
            return Some(true);
        }
        let ne = self.ar.not1(e);
        if st.pc.contains(&ne) {
            return Some(false);
        }
        None
    }
    /// Decide a branch; pushes the other side as a new state when both are feasible.
    /// The other state re-executes the current instruction with the opposite fact known.
    fn branch(&mut self, st: &mut State, e: E) -> R<bool> {
        if let Some(b) = self.holds_syntactically(st, e) {
            return Ok(b);
        }
        let m = st.model.clone();
        let cur = self.ar.eval(e, &m) == 1;
        let ne = self.ar.not1(e);
        let (here, there) = if cur { (e, ne) } else { (ne, e) };
        match self.query(st, there)? {
            None => {}
            Some(om) => {
                let mut o = st.clone();
                o.model = om;
                o.nforks += 1;
                self.add(&mut o, there);
                self.work.push(o);
                self.st.forks += 1;
                self.add(st, here);
                st.nforks += 1;
            }
        }
        Ok(cur)
    }
    fn concretize(&mut self, st: &mut State, e: E) -> R<u64> {
        let m = st.model.clone();
        let v = self.ar.eval(e, &m);
        if self.is_pinned(st, e) {
            return Ok(v as u64);
        }
        let fr = st.frames.last().unwrap();
        let k = (fr.f.id, fr.b, fr.ip);
        let c = self.conc_sites.entry(k).or_insert(0);
        *c += 1;
        if *c > 20000 {
            return Err(Stop::Inconclusive(format!("too many values at one site in {}", self.m.fns[fr.f.id as usize].dem)));
        }
        let eq = self.ar.eqc(e, v);
        if st.pc.contains(&eq) {
            return Ok(v as u64);
        }
        let ne = self.ar.not1(eq);
        if let Some(om) = self.query(st, ne)? {
            let mut o = st.clone();
            o.model = om;
            o.nforks += 1;
            self.add(&mut o, ne);
            self.work.push(o);
            self.st.forks += 1;
            st.nforks += 1;
        }
        self.add(st, eq);
        Ok(v as u64)
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::S(e) => {
                if let Some(x) = self.ar.as_const(*e) {
                    return Ok(x as u64);
                }
                self.concretize(st, *e)
            }
            Val::A(_) => Err(Stop::Inconclusive("aggregate as scalar".into())),
        }
    }
    /// concrete if all variables involved are pinned on this path
    fn settle(&mut self, st: &State, v: Val) -> Val {
        if let Val::S(e) = v {
            if self.ar.w(e) <= 64 {
                if let Some(x) = self.ar.as_const(e) {
                    return Val::C(x as u64);
                }
                if self.is_pinned(st, e) {
                    let m = st.model.clone();
                    return Val::C(self.ar.eval(e, &m) as u64);
                }
            }
        }
        v
    }

    // ---- values --------------------------------------------------------
    #[inline]
    fn get(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::C(v) => v.clone(),
        }
    }
    fn ex(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::C(x) => self.ar.cnst(*x as u128, w),
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as term"),
        }
    }
    fn wrap(&self, e: E) -> Val {
        if self.ar.w(e) <= 64 {
            if let Some(v) = self.ar.as_const(e) {
                return Val::C(v as u64);
            }
        }
        Val::S(e)
    }
    fn bin(&mut self, op: Bin, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut r = Vec::with_capacity(x.len());
            for i in 0..x.len() {
                r.push(self.bin(op, w, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let m = mask(w) as u64;
            let (x, y) = (*x, *y);
            let r = match op {
                Bin::Add => x.wrapping_add(y) & m,
                Bin::Sub => x.wrapping_sub(y) & m,
                Bin::Mul => x.wrapping_mul(y) & m,
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                Bin::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::UDiv if y != 0 => x / y,
                Bin::URem if y != 0 => x % y,
                _ => {
                    if y == 0 && matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                        return Err(Stop::End(Outcome::Mem("division by zero".into())));
                    }
                    let o = xop(op);
                    crate::expr::ev(o, w, w, x as u128, y as u128) as u64
                }
            };
            return Ok(Val::C(r));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.ar.bin(xop(op), x, y);
        Ok(self.wrap(r))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let r = (0..x.len()).map(|i| self.icmp(p, w, &x[i], &y[i])).collect();
            return Val::A(Rc::new(r));
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| sext128(v as u128, w);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = match p {
            Pred::Eq => self.ar.bin(X::Eq, x, y),
            Pred::Ne => {
                let e = self.ar.bin(X::Eq, x, y);
                self.ar.not1(e)
            }
            Pred::Ugt => self.ar.bin(X::Ult, y, x),
            Pred::Uge => self.ar.bin(X::Ule, y, x),
            Pred::Ult => self.ar.bin(X::Ult, x, y),
            Pred::Ule => self.ar.bin(X::Ule, x, y),
            Pred::Sgt => self.ar.bin(X::Slt, y, x),
            Pred::Sge => self.ar.bin(X::Sle, y, x),
            Pred::Slt => self.ar.bin(X::Slt, x, y),
            Pred::Sle => self.ar.bin(X::Sle, x, y),
        };
        self.wrap(r)
    }
    fn cast(&mut self, k: Cast, wf: u16, wt: u16, v: &Val) -> R<Val> {
        if let Val::A(l) = v {
            let mut r = Vec::with_capacity(l.len());
            for x in l.iter() {
                r.push(self.cast(k, wf, wt, x)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        if let Val::C(x) = v {
            let x = *x;
            let r = match k {
                Cast::Trunc => x & mask(wt) as u64,
                Cast::Same => x,
                Cast::ZExt => return Ok(cval(x as u128, wt, &mut self.ar)),
                Cast::SExt => return Ok(cval(sext128(x as u128, wf) as u128, wt, &mut self.ar)),
                Cast::FpExt => crate::expr::fpext(x as u128) as u64,
                Cast::FpTrunc => crate::expr::fptrunc(x as u128) as u64,
                Cast::UiToFp => {
                    if wt == 32 {
                        (x as f32).to_bits() as u64
                    } else {
                        (x as f64).to_bits()
                    }
                }
                Cast::SiToFp => {
                    let s = sext128(x as u128, wf) as i64;
                    if wt == 32 {
                        (s as f32).to_bits() as u64
                    } else {
                        (s as f64).to_bits()
                    }
                }
                Cast::FpToUi | Cast::FpToSi => {
                    let f = if wf == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                    (if k == Cast::FpToUi { f as u64 } else { f as i64 as u64 }) & mask(wt) as u64
                }
            };
            return Ok(Val::C(r));
        }
        let e = self.ex(v, wf);
        let r = match k {
            Cast::Trunc => self.ar.extract(e, 0, wt),
            Cast::ZExt => self.ar.zext(e, wt),
            Cast::SExt => self.ar.sext(e, wt),
            Cast::Same => e,
            Cast::FpExt => self.ar.fp_ext(e),
            Cast::FpTrunc => self.ar.fp_trunc(e),
            Cast::UiToFp => {
                let z = self.ar.cnst(0, wf);
                self.ar.fp(F_UI, wt, e, z)
            }
            Cast::SiToFp => {
                let z = self.ar.cnst(0, wf);
                self.ar.fp(F_SI, wt, e, z)
            }
            Cast::FpToUi | Cast::FpToSi => {
                let z = self.ar.cnst(0, wf);
                self.ar.fp(if k == Cast::FpToUi { F_TOUI } else { F_TOSI }, wt, e, z)
            }
        };
        Ok(self.wrap(r))
    }
    /// Go on with the value of the current model only; what is left out is recorded, so that
    /// the job counts as undecided unless a violation is found.
    fn narrow(&mut self, st: &mut State, v: &Val, why: &str) -> u64 {
        match v {
            Val::C(x) => *x,
            Val::S(e) => {
                let m = st.model.clone();
                let x = self.ar.eval(*e, &m);
                if !self.is_pinned(st, *e) {
                    let eq = self.ar.eqc(*e, x);
                    self.add(st, eq);
                    *self.inconclusive.entry(format!("one value only: {why}")).or_insert(0) += 1;
                }
                x as u64
            }
            Val::A(_) => 0,
        }
    }
    /// Operation with the NaN propagation of the hardware.
    fn fop(&mut self, k: u32, w: u16, a: E, b: Option<E>) -> E {
        let z = self.ar.cnst(0, w);
        let mut r = self.ar.fp(k, w, a, b.unwrap_or(z));
        let q = self.ar.cnst(if w == 32 { 0x40_0000 } else { 0x8_0000_0000_0000 }, w);
        if let Some(b) = b {
            let (_, nb) = self.fparts(w, b);
            let qb = self.ar.bin(X::Or, b, q);
            r = self.ar.ite(nb, qb, r);
        }
        let (_, na) = self.fparts(w, a);
        let qa = self.ar.bin(X::Or, a, q);
        self.ar.ite(na, qa, r)
    }
    fn fparts(&mut self, w: u16, x: E) -> (E, E) {
        // (magnitude, is_nan)
        let mm = mask(w) >> 1;
        let inf: u128 = if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 };
        let c = self.ar.cnst(mm, w);
        let mag = self.ar.bin(X::And, x, c);
        let i = self.ar.cnst(inf, w);
        let nan = self.ar.bin(X::Ult, i, mag);
        (mag, nan)
    }
    fn fcmp(&mut self, p: &str, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut r = vec![];
            for i in 0..x.len() {
                r.push(self.fcmp(p, w, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = if w == 32 {
                (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64)
            } else {
                (f64::from_bits(*x), f64::from_bits(*y))
            };
            let uno = x.is_nan() || y.is_nan();
            let r = match p {
                "false" => false,
                "true" => true,
                "ord" => !uno,
                "uno" => uno,
                _ => {
                    let base = match &p[1..] {
                        "eq" => x == y,
                        "ne" => x != y && !uno,
                        "lt" => x < y,
                        "le" => x <= y,
                        "gt" => x > y,
                        "ge" => x >= y,
                        _ => return Err(Stop::Inconclusive(format!("fcmp {p}"))),
                    };
                    if p.starts_with('u') {
                        uno || base
                    } else {
                        base
                    }
                }
            };
            return Ok(Val::C(r as u64));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let (mx, nx) = self.fparts(w, x);
        let (my, ny) = self.fparts(w, y);
        let uno = self.ar.or1(nx, ny);
        let ord = self.ar.not1(uno);
        let zx = self.ar.eqc(mx, 0);
        let zy = self.ar.eqc(my, 0);
        let bz = self.ar.and1(zx, zy);
        let same = self.ar.bin(X::Eq, x, y);
        let eq0 = self.ar.or1(bz, same);
        let eq = self.ar.and1(ord, eq0);
        let key = |s: &mut Self, v: E| {
            let sb = s.ar.extract(v, w - 1, 1);
            let m = s.ar.cnst(mask(w), w);
            let n = s.ar.bin(X::Xor, v, m);
            let hb = s.ar.cnst(1u128 << (w - 1), w);
            let q = s.ar.bin(X::Or, v, hb);
            s.ar.ite(sb, n, q)
        };
        let r = match p {
            "false" => 0,
            "true" => 1,
            "ord" => ord,
            "uno" => uno,
            _ => {
                let kx = key(self, x);
                let ky = key(self, y);
                let nb = self.ar.not1(bz);
                let base = match &p[1..] {
                    "eq" => eq,
                    "ne" => {
                        let ne = self.ar.not1(eq);
                        self.ar.and1(ord, ne)
                    }
                    "lt" | "gt" => {
                        let l = if &p[1..] == "lt" { self.ar.bin(X::Ult, kx, ky) } else { self.ar.bin(X::Ult, ky, kx) };
                        let l = self.ar.and1(l, nb);
                        self.ar.and1(ord, l)
                    }
                    "le" | "ge" => {
                        let l = if &p[1..] == "le" { self.ar.bin(X::Ult, kx, ky) } else { self.ar.bin(X::Ult, ky, kx) };
                        let l = self.ar.and1(ord, l);
                        self.ar.or1(l, eq)
                    }
                    _ => return Err(Stop::Inconclusive(format!("fcmp {p}"))),
                };
                if p.starts_with('u') {
                    self.ar.or1(uno, base)
                } else {
                    base
                }
            }
        };
        Ok(self.wrap(r))
    }
    fn fbin(&mut self, st: &mut State, op: &str, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut r = vec![];
            for i in 0..x.len() {
                r.push(self.fbin(st, op, w, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        if op == "frem" && !matches!((a, b), (Val::C(_), Val::C(_))) {
            let x = Val::C(self.narrow(st, a, "floating point remainder"));
            let y = Val::C(self.narrow(st, b, "floating point remainder"));
            return self.fbin(st, op, w, &x, &y);
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let r = if w == 32 {
                let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                (match op {
                    "fadd" => x + y,
                    "fsub" => x - y,
                    "fmul" => x * y,
                    "fdiv" => x / y,
                    _ => x % y,
                })
                .to_bits() as u64
            } else {
                let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                (match op {
                    "fadd" => x + y,
                    "fsub" => x - y,
                    "fmul" => x * y,
                    "fdiv" => x / y,
                    _ => x % y,
                })
                .to_bits()
            };
            return Ok(Val::C(r));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let (s, c) = if self.ar.as_const(x).is_some() { (y, x) } else { (x, y) };
        let c = self.ar.as_const(c);
        if op == "fadd" && c == Some(0) {
            // x + 0.0: quiets NaN, maps -0.0 to +0.0, otherwise the identity
            let (mag, nan) = self.fparts(w, s);
            let q = self.ar.cnst(if w == 32 { 0x40_0000 } else { 0x8_0000_0000_0000 }, w);
            let qx = self.ar.bin(X::Or, s, q);
            let z = self.ar.eqc(mag, 0);
            let zero = self.ar.cnst(0, w);
            let r = self.ar.ite(z, zero, s);
            let r = self.ar.ite(nan, qx, r);
            return Ok(self.wrap(r));
        }
        let k = match op {
            "fadd" => F_ADD,
            "fsub" => F_SUB,
            "fmul" => F_MUL,
            _ => F_DIV,
        };
        let r = self.fop(k, w, x, Some(y));
        Ok(self.wrap(r))
    }

    // ---- memory ---------------------------------------------------------
    fn fault(&self, st: &State, what: String) -> Stop {
        let _ = st;
        Stop::End(Outcome::Mem(what))
    }
    fn find(&mut self, st: &mut State, addr: u64, n: u64, write: bool) -> R<(u32, usize)> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as i64 - 0x1_0000;
        let (size, ssize, min_ok, ro) = match st.mem.get(id) {
            Some(o) => (o.size, o.ssize, o.min_ok, o.ro),
            None => return Err(self.fault(st, format!("access to invalid or freed memory ({} bytes at {addr:#x})", n))),
        };
        if off < 0 || off as u64 + n > size {
            return Err(self.fault(st, format!("out-of-bounds {} of {n} bytes at offset {off} of an object of {size} bytes", if write { "write" } else { "read" })));
        }
        if write && ro {
            return Err(self.fault(st, "write to read-only memory".into()));
        }
        if let Some(s) = ssize {
            let end = off as u64 + n;
            if end > min_ok {
                let w = self.ar.w(s);
                let c = self.ar.cnst(end as u128, w);
                let bad = self.ar.bin(X::Ult, s, c);
                if let Some(m) = self.query(st, bad)? {
                    st.model = m;
                    return Err(self.fault(st, format!("out-of-bounds access at offset {off}+{n} of a buffer of symbolic size")));
                }
                if let Some(o) = st.mem.get_mut(id) {
                    o.min_ok = end;
                }
            }
            if let Some(o) = st.mem.get(id) {
                if o.data.len() < end as usize {
                    st.mem.get_mut(id).unwrap().grow(end as usize);
                }
            }
        }
        Ok((id, off as usize))
    }
    fn byte_val(&mut self, o: &Obj, off: usize, n: usize, w: u16) -> Val {
        // little-endian scalar of n bytes, width w
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|e| *e == 0) {
            let mut x = 0u128;
            for i in 0..n {
                x |= (o.data[off + i] as u128) << (8 * i);
            }
            return cval(x & mask(w), w, &mut self.ar);
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let b = if o.sym[off + i] != 0 { o.sym[off + i] } else { self.ar.cnst(o.data[off + i] as u128, 8) };
            acc = Some(match acc {
                None => b,
                Some(a) => self.ar.concat(b, a),
            });
        }
        let mut e = acc.unwrap();
        if self.ar.w(e) > w {
            e = self.ar.extract(e, 0, w);
        }
        self.wrap(e)
    }
    fn load_obj(&mut self, st: &State, o: &Obj, off: usize, t: Ty) -> Val {
        match &self.m.types[t as usize].k {
            TyK::Int(_) | TyK::Ptr | TyK::F32 | TyK::F64 => {
                let n = self.m.types[t as usize].store as usize;
                let w = self.m.width(t);
                let v = self.byte_val(o, off, n, w);
                self.settle(st, v)
            }
            TyK::Arr(n, e) => {
                let (n, e) = (*n as usize, *e);
                let es = self.m.types[e as usize].size as usize;
                Val::A(Rc::new((0..n).map(|i| self.load_obj(st, o, off + i * es, e)).collect()))
            }
            TyK::Vec(n, e) => {
                let (n, e) = (*n as usize, *e);
                let w = self.m.width(e);
                if w % 8 != 0 {
                    let v = self.byte_val(o, off, (n * w as usize + 7) / 8, (n * w as usize) as u16);
                    let x = self.ex(&v, (n * w as usize) as u16);
                    return Val::A(Rc::new(
                        (0..n)
                            .map(|i| {
                                let b = self.ar.extract(x, i as u16 * w, w);
                                self.wrap(b)
                            })
                            .collect(),
                    ));
                }
                let es = w as usize / 8;
                Val::A(Rc::new((0..n).map(|i| self.load_obj(st, o, off + i * es, e)).collect()))
            }
            TyK::Struct(f, _) => {
                let f = f.clone();
                let offs = self.m.types[t as usize].offs.clone();
                Val::A(Rc::new(f.iter().zip(offs).map(|(ft, fo)| self.load_obj(st, o, off + fo as usize, *ft)).collect()))
            }
            k => panic!("load of {k:?}"),
        }
    }
    fn load(&mut self, st: &mut State, t: Ty, p: &Val) -> R<Val> {
        let p = self.settle(st, p.clone());
        let n = self.m.types[t as usize].store;
        match p {
            Val::C(a) => {
                let (id, off) = self.find(st, a, n, false)?;
                let o = st.mem.get(id).unwrap().clone();
                Ok(self.load_obj(st, &o, off, t))
            }
            Val::S(e) => {
                let w = self.m.width(t);
                let scalar = matches!(self.m.types[t as usize].k, TyK::Int(_) | TyK::Ptr | TyK::F32 | TyK::F64) && w <= 64;
                if scalar {
                    if let Some(v) = self.load_sym(st, e, n as usize, w)? {
                        return Ok(v);
                    }
                }
                let a = self.concretize(st, e)?;
                self.load(st, t, &Val::C(a))
            }
            _ => Err(Stop::Inconclusive("load address".into())),
        }
    }
    /// Load through a symbolic offset into one object, as a decision tree over the offset.
    fn load_sym(&mut self, st: &mut State, e: E, n: usize, w: u16) -> R<Option<Val>> {
        let m = st.model.clone();
        let a = self.ar.eval(e, &m) as u64;
        let id = (a >> 32) as u32;
        let o = match st.mem.get(id) {
            Some(o) => o.clone(),
            None => return Ok(None),
        };
        if o.size > 8192 || (o.size as usize) < n || o.ssize.is_some() {
            return Ok(None);
        }
        let base = self.ar.cnst(obj_addr(id) as u128, 64);
        let off = self.ar.bin(X::Sub, e, base);
        let lim = self.ar.cnst((o.size as usize - n) as u128, 64);
        let ok = self.ar.bin(X::Ule, off, lim);
        let bad = self.ar.not1(ok);
        if self.query(st, bad)?.is_some() {
            // may leave the object: split on it
            return Ok(None);
        }
        let (lo, hi) = self.ar.range(off);
        let lo = lo.min(o.size as u128) as usize;
        let hi = hi.min((o.size as usize - n) as u128) as usize;
        // stride from known zero bits of the offset relative to lo
        let mut stride = 1usize;
        if n > 1 {
            while stride < n && {
                let c = self.ar.extract(off, 0, (stride * 2).trailing_zeros() as u16);
                self.ar.as_const(c).is_some()
            } {
                stride *= 2;
            }
        }
        let start = {
            if stride > 1 {
                let c = self.ar.extract(off, 0, stride.trailing_zeros() as u16);
                let r = self.ar.as_const(c).unwrap() as usize;
                let mut s = lo / stride * stride + r;
                if s < lo {
                    s += stride;
                }
                s
            } else {
                lo
            }
        };
        if hi < start || (hi - start) / stride > 4096 {
            return Ok(None);
        }
        // runs of equal values
        let mut runs: Vec<(usize, E)> = vec![];
        let mut i = start;
        while i <= hi {
            let v = self.byte_val(&o, i, n, w);
            let x = self.ex(&v, w);
            if runs.last().is_none_or(|r| r.1 != x) {
                runs.push((i, x));
            }
            i += stride;
        }
        let r = self.tree(off, &runs);
        Ok(Some(self.wrap(r)))
    }
    fn tree(&mut self, off: E, runs: &[(usize, E)]) -> E {
        if runs.len() == 1 {
            return runs[0].1;
        }
        let mid = runs.len() / 2;
        let l = self.tree(off, &runs[..mid]);
        let r = self.tree(off, &runs[mid..]);
        let c = self.ar.cnst(runs[mid].0 as u128, 64);
        let lt = self.ar.bin(X::Ult, off, c);
        self.ar.ite(lt, l, r)
    }
    fn store_obj(&mut self, o: &mut Obj, off: usize, t: Ty, v: &Val) {
        match (&self.m.types[t as usize].k, v) {
            (TyK::Int(_) | TyK::Ptr | TyK::F32 | TyK::F64, Val::C(x)) => {
                let n = self.m.types[t as usize].store as usize;
                for i in 0..n {
                    o.set(off + i, if i < 8 { (x >> (8 * i)) as u8 } else { 0 });
                }
            }
            (TyK::Int(_) | TyK::Ptr | TyK::F32 | TyK::F64, Val::S(e)) => {
                let n = self.m.types[t as usize].store as usize;
                let mut e = *e;
                if (self.ar.w(e) as usize) < 8 * n {
                    e = self.ar.zext(e, 8 * n as u16);
                }
                for i in 0..n {
                    let b = self.ar.extract(e, 8 * i as u16, 8);
                    match self.ar.as_const(b) {
                        Some(c) => o.set(off + i, c as u8),
                        None => o.set_sym(off + i, b),
                    }
                }
            }
            (TyK::Arr(_, et), Val::A(l)) => {
                let et = *et;
                let es = self.m.types[et as usize].size as usize;
                for (i, x) in l.iter().enumerate() {
                    self.store_obj(o, off + i * es, et, x);
                }
            }
            (TyK::Vec(_, et), Val::A(l)) => {
                let et = *et;
                let w = self.m.width(et);
                if w % 8 != 0 {
                    // lanes are packed
                    let mut all = self.ex(&l[0], w);
                    for x in &l[1..] {
                        let x = self.ex(x, w);
                        all = self.ar.concat(x, all);
                    }
                    let bits = self.ar.w(all);
                    let n = self.m.types[t as usize].store as usize;
                    if (bits as usize) < 8 * n {
                        all = self.ar.zext(all, 8 * n as u16);
                    }
                    for i in 0..n {
                        let b = self.ar.extract(all, 8 * i as u16, 8);
                        match self.ar.as_const(b) {
                            Some(c) => o.set(off + i, c as u8),
                            None => o.set_sym(off + i, b),
                        }
                    }
                    return;
                }
                for (i, x) in l.iter().enumerate() {
                    self.store_obj(o, off + i * (w as usize / 8), et, x);
                }
            }
            (TyK::Struct(f, _), Val::A(l)) => {
                let f = f.clone();
                let offs = self.m.types[t as usize].offs.clone();
                for i in 0..f.len() {
                    self.store_obj(o, off + offs[i] as usize, f[i], &l[i]);
                }
            }
            (k, v) => panic!("store of {k:?} {v:?}"),
        }
    }
    fn store(&mut self, st: &mut State, t: Ty, v: &Val, p: &Val) -> R<()> {
        let p = self.settle(st, p.clone());
        let a = self.conc(st, &p)?;
        let n = self.m.types[t as usize].store;
        let (id, off) = self.find(st, a, n, true)?;
        let mut mem = std::mem::take(&mut st.mem);
        self.store_obj(mem.get_mut(id).unwrap(), off, t, v);
        st.mem = mem;
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.find(st, s, n, false)?;
        let (di, d0) = self.find(st, d, n, true)?;
        let n = n as usize;
        let src = st.mem.get(si).unwrap().clone();
        let dst = st.mem.get_mut(di).unwrap();
        dst.data[d0..d0 + n].copy_from_slice(&src.data[so..so + n]);
        if !src.sym.is_empty() && src.sym[so..so + n].iter().any(|e| *e != 0) {
            if dst.sym.is_empty() {
                dst.sym = vec![0; dst.data.len()];
            }
            dst.sym[d0..d0 + n].copy_from_slice(&src.sym[so..so + n]);
        } else if !dst.sym.is_empty() {
            for x in &mut dst.sym[d0..d0 + n] {
                *x = 0;
            }
        }
        Ok(())
    }
    fn fill(&mut self, st: &mut State, d: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (di, d0) = self.find(st, d, n, true)?;
        let dst = st.mem.get_mut(di).unwrap();
        for i in 0..n as usize {
            match v {
                Val::C(x) => dst.set(d0 + i, *x as u8),
                Val::S(e) => dst.set_sym(d0 + i, *e),
                _ => unreachable!(),
            }
        }
        Ok(())
    }
    pub fn read_concrete(&mut self, st: &mut State, p: u64, n: u64) -> Option<Vec<u8>> {
        let (id, off) = self.find(st, p, n, false).ok()?;
        let o = st.mem.get(id)?;
        if !o.sym.is_empty() && o.sym[off..off + n as usize].iter().any(|e| *e != 0) {
            return None;
        }
        Some(o.data[off..off + n as usize].to_vec())
    }
    fn bytes_at(&mut self, st: &mut State, p: u64, n: u64) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.find(st, p, n, false)?;
        let o = st.mem.get(id).unwrap().clone();
        let mut r = Vec::with_capacity(n as usize);
        for i in 0..n as usize {
            let b = self.byte_val(&o, off + i, 1, 8);
            let b = self.settle(st, b);
            r.push(self.ex(&b, 8));
        }
        Ok(r)
    }
    fn alloc(&mut self, st: &mut State, sz: &Val, zero: bool) -> R<u64> {
        let _ = zero;
        let sz = self.settle(st, sz.clone());
        let lim = self.lim.alloc_limit;
        match sz {
            Val::C(n) => {
                self.st.max_alloc = self.st.max_alloc.max(n);
                if n > lim {
                    return Err(Stop::End(Outcome::OverAlloc(format!("request for {n} bytes"))));
                }
                st.alloc_total += n;
                let id = st.mem.add(Obj { data: vec![0; n as usize], sym: vec![], size: n, ssize: None, min_ok: n, kind: Kind::Heap, ro: false });
                Ok(obj_addr(id))
            }
            Val::S(e) => {
                let l = self.ar.cnst(lim as u128, 64);
                let big = self.ar.bin(X::Ult, l, e);
                if self.branch(st, big)? {
                    let m = st.model.clone();
                    let v = self.ar.eval(e, &m);
                    return Err(Stop::End(Outcome::OverAlloc(format!("request for {v} bytes"))));
                }
                // few possible values: keep them symbolic anyway, the buffer grows on demand
                let (_, hi) = self.ar.range(e);
                let hi = (hi.min(lim as u128)) as u64;
                let id = st.mem.add(Obj { data: vec![], sym: vec![], size: hi, ssize: Some(e), min_ok: 0, kind: Kind::Heap, ro: false });
                Ok(obj_addr(id))
            }
            _ => unreachable!(),
        }
    }

    // ---- interpreter ----------------------------------------------------
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(14).map(|f| self.m.fns[f.f.id as usize].dem.clone()).collect()
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.b;
        let blk = &fr.f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut tmp = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                let (_, o) = inc.iter().find(|(b, _)| *b == from).unwrap_or_else(|| panic!("phi edge {} -> {} in {} {:?}", from, to, self.m.fns[fr.f.id as usize].name, inc.iter().map(|x| x.0).collect::<Vec<_>>()));
                let v = match o {
                    Op::R(r) => fr.regs[*r as usize].clone(),
                    Op::C(v) => v.clone(),
                };
                tmp.push((*d, v));
            }
            for (d, v) in tmp {
                fr.regs[d as usize] = v;
            }
        }
        fr.b = to;
        fr.ip = 0;
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        for a in fr.allocas {
            st.mem.kill(a);
        }
        if st.frames.is_empty() {
            if let Some(Val::C(x)) = v {
                st.retval = x;
            }
            return Err(Stop::End(Outcome::Ret));
        }
        self.finish_call(st, fr.ret_dst, fr.normal, v);
        Ok(())
    }
    fn finish_call(&mut self, st: &mut State, dst: u32, normal: Option<u32>, v: Option<Val>) {
        let fr = st.frames.last_mut().unwrap();
        if dst != NODST {
            if let Some(v) = v {
                fr.regs[dst as usize] = v;
            }
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => fr.ip += 1,
        }
    }
    fn set(&mut self, st: &mut State, dst: u32, v: Val) {
        let fr = st.frames.last_mut().unwrap();
        if dst != NODST {
            fr.regs[dst as usize] = v;
        }
        fr.ip += 1;
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f;
        let blk = &f.blocks[fr.b as usize];
        if fr.ip as usize >= blk.insts.len() {
            return Err(Stop::Inconclusive(format!("fell off block in {}", self.m.fns[f.id as usize].dem)));
        }
        let inst = &blk.insts[fr.ip as usize];
        let dst = inst.dst;
        match &inst.i {
            I::Bin(op, w, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.bin(*op, *w, &x, &y)?;
                self.set(st, dst, v);
            }
            I::ICmp(p, w, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.icmp(*p, *w, &x, &y);
                self.set(st, dst, v);
            }
            I::FCmp(p, w, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.fcmp(p, *w, &x, &y)?;
                self.set(st, dst, v);
            }
            I::FBin(op, w, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.fbin(st, op, *w, &x, &y)?;
                self.set(st, dst, v);
            }
            I::FNeg(w, a) => {
                let x = self.get(st, a);
                let s = cval(1u128 << (w - 1), *w, &mut self.ar);
                let v = self.bin(Bin::Xor, *w, &x, &s)?;
                self.set(st, dst, v);
            }
            I::Cast(k, wf, wt, a) => {
                let x = self.get(st, a);
                let v = self.cast(*k, *wf, *wt, &x)?;
                self.set(st, dst, v);
            }
            I::Bitcast(ft, tt, a) => {
                let x = self.get(st, a);
                let v = self.bitcast(*ft, *tt, x);
                self.set(st, dst, v);
            }
            I::Select(c, a, b, w, isptr) => {
                let cv = self.get(st, c);
                let cv = self.settle(st, cv);
                match cv {
                    Val::C(x) => {
                        let v = self.get(st, if x & 1 == 1 { a } else { b });
                        self.set(st, dst, v);
                    }
                    Val::S(e) => {
                        let (x, y) = (self.get(st, a), self.get(st, b));
                        let agg = matches!(x, Val::A(_)) || matches!(y, Val::A(_));
                        if *isptr || agg || *w == 0 {
                            let same = matches!((&x, &y), (Val::C(p), Val::C(q)) if p == q);
                            if same {
                                self.set(st, dst, x);
                            } else {
                                let t = self.branch(st, e)?;
                                self.set(st, dst, if t { x } else { y });
                            }
                        } else {
                            if let Some(t) = self.holds_syntactically(st, e) {
                                self.set(st, dst, if t { x } else { y });
                            } else {
                                let (p, q) = (self.ex(&x, *w), self.ex(&y, *w));
                                let r = self.ar.ite(e, p, q);
                                let v = self.wrap(r);
                                self.set(st, dst, v);
                            }
                        }
                    }
                    Val::A(cl) => {
                        let (x, y) = (self.get(st, a), self.get(st, b));
                        let mut r = vec![];
                        if let (Val::A(xl), Val::A(yl)) = (&x, &y) {
                            for i in 0..cl.len() {
                                r.push(match &cl[i] {
                                    Val::C(c) => {
                                        if *c & 1 == 1 {
                                            xl[i].clone()
                                        } else {
                                            yl[i].clone()
                                        }
                                    }
                                    Val::S(e) => {
                                        let (p, q) = (self.ex(&xl[i], *w), self.ex(&yl[i], *w));
                                        let t = self.ar.ite(*e, p, q);
                                        self.wrap(t)
                                    }
                                    _ => unreachable!(),
                                });
                            }
                        }
                        self.set(st, dst, Val::A(Rc::new(r)));
                    }
                }
            }
            I::Load(t, p) => {
                let pv = self.get(st, p);
                let v = self.load(st, *t, &pv)?;
                self.set(st, dst, v);
            }
            I::Store(t, v, p) => {
                let (vv, pv) = (self.get(st, v), self.get(st, p));
                self.store(st, *t, &vv, &pv)?;
                self.set(st, NODST, Val::C(0));
            }
            I::Gep(b, off, dynv) => {
                let mut base = self.get(st, b);
                let mut o = *off as u64;
                for (op, scale, w) in dynv {
                    let i = self.get(st, op);
                    match i {
                        Val::C(x) => o = o.wrapping_add((sext128(x as u128, *w) as i64).wrapping_mul(*scale) as u64),
                        v => {
                            let i = self.cast(if *w < 64 { Cast::SExt } else { Cast::Same }, *w, 64, &v)?;
                            let s = self.bin(Bin::Mul, 64, &i, &Val::C(*scale as u64))?;
                            base = self.bin(Bin::Add, 64, &base, &s)?;
                        }
                    }
                }
                let v = self.bin(Bin::Add, 64, &base, &Val::C(o))?;
                self.set(st, dst, v);
            }
            I::Alloca(size, cnt) => {
                let c = self.get(st, cnt);
                let c = self.conc(st, &c)?;
                let n = size * c;
                let id = st.mem.add(Obj { data: vec![0; n as usize], sym: vec![], size: n, ssize: None, min_ok: n, kind: Kind::Stack, ro: false });
                st.frames.last_mut().unwrap().allocas.push(id);
                self.set(st, dst, Val::C(obj_addr(id)));
            }
            I::Call(c) => self.call(st, dst, c)?,
            I::ExtractValue(a, ix) => {
                let mut v = self.get(st, a);
                for i in ix {
                    v = match &v {
                        Val::A(l) => l[*i as usize].clone(),
                        _ => return Err(Stop::Inconclusive("extractvalue".into())),
                    };
                }
                self.set(st, dst, v);
            }
            I::InsertValue(a, x, ix) => {
                let v = self.get(st, a);
                let x = self.get(st, x);
                fn ins(v: &Val, ix: &[u32], x: Val) -> Val {
                    if ix.is_empty() {
                        return x;
                    }
                    match v {
                        Val::A(l) => {
                            let mut n = (**l).clone();
                            n[ix[0] as usize] = ins(&l[ix[0] as usize], &ix[1..], x);
                            Val::A(Rc::new(n))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&v, ix, x);
                self.set(st, dst, r);
            }
            I::ExtractElement(a, i) => {
                let v = self.get(st, a);
                let i = self.get(st, i);
                let i = self.conc(st, &i)? as usize;
                let r = match &v {
                    Val::A(l) => l[i].clone(),
                    _ => panic!("extractelement"),
                };
                self.set(st, dst, r);
            }
            I::InsertElement(a, x, i) => {
                let v = self.get(st, a);
                let x = self.get(st, x);
                let i = self.get(st, i);
                let i = self.conc(st, &i)? as usize;
                let r = match &v {
                    Val::A(l) => {
                        let mut n = (**l).clone();
                        n[i] = x;
                        Val::A(Rc::new(n))
                    }
                    _ => panic!("insertelement"),
                };
                self.set(st, dst, r);
            }
            I::Shuffle(a, b, mk) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = match (&x, &y) {
                    (Val::A(p), Val::A(q)) => mk
                        .iter()
                        .map(|i| {
                            let i = *i as usize;
                            if i < p.len() {
                                p[i].clone()
                            } else {
                                q[i - p.len()].clone()
                            }
                        })
                        .collect::<Vec<_>>(),
                    _ => panic!("shuffle"),
                };
                self.set(st, dst, Val::A(Rc::new(r)));
            }
            I::Freeze(a) => {
                let v = self.get(st, a);
                self.set(st, dst, v);
            }
            I::AtomicRmw(op, t, p, v) => {
                let (pv, vv) = (self.get(st, p), self.get(st, v));
                let old = self.load(st, *t, &pv)?;
                let w = self.m.width(*t);
                let new = match op.as_str() {
                    "xchg" => vv,
                    "add" => self.bin(Bin::Add, w, &old, &vv)?,
                    "sub" => self.bin(Bin::Sub, w, &old, &vv)?,
                    "and" => self.bin(Bin::And, w, &old, &vv)?,
                    "or" => self.bin(Bin::Or, w, &old, &vv)?,
                    "xor" => self.bin(Bin::Xor, w, &old, &vv)?,
                    _ => return Err(Stop::Inconclusive(format!("atomicrmw {op}"))),
                };
                self.store(st, *t, &new, &pv)?;
                self.set(st, dst, old);
            }
            I::CmpXchg(t, p, x, y) => {
                let (pv, xv, yv) = (self.get(st, p), self.get(st, x), self.get(st, y));
                let old = self.load(st, *t, &pv)?;
                let w = self.m.width(*t);
                let eq = self.icmp(Pred::Eq, w, &old, &xv);
                let c = self.conc(st, &eq)?;
                if c == 1 {
                    self.store(st, *t, &yv, &pv)?;
                }
                self.set(st, dst, Val::A(Rc::new(vec![old, Val::C(c)])));
            }
            I::Nop => self.set(st, NODST, Val::C(0)),
            I::Br(b) => self.jump(st, *b),
            I::CondBr(c, t, e) => {
                let v = self.get(st, c);
                let r = match v {
                    Val::C(x) => x & 1 == 1,
                    Val::S(x) => self.branch(st, x)?,
                    _ => return Err(Stop::Inconclusive("branch on aggregate".into())),
                };
                let b = if r { *t } else { *e };
                self.jump(st, b);
            }
            I::Switch(w, v, d, cases) => {
                let x = self.get(st, v);
                let x = self.settle(st, x);
                match x {
                    Val::C(x) => {
                        let b = cases.iter().find(|c| c.0 == x).map_or(*d, |c| c.1);
                        self.jump(st, b);
                    }
                    Val::S(e) => {
                        // the target taken under the current model first; others are forked off
                        let m = st.model.clone();
                        let cur = self.ar.eval(e, &m) as u64;
                        let tgt = cases.iter().find(|c| c.0 == cur).map_or(*d, |c| c.1);
                        let cond = self.switch_cond(*w, e, *d, cases, tgt);
                        if self.branch(st, cond)? {
                            self.jump(st, tgt);
                        } else {
                            return Err(Stop::Inconclusive("switch".into()));
                        }
                    }
                    _ => return Err(Stop::Inconclusive("switch on aggregate".into())),
                }
            }
            I::Ret(v) => {
                let r = v.as_ref().map(|o| self.get(st, o));
                self.ret(st, r)?;
            }
            I::Unreachable => return Err(Stop::End(Outcome::Mem("reached unreachable code".into()))),
            I::Unsupported(s) => return Err(Stop::Inconclusive(format!("unsupported instruction: {s}"))),
        }
        Ok(())
    }
    fn switch_cond(&mut self, w: u16, e: E, d: u32, cases: &[(u64, u32)], tgt: u32) -> E {
        let mut vals: Vec<u64> = vec![];
        let neg = tgt == d;
        for (v, b) in cases {
            if (*b == tgt) != neg {
                vals.push(*v);
            }
        }
        let mut any = 0;
        for v in vals {
            let q = self.ar.eqc(e, v as u128 & mask(w));
            any = self.ar.or1(any, q);
        }
        if neg {
            self.ar.not1(any)
        } else {
            any
        }
    }
    fn bitcast(&mut self, ft: Ty, tt: Ty, v: Val) -> Val {
        let fk = self.m.types[ft as usize].k.clone();
        let tk = self.m.types[tt as usize].k.clone();
        let fvec = matches!(fk, TyK::Vec(..));
        let tvec = matches!(tk, TyK::Vec(..));
        if !fvec && !tvec {
            return v;
        }
        // flatten to lanes of the source, low lane first
        let total: u16 = match &fk {
            TyK::Vec(n, e) => *n as u16 * self.m.width(*e),
            _ => self.m.width(ft),
        };
        // pieces as (term, width), low first
        let mut lanes: Vec<(E, u16)> = vec![];
        match (&fk, &v) {
            (TyK::Vec(_, e), Val::A(l)) => {
                let w = self.m.width(*e);
                for x in l.iter() {
                    let t = self.ex(x, w);
                    lanes.push((t, w));
                }
            }
            _ => {
                let t = self.ex(&v, total);
                lanes.push((t, total));
            }
        }
        let tw = match &tk {
            TyK::Vec(_, e) => self.m.width(*e),
            _ => total,
        };
        let cnt = total / tw;
        let mut out = vec![];
        for i in 0..cnt {
            let (lo, hi) = (i * tw, (i + 1) * tw);
            let mut acc: Option<E> = None;
            let mut p = 0;
            for (t, w) in &lanes {
                let (a, b) = (p, p + w);
                p = b;
                let (x, y) = (a.max(lo), b.min(hi));
                if x < y {
                    let piece = self.ar.extract(*t, x - a, y - x);
                    acc = Some(match acc {
                        None => piece,
                        Some(q) => self.ar.concat(piece, q),
                    });
                }
            }
            out.push(self.wrap(acc.unwrap()));
        }
        if tvec {
            Val::A(Rc::new(out))
        } else {
            out.pop().unwrap()
        }
    }
    fn call(&mut self, st: &mut State, dst: u32, c: &Call) -> R<()> {
        let mut args: Vec<Val> = Vec::with_capacity(c.args.len());
        for a in &c.args {
            args.push(self.get(st, a));
        }
        let fid = match &c.callee {
            Callee::Fn(i) => *i,
            Callee::Ptr(o) => {
                let p = self.get(st, o);
                let p = self.settle(st, p);
                let a = self.conc(st, &p)?;
                if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.fns.len() as u64 {
                    return Err(self.fault(st, format!("call through invalid pointer {a:#x}")));
                }
                ((a - FN_BASE) / 16) as u32
            }
            Callee::Intr(n) => {
                let v = self.intrinsic(st, n, c, &args)?;
                self.finish_call(st, dst, c.normal, v);
                return Ok(());
            }
            Callee::Asm(s) => {
                if s.contains("\"\"") || s.contains("# ") {
                    let v = args.first().cloned();
                    self.finish_call(st, dst, c.normal, v);
                    return Ok(());
                }
                return Err(Stop::Inconclusive(format!("inline asm {s}")));
            }
        };
        let h = match &self.hooks[fid as usize] {
            Some(h) => h.clone(),
            None => {
                let fi = &self.m.fns[fid as usize];
                let h = hooks::hook_for(&fi.name, &fi.dem, fi.span.is_some(), fi.noreturn);
                self.hooks[fid as usize] = Some(h.clone());
                h
            }
        };
        if let Some(h) = h {
            if let Hook::Redirect(n) = &h {
                let t = *self.m.fn_ids.get(*n).ok_or_else(|| Stop::Inconclusive(format!("missing stub {n}")))?;
                *self.hook_used.entry(self.m.fns[fid as usize].dem.clone()).or_insert(0) += 1;
                return self.enter(st, t, args, dst, c.normal);
            }
            if matches!(h, Hook::FmtInt(..) | Hook::FmtMark) {
                *self.hook_used.entry(format!("{} (diagnostic text)", self.m.fns[fid as usize].dem.split(" as ").last().unwrap_or(""))).or_insert(0) += 1;
                let f = args.last().cloned().unwrap();
                let mut call = ("symex_stub_fmt_mark", vec![f.clone()]);
                if let Hook::FmtInt(w, signed) = h {
                    let p = self.conc(st, &args[0])?;
                    let (id, off) = self.find(st, p, w as u64 / 8, false)?;
                    let o = st.mem.get(id).unwrap().clone();
                    let v = self.byte_val(&o, off, w as usize / 8, w);
                    if let Val::C(v) = self.settle(st, v) {
                        let neg = signed && (v >> (w - 1)) & 1 == 1;
                        let mag = if neg { (v | !(mask(w) as u64)).wrapping_neg() } else { v };
                        call = ("symex_stub_fmt_int", vec![Val::C(mag), Val::C(neg as u64), f]);
                    }
                }
                let t = *self.m.fn_ids.get(call.0).ok_or_else(|| Stop::Inconclusive(format!("missing stub {}", call.0)))?;
                return self.enter(st, t, call.1, dst, c.normal);
            }
            let v = self.run_hook(st, &h, fid, c, &args)?;
            self.finish_call(st, dst, c.normal, v);
            return Ok(());
        }
        self.enter(st, fid, args, dst, c.normal)
    }
    fn enter(&mut self, st: &mut State, fid: u32, args: Vec<Val>, dst: u32, normal: Option<u32>) -> R<()> {
        let f = match self.m.func(fid, &mut self.ar) {
            Some(f) => f,
            None => return Err(Stop::Inconclusive(format!("call of external function {}", self.m.fns[fid as usize].dem))),
        };
        self.fns_used.insert(fid);
        if st.frames.len() >= self.lim.max_depth {
            return Err(Stop::End(Outcome::Depth(format!("call depth {} in {}", st.frames.len(), self.m.fns[fid as usize].dem))));
        }
        let mut regs = vec![Val::C(0); f.nregs as usize];
        if args.len() < f.params.len() {
            return Err(Stop::Inconclusive(format!("arity of {}", self.m.fns[fid as usize].dem)));
        }
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        st.frames.push(Frame { f, b: 0, ip: 0, regs, allocas: vec![], ret_dst: dst, normal });
        self.st.max_depth = self.st.max_depth.max(st.frames.len());
        Ok(())
    }

    // ---- library functions ------------------------------------------------
    fn run_hook(&mut self, st: &mut State, h: &Hook, fid: u32, c: &Call, a: &[Val]) -> R<Option<Val>> {
        let s0 = |s: &mut Self, st: &State, i: usize| {
            let v = a[i].clone();
            s.settle(st, v)
        };
        match h {
            Hook::Panic => {
                let dem = self.m.fns[fid as usize].dem.clone();
                // a core::panic::Location is passed last
                let mut loc = String::new();
                for v in a.iter().rev() {
                    if let Val::C(p) = v {
                        if let Some(l) = self.location(st, *p) {
                            loc = l;
                            break;
                        }
                    }
                }
                Err(Stop::End(Outcome::Panic(format!("{dem} @ {loc}"))))
            }
            Hook::Malloc => {
                let n = s0(self, st, 0);
                Ok(Some(Val::C(self.alloc(st, &n, false)?)))
            }
            Hook::Calloc => {
                let (x, y) = (s0(self, st, 0), s0(self, st, 1));
                let n = self.bin(Bin::Mul, 64, &x, &y)?;
                Ok(Some(Val::C(self.alloc(st, &n, true)?)))
            }
            Hook::MemAlign => {
                // posix_memalign(out, align, size)
                let n = s0(self, st, 2);
                let p = self.alloc(st, &n, false)?;
                let t = self.m.ty(TyK::Ptr);
                self.store(st, t, &Val::C(p), &a[0])?;
                Ok(Some(Val::C(0)))
            }
            Hook::AlignedAlloc => {
                let n = s0(self, st, 1);
                Ok(Some(Val::C(self.alloc(st, &n, false)?)))
            }
            Hook::Realloc => {
                let p = self.conc(st, &a[0])?;
                let n = s0(self, st, 1);
                if p == 0 {
                    return Ok(Some(Val::C(self.alloc(st, &n, false)?)));
                }
                let id = (p >> 32) as u32;
                let old = match st.mem.get(id) {
                    Some(o) if p == obj_addr(id) && o.kind == Kind::Heap => o.clone(),
                    _ => return Err(self.fault(st, "realloc of an invalid pointer".into())),
                };
                let q = self.alloc(st, &n, false)?;
                let nid = (q >> 32) as u32;
                let no = st.mem.get_mut(nid).unwrap();
                let keep = (old.data.len() as u64).min(no.size) as usize;
                if no.data.len() < keep {
                    no.data.resize(keep, 0);
                }
                no.data[..keep].copy_from_slice(&old.data[..keep]);
                if !old.sym.is_empty() {
                    no.sym = vec![0; no.data.len()];
                    no.sym[..keep].copy_from_slice(&old.sym[..keep]);
                }
                st.mem.kill(id);
                Ok(Some(Val::C(q)))
            }
            Hook::Free => {
                let p = self.conc(st, &a[0])?;
                if p == 0 {
                    return Ok(None);
                }
                let id = (p >> 32) as u32;
                match st.mem.get(id) {
                    Some(o) if p == obj_addr(id) && o.kind == Kind::Heap => st.mem.kill(id),
                    _ => return Err(self.fault(st, "free of an invalid pointer".into())),
                }
                Ok(None)
            }
            Hook::MemCmp => {
                let (p, q) = (s0(self, st, 0), s0(self, st, 1));
                let (p, q) = (self.conc(st, &p)?, self.conc(st, &q)?);
                let n = s0(self, st, 2);
                let n = self.conc(st, &n)?;
                let x = self.bytes_at(st, p, n)?;
                let y = self.bytes_at(st, q, n)?;
                // value: 0 if equal, else sign of the first difference
                let mut r = self.ar.cnst(0, 32);
                for i in (0..n as usize).rev() {
                    let eq = self.ar.bin(X::Eq, x[i], y[i]);
                    if eq == 1 {
                        continue;
                    }
                    let zx = self.ar.zext(x[i], 32);
                    let zy = self.ar.zext(y[i], 32);
                    let d = self.ar.bin(X::Sub, zx, zy);
                    r = self.ar.ite(eq, r, d);
                }
                Ok(Some(self.wrap(r)))
            }
            Hook::Bcmp => {
                let (p, q) = (s0(self, st, 0), s0(self, st, 1));
                let (p, q) = (self.conc(st, &p)?, self.conc(st, &q)?);
                let n = s0(self, st, 2);
                let n = self.conc(st, &n)?;
                let x = self.bytes_at(st, p, n)?;
                let y = self.bytes_at(st, q, n)?;
                let mut all = 1;
                for i in 0..n as usize {
                    let eq = self.ar.bin(X::Eq, x[i], y[i]);
                    if eq == 0 {
                        all = 0;
                        break;
                    }
                    all = self.ar.and1(all, eq);
                }
                let ne = self.ar.not1(all);
                let r = self.ar.zext(ne, 32);
                Ok(Some(self.wrap(r)))
            }
            Hook::MemCpyFn => {
                let (d, s) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let n = self.conc(st, &a[2])?;
                self.copy(st, d, s, n)?;
                Ok(Some(Val::C(d)))
            }
            Hook::MemSetFn => {
                let d = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                let b = self.cast(Cast::Trunc, 32, 8, &a[1])?;
                self.fill(st, d, &b, n)?;
                Ok(Some(Val::C(d)))
            }
            Hook::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    match self.read_concrete(st, p + n, 1) {
                        Some(v) if v[0] == 0 => break,
                        Some(_) => n += 1,
                        None => return Err(Stop::Inconclusive("strlen".into())),
                    }
                }
                Ok(Some(Val::C(n)))
            }
            Hook::Zero => {
                let z = if matches!(self.m.types[c.ret as usize].k, TyK::Void) { None } else { Some(self.m.zero(c.ret, &mut self.ar)) };
                Ok(z)
            }
            Hook::SymBytes => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                if n > 0 {
                    let (id, off) = self.find(st, p, n, true)?;
                    for i in 0..n as u32 {
                        let e = self.ar.var(st.nvars + i);
                        st.mem.get_mut(id).unwrap().set_sym(off + i as usize, e);
                    }
                    st.nvars += n as u32;
                    self.st.max_vars = self.st.max_vars.max(st.nvars);
                }
                Ok(None)
            }
            Hook::SymAssume => {
                let v = s0(self, st, 0);
                match v {
                    Val::C(x) => {
                        if x & 1 == 0 {
                            return Err(Stop::Drop);
                        }
                    }
                    Val::S(e) => {
                        let e = self.ar.extract(e, 0, 1);
                        let m = st.model.clone();
                        if self.ar.eval(e, &m) != 1 {
                            match self.query(st, e)? {
                                None => return Err(Stop::Drop),
                                Some(m) => st.model = m,
                            }
                        }
                        self.add(st, e);
                    }
                    _ => unreachable!(),
                }
                Ok(None)
            }
            Hook::SymCheck => {
                let v = s0(self, st, 0);
                let p = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let label = String::from_utf8_lossy(&self.read_concrete(st, p, n).unwrap_or_default()).into_owned();
                *self.check_labels.entry(label.clone()).or_insert(0) += 1;
                self.st.checks += 1;
                match v {
                    Val::C(x) => {
                        if x & 1 == 0 {
                            self.violate(st, "check", &label);
                            return Err(Stop::Drop);
                        }
                    }
                    Val::S(e) => {
                        let e = self.ar.extract(e, 0, 1);
                        let ne = self.ar.not1(e);
                        self.st.checks_solver += 1;
                        if let Some(m) = self.query(st, ne)? {
                            let old = std::mem::replace(&mut st.model, m);
                            self.violate(st, "check", &label);
                            // continue on the side where it holds, if any
                            st.model = old;
                            if self.ar.eval(e, &st.model.clone()) != 1 {
                                match self.query(st, e)? {
                                    None => return Err(Stop::Drop),
                                    Some(m) => st.model = m,
                                }
                            }
                            self.add(st, e);
                        }
                    }
                    _ => unreachable!(),
                }
                Ok(None)
            }
            Hook::SymFork => {
                let v = s0(self, st, 0);
                let x = self.conc(st, &v)?;
                Ok(Some(Val::C(x)))
            }
            Hook::SymObserve => {
                let v = s0(self, st, 0);
                st.obs.push(v);
                Ok(None)
            }
            Hook::SymReach => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let label = String::from_utf8_lossy(&self.read_concrete(st, p, n).unwrap_or_default()).into_owned();
                let k = self.reach_ids.len() as u32;
                let id = *self.reach_ids.entry(label.clone()).or_insert(k);
                if !st.reached.contains(&id) {
                    st.reached.push(id);
                    *self.reach.entry(label).or_insert(0) += 1;
                }
                Ok(None)
            }
            Hook::SymUtf8 => {
                let p = self.conc(st, &a[0])?;
                let n = s0(self, st, 1);
                let n = self.conc(st, &n)?;
                let b = self.bytes_at(st, p, n)?;
                let e = self.utf8(&b);
                let r = self.ar.zext(e, 8);
                let r = if self.m.width(c.ret) == 1 { e } else { r };
                Ok(Some(self.wrap(r)))
            }
            Hook::SymEq => {
                let (p, q) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let n = self.conc(st, &a[2])?;
                let x = self.bytes_at(st, p, n)?;
                let y = self.bytes_at(st, q, n)?;
                let mut all = 1;
                for i in 0..n as usize {
                    let eq = self.ar.bin(X::Eq, x[i], y[i]);
                    all = self.ar.and1(all, eq);
                }
                let r = if self.m.width(c.ret) == 1 { all } else { self.ar.zext(all, 8) };
                Ok(Some(self.wrap(r)))
            }
            Hook::SymSel => {
                // bool and/or without a branch
                let (x, y) = (s0(self, st, 0), s0(self, st, 1));
                let w = self.m.width(c.arg_tys[0]);
                let r = self.bin(Bin::And, w, &x, &y)?;
                Ok(Some(r))
            }
            Hook::First => {
                *self.hook_used.entry(self.m.fns[fid as usize].dem.clone()).or_insert(0) += 1;
                Ok(Some(a[0].clone()))
            }
            Hook::Redirect(_) | Hook::FmtInt(..) | Hook::FmtMark => unreachable!(),
        }
    }
    fn location(&mut self, st: &mut State, p: u64) -> Option<String> {
        let b = self.read_concrete(st, p, 24)?;
        let fp = u64::from_le_bytes(b[0..8].try_into().ok()?);
        let n = u64::from_le_bytes(b[8..16].try_into().ok()?);
        let line = u32::from_le_bytes(b[16..20].try_into().ok()?);
        if n == 0 || n > 300 {
            return None;
        }
        let f = self.read_concrete(st, fp, n)?;
        let s = String::from_utf8(f).ok()?;
        if !s.contains(".rs") {
            return None;
        }
        Some(format!("{}:{}", s.trim_end_matches('\0'), line))
    }
    /// Well-formedness of UTF-8 as one formula (Unicode table 3-7)
    fn utf8(&mut self, b: &[E]) -> E {
        let n = b.len();
        let mut v = vec![0 as E; n + 4];
        v[n] = 1;
        let rng = |s: &mut Self, e: E, lo: u128, hi: u128| {
            let l = s.ar.cnst(lo, 8);
            let h = s.ar.cnst(hi, 8);
            let p = s.ar.bin(X::Ule, l, e);
            let q = s.ar.bin(X::Ule, e, h);
            s.ar.and1(p, q)
        };
        for i in (0..n).rev() {
            let mut r = 0;
            let mut alt = |s: &mut Self, parts: &[(usize, u128, u128)]| {
                let k = parts.len();
                if i + k > n {
                    return;
                }
                let mut c = v[i + k];
                for (o, lo, hi) in parts {
                    let t = rng(s, b[i + o], *lo, *hi);
                    c = s.ar.and1(c, t);
                }
                r = s.ar.or1(r, c);
            };
            alt(self, &[(0, 0, 0x7f)]);
            alt(self, &[(0, 0xc2, 0xdf), (1, 0x80, 0xbf)]);
            alt(self, &[(0, 0xe0, 0xe0), (1, 0xa0, 0xbf), (2, 0x80, 0xbf)]);
            alt(self, &[(0, 0xe1, 0xec), (1, 0x80, 0xbf), (2, 0x80, 0xbf)]);
            alt(self, &[(0, 0xed, 0xed), (1, 0x80, 0x9f), (2, 0x80, 0xbf)]);
            alt(self, &[(0, 0xee, 0xef), (1, 0x80, 0xbf), (2, 0x80, 0xbf)]);
            alt(self, &[(0, 0xf0, 0xf0), (1, 0x90, 0xbf), (2, 0x80, 0xbf), (3, 0x80, 0xbf)]);
            alt(self, &[(0, 0xf1, 0xf3), (1, 0x80, 0xbf), (2, 0x80, 0xbf), (3, 0x80, 0xbf)]);
            alt(self, &[(0, 0xf4, 0xf4), (1, 0x80, 0x8f), (2, 0x80, 0xbf), (3, 0x80, 0xbf)]);
            v[i] = r;
        }
        v[0]
    }
    fn lanes1(&mut self, v: &Val, f: &mut dyn FnMut(&mut Self, &Val) -> R<Val>) -> R<Val> {
        if let Val::A(l) = v {
            let mut r = vec![];
            for x in l.iter() {
                r.push(f(self, x)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        f(self, v)
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, c: &Call, a: &[Val]) -> R<Option<Val>> {
        let w = c.arg_tys.first().map_or(0, |t| self.m.width(*t));
        let base: &str = n.strip_prefix("llvm.").unwrap();
        let is = |p: &str| base == p || (base.starts_with(p) && base.as_bytes()[p.len()] == b'.');
        if is("memcpy") || is("memmove") {
            let nn = self.settle(st, a[2].clone());
            let (d, s) = (self.settle(st, a[0].clone()), self.settle(st, a[1].clone()));
            let nn = self.conc(st, &nn)?;
            if nn == 0 {
                return Ok(None);
            }
            let (d, s) = (self.conc(st, &d)?, self.conc(st, &s)?);
            self.copy(st, d, s, nn)?;
            return Ok(None);
        }
        if is("memset") {
            let nn = self.settle(st, a[2].clone());
            let nn = self.conc(st, &nn)?;
            if nn == 0 {
                return Ok(None);
            }
            let d = self.settle(st, a[0].clone());
            let d = self.conc(st, &d)?;
            self.fill(st, d, &a[1], nn)?;
            return Ok(None);
        }
        for (p, op) in [("uadd", Bin::Add), ("sadd", Bin::Add), ("usub", Bin::Sub), ("ssub", Bin::Sub), ("umul", Bin::Mul), ("smul", Bin::Mul)] {
            if base.starts_with(p) && base[p.len()..].starts_with(".with.overflow") {
                return self.overflow(op, p.starts_with('s'), w, &a[0], &a[1]).map(|(r, o)| Some(Val::A(Rc::new(vec![r, o]))));
            }
            if base.starts_with(p) && base[p.len()..].starts_with(".sat") {
                if let (Val::A(x), Val::A(y)) = (&a[0], &a[1]) {
                    let mut r = vec![];
                    for i in 0..x.len() {
                        r.push(self.sat(op, p.starts_with('s'), w, &x[i], &y[i])?);
                    }
                    return Ok(Some(Val::A(Rc::new(r))));
                }
                return self.sat(op, p.starts_with('s'), w, &a[0], &a[1]).map(Some);
            }
        }
        for (p, pr) in [("umax", Pred::Ugt), ("umin", Pred::Ult), ("smax", Pred::Sgt), ("smin", Pred::Slt)] {
            if is(p) {
                if let (Val::A(x), Val::A(y)) = (&a[0], &a[1]) {
                    let mut r = vec![];
                    for i in 0..x.len() {
                        let cnd = self.icmp(pr, w, &x[i], &y[i]);
                        r.push(self.sel(&cnd, &x[i], &y[i], w));
                    }
                    return Ok(Some(Val::A(Rc::new(r))));
                }
                let cnd = self.icmp(pr, w, &a[0], &a[1]);
                return Ok(Some(self.sel(&cnd, &a[0], &a[1], w)));
            }
        }
        if is("ucmp") || is("scmp") {
            let wr = self.m.width(c.ret);
            let (lt, gt) = if is("ucmp") { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let l = self.icmp(lt, w, &a[0], &a[1]);
            let g = self.icmp(gt, w, &a[0], &a[1]);
            let inner = self.sel(&g, &Val::C(1), &Val::C(0), wr);
            return Ok(Some(self.sel(&l, &Val::C(mask(wr) as u64), &inner, wr)));
        }
        if is("abs") {
            let v = a[0].clone();
            return self
                .lanes1(&v, &mut |s, x| {
                    let z = cval(0, w, &mut s.ar);
                    let neg = s.icmp(Pred::Slt, w, x, &z);
                    let m = s.bin(Bin::Sub, w, &z, x)?;
                    Ok(s.sel(&neg, &m, x, w))
                })
                .map(Some);
        }
        if is("bswap") || is("bitreverse") {
            let unit = if is("bswap") { 8 } else { 1 };
            let v = a[0].clone();
            return self
                .lanes1(&v, &mut |s, x| {
                    let e = s.ex(x, w);
                    let mut acc: Option<E> = None;
                    let k = w / unit;
                    for i in 0..k {
                        // low lane of result = high unit of the source
                        let p = s.ar.extract(e, (k - 1 - i) * unit, unit);
                        acc = Some(match acc {
                            None => p,
                            Some(q) => s.ar.concat(p, q),
                        });
                    }
                    Ok(s.wrap(acc.unwrap()))
                })
                .map(Some);
        }
        if is("ctlz") || is("cttz") || is("ctpop") {
            let v = a[0].clone();
            let kind = &base[..4];
            return self
                .lanes1(&v, &mut |s, x| {
                    if let Val::C(x) = x {
                        return Ok(Val::C(match kind {
                            "ctlz" => {
                                if *x == 0 {
                                    w as u64
                                } else {
                                    x.leading_zeros() as u64 - (64 - w as u64)
                                }
                            }
                            "cttz" => {
                                if *x == 0 {
                                    w as u64
                                } else {
                                    x.trailing_zeros() as u64
                                }
                            }
                            _ => x.count_ones() as u64,
                        }));
                    }
                    let e = s.ex(x, w);
                    let mut r = s.ar.cnst(if kind == "ctpo" { 0 } else { w as u128 }, w);
                    for i in 0..w {
                        let (bit, val) = match kind {
                            "ctlz" => (i, w - 1 - i),
                            "cttz" => (w - 1 - i, w - 1 - i),
                            _ => (i, 0),
                        };
                        let b = s.ar.extract(e, bit, 1);
                        if kind == "ctpo" {
                            let z = s.ar.zext(b, w);
                            r = s.ar.bin(X::Add, r, z);
                        } else {
                            let c = s.ar.cnst(val as u128, w);
                            r = s.ar.ite(b, c, r);
                        }
                    }
                    Ok(s.wrap(r))
                })
                .map(Some);
        }
        if is("fabs") {
            let mm = cval(mask(w) >> 1, w, &mut self.ar);
            return self.bin(Bin::And, w, &a[0], &mm).map(Some);
        }
        for (p, k) in [
            ("sqrt", F_SQRT),
            ("floor", F_FLOOR),
            ("ceil", F_CEIL),
            ("trunc", F_TRUNC),
            ("rint", F_EVEN),
            ("nearbyint", F_EVEN),
            ("roundeven", F_EVEN),
            ("round", F_AWAY),
        ] {
            if is(p) {
                let v = a[0].clone();
                return self
                    .lanes1(&v, &mut |s, x| {
                        let e = s.ex(x, w);
                        let r = s.fop(k, w, e, None);
                        Ok(s.wrap(r))
                    })
                    .map(Some);
            }
        }
        if is("fptosi.sat") || is("fptoui.sat") {
            let wt = self.m.width(c.ret);
            let k = if is("fptosi.sat") { F_TOSI } else { F_TOUI };
            let v = a[0].clone();
            return self
                .lanes1(&v, &mut |s, x| {
                    let e = s.ex(x, w);
                    let z = s.ar.cnst(0, w);
                    let r = s.ar.fp(k, wt, e, z);
                    Ok(s.wrap(r))
                })
                .map(Some);
        }
        if is("minnum") || is("maxnum") || is("minimumnum") || is("maximumnum") {
            let lt = self.fcmp(if base.starts_with("min") { "olt" } else { "ogt" }, w, &a[0], &a[1])?;
            let na = self.fcmp("uno", w, &a[0], &a[0])?;
            let nb = self.fcmp("uno", w, &a[1], &a[1])?;
            let r = self.sel(&lt, &a[0], &a[1], w);
            let r = self.sel(&nb, &a[0], &r, w);
            return Ok(Some(self.sel(&na, &a[1], &r, w)));
        }
        if is("fma") || is("fmuladd") {
            let v: Vec<u64> = (0..3).map(|i| self.narrow(st, &a[i], "fused multiplication")).collect();
            let r = if w == 32 {
                let f = |i: usize| f32::from_bits(v[i] as u32);
                f(0).mul_add(f(1), f(2)).to_bits() as u64
            } else {
                let f = |i: usize| f64::from_bits(v[i]);
                f(0).mul_add(f(1), f(2)).to_bits()
            };
            return Ok(Some(Val::C(r)));
        }
        if is("is.fpclass") {
            let m = self.conc(st, &a[1])?;
            let v = a[0].clone();
            return self
                .lanes1(&v, &mut |s, x| {
                    let e = s.ex(x, w);
                    let (mag, nan) = s.fparts(w, e);
                    let neg = s.ar.extract(e, w - 1, 1);
                    let inf: u128 = if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 };
                    let qb = if w == 32 { 22 } else { 51 };
                    let q = s.ar.extract(e, qb, 1);
                    let is_inf = s.ar.eqc(mag, inf);
                    let is_zero = s.ar.eqc(mag, 0);
                    let least = s.ar.cnst(1u128 << (qb + 1), w);
                    let small = s.ar.bin(X::Ult, mag, least);
                    let nz = s.ar.not1(is_zero);
                    let sub = s.ar.and1(small, nz);
                    let ni = s.ar.not1(is_inf);
                    let nn = s.ar.not1(nan);
                    let ns = s.ar.not1(small);
                    let norm = s.ar.and1(ni, nn);
                    let norm = s.ar.and1(norm, ns);
                    let pos = s.ar.not1(neg);
                    let nq = s.ar.not1(q);
                    let cls = [(nan, nq), (nan, q), (is_inf, neg), (norm, neg), (sub, neg), (is_zero, neg), (is_zero, pos), (sub, pos), (norm, pos), (is_inf, pos)];
                    let mut r = 0;
                    for (i, (x, y)) in cls.iter().enumerate() {
                        if m >> i & 1 == 1 {
                            let t = s.ar.and1(*x, *y);
                            r = s.ar.or1(r, t);
                        }
                    }
                    Ok(s.wrap(r))
                })
                .map(Some);
        }
        if is("copysign") {
            let mm = cval(mask(w) >> 1, w, &mut self.ar);
            let sm = cval(1u128 << (w - 1), w, &mut self.ar);
            let x = self.bin(Bin::And, w, &a[0], &mm)?;
            let y = self.bin(Bin::And, w, &a[1], &sm)?;
            return self.bin(Bin::Or, w, &x, &y).map(Some);
        }
        if is("fshl") || is("fshr") {
            if let Val::C(k) = a[2] {
                let k = k % w as u64;
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                if k == 0 {
                    return Ok(Some(a[if is("fshl") { 0 } else { 1 }].clone()));
                }
                // concat(x,y) << k, high part
                let k = if is("fshl") { k as u16 } else { w - k as u16 };
                let h = self.ar.extract(x, 0, w - k);
                let l = self.ar.extract(y, w - k, k);
                let r = self.ar.concat(h, l);
                return Ok(Some(self.wrap(r)));
            }
            return Err(Stop::Inconclusive("symbolic funnel shift".into()));
        }
        if is("threadlocal.address") || is("expect") || is("launder.invariant.group") || is("strip.invariant.group") || is("ssa.copy") {
            return Ok(Some(a[0].clone()));
        }
        if is("assume") || is("donothing") || is("stackrestore") || is("prefetch") || is("sideeffect") || is("x86.sse2.pause") || is("fake.use") {
            return Ok(None);
        }
        if is("stacksave") || is("is.constant") {
            return Ok(Some(Val::C(0)));
        }
        if is("trap") || is("debugtrap") || is("ubsantrap") {
            return Err(Stop::End(Outcome::Panic("trap".into())));
        }
        if base.starts_with("vector.reduce.") {
            let k = base["vector.reduce.".len()..].split('.').next().unwrap();
            if let Val::A(l) = &a[0] {
                let mut acc = l[0].clone();
                for x in &l[1..] {
                    acc = match k {
                        "add" => self.bin(Bin::Add, w, &acc, x)?,
                        "and" => self.bin(Bin::And, w, &acc, x)?,
                        "or" => self.bin(Bin::Or, w, &acc, x)?,
                        "xor" => self.bin(Bin::Xor, w, &acc, x)?,
                        "umax" | "umin" | "smax" | "smin" => {
                            let pr = match k {
                                "umax" => Pred::Ugt,
                                "umin" => Pred::Ult,
                                "smax" => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            let cn = self.icmp(pr, w, &acc, x);
                            self.sel(&cn, &acc.clone(), x, w)
                        }
                        _ => return Err(Stop::Inconclusive(n.to_string())),
                    };
                }
                return Ok(Some(acc));
            }
        }
        if is("x86.sse2.pmovmskb.128") {
            if let Val::A(l) = &a[0] {
                let l = l.clone();
                let mut acc: Option<E> = None;
                for x in l.iter() {
                    let e = self.ex(x, 8);
                    let b = self.ar.extract(e, 7, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(q) => self.ar.concat(b, q),
                    });
                }
                let e = self.ar.zext(acc.unwrap(), 32);
                return Ok(Some(self.wrap(e)));
            }
        }
        if is("x86.sse2.psad.bw") {
            if let (Val::A(x), Val::A(y)) = (&a[0], &a[1]) {
                let mut out = vec![];
                for h in 0..2 {
                    let mut acc = self.ar.cnst(0, 64);
                    for i in 0..8 {
                        let (p, q) = (self.ex(&x[h * 8 + i], 8), self.ex(&y[h * 8 + i], 8));
                        let (p, q) = (self.ar.zext(p, 64), self.ar.zext(q, 64));
                        let lt = self.ar.bin(X::Ult, p, q);
                        let d1 = self.ar.bin(X::Sub, q, p);
                        let d2 = self.ar.bin(X::Sub, p, q);
                        let d = self.ar.ite(lt, d1, d2);
                        acc = self.ar.bin(X::Add, acc, d);
                    }
                    out.push(self.wrap(acc));
                }
                return Ok(Some(Val::A(Rc::new(out))));
            }
        }
        if is("x86.sse2.pmadd.wd") {
            if let (Val::A(x), Val::A(y)) = (&a[0], &a[1]) {
                let mut out = vec![];
                for h in 0..4 {
                    let mut acc = self.ar.cnst(0, 32);
                    for i in 0..2 {
                        let (p, q) = (self.ex(&x[h * 2 + i], 16), self.ex(&y[h * 2 + i], 16));
                        let (p, q) = (self.ar.sext(p, 32), self.ar.sext(q, 32));
                        let d = self.ar.bin(X::Mul, p, q);
                        acc = self.ar.bin(X::Add, acc, d);
                    }
                    out.push(self.wrap(acc));
                }
                return Ok(Some(Val::A(Rc::new(out))));
            }
        }
        Err(Stop::Inconclusive(format!("intrinsic {n}")))
    }
    fn sel(&mut self, c: &Val, x: &Val, y: &Val, w: u16) -> Val {
        match c {
            Val::C(v) => {
                if v & 1 == 1 {
                    x.clone()
                } else {
                    y.clone()
                }
            }
            Val::S(e) => {
                let (p, q) = (self.ex(x, w), self.ex(y, w));
                let r = self.ar.ite(*e, p, q);
                self.wrap(r)
            }
            _ => unreachable!(),
        }
    }
    fn overflow(&mut self, op: Bin, signed: bool, w: u16, a: &Val, b: &Val) -> R<(Val, Val)> {
        let r = self.bin(op, w, a, b)?;
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let m = mask(w);
            let o = if signed {
                let (x, y) = (sext128(*x as u128, w), sext128(*y as u128, w));
                let t = match op {
                    Bin::Add => x + y,
                    Bin::Sub => x - y,
                    _ => x * y,
                };
                sext128(t as u128 & m, w) != t
            } else {
                let (x, y) = (*x as u128, *y as u128);
                match op {
                    Bin::Add => x + y > m,
                    Bin::Sub => x < y,
                    _ => x * y > m,
                }
            };
            return Ok((r, Val::C(o as u64)));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let o = match (op, signed) {
            (Bin::Sub, false) => self.ar.bin(X::Ult, x, y),
            (Bin::Add, false) => {
                let rr = self.ex(&r, w);
                // overflow iff r < x; intervals may settle it
                let (_, hx) = self.ar.range(x);
                let (_, hy) = self.ar.range(y);
                if hx.checked_add(hy).is_some_and(|t| t <= mask(w)) {
                    0
                } else if let Some(c) = self.ar.as_const(y) {
                    let k = self.ar.cnst(mask(w) - c, w);
                    self.ar.bin(X::Ult, k, x)
                } else if let Some(c) = self.ar.as_const(x) {
                    let k = self.ar.cnst(mask(w) - c, w);
                    self.ar.bin(X::Ult, k, y)
                } else {
                    self.ar.bin(X::Ult, rr, x)
                }
            }
            (Bin::Mul, false) => {
                let (_, hx) = self.ar.range(x);
                let (_, hy) = self.ar.range(y);
                if hx.checked_mul(hy).is_some_and(|t| t <= mask(w)) {
                    0
                } else if let Some(c) = self.ar.as_const(y).filter(|c| *c > 0) {
                    let k = self.ar.cnst(mask(w) / c, w);
                    self.ar.bin(X::Ult, k, x)
                } else if let Some(c) = self.ar.as_const(x).filter(|c| *c > 0) {
                    let k = self.ar.cnst(mask(w) / c, w);
                    self.ar.bin(X::Ult, k, y)
                } else {
                    if w > 64 {
                        return Err(Stop::Inconclusive("wide symbolic multiplication".into()));
                    }
                    let (zx, zy) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                    let p = self.ar.bin(X::Mul, zx, zy);
                    let h = self.ar.extract(p, w, w);
                    let z = self.ar.eqc(h, 0);
                    self.ar.not1(z)
                }
            }
            (_, true) => {
                if w > 64 {
                    return Err(Stop::Inconclusive("wide signed overflow".into()));
                }
                let nw = if op == Bin::Mul { 2 * w } else { w + 1 };
                let (sx, sy) = (self.ar.sext(x, nw), self.ar.sext(y, nw));
                let t = self.ar.bin(xop(op), sx, sy);
                let rr = self.ex(&r, w);
                let rs = self.ar.sext(rr, nw);
                let e = self.ar.bin(X::Eq, t, rs);
                self.ar.not1(e)
            }
            _ => unreachable!(),
        };
        Ok((r, self.wrap(o)))
    }
    fn sat(&mut self, op: Bin, signed: bool, w: u16, a: &Val, b: &Val) -> R<Val> {
        let (r, o) = self.overflow(op, signed, w, a, b)?;
        if signed {
            let z = cval(0, w, &mut self.ar);
            let neg = self.icmp(Pred::Slt, w, a, &z);
            let mx = cval(mask(w) >> 1, w, &mut self.ar);
            let mn = cval(1u128 << (w - 1), w, &mut self.ar);
            let lim = self.sel(&neg, &mn, &mx, w);
            return Ok(self.sel(&o, &lim, &r, w));
        }
        let lim = if op == Bin::Sub { 0 } else { mask(w) };
        let l = cval(lim, w, &mut self.ar);
        Ok(self.sel(&o, &l, &r, w))
    }

    // ---- driver -----------------------------------------------------------
    fn violate(&mut self, st: &State, kind: &str, label: &str) {
        let k = (kind.to_string(), label.to_string());
        let stack = self.stack(st);
        let mut model = (*st.model).clone();
        model.resize(st.nvars as usize, 0);
        if let Some(v) = self.violations.get_mut(&k) {
            v.count += 1;
            return;
        }
        let v = Violation { kind: kind.into(), label: label.into(), stack, model, count: 1 };
        if let Some(f) = &self.on_violation {
            f(&v);
        }
        self.violations.insert(k, v);
    }
    pub fn explore(&mut self, init: State) {
        self.work.push(init);
        let mut n = 0u64;
        while let Some(mut st) = self.work.pop() {
            let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| loop {
                n += 1;
                if n & 0xfff == 0 && Instant::now() > self.lim.deadline {
                    break Stop::Inconclusive("job time limit".into());
                }
                if self.trace {
                    let fr = st.frames.last().unwrap();
                    eprintln!("[{}] {} b{} i{}: {:?}", st.frames.len(), self.m.fns[fr.f.id as usize].dem, fr.b, fr.ip, fr.f.blocks[fr.b as usize].insts.get(fr.ip as usize));
                }
                if let Err(s) = self.step(&mut st) {
                    break s;
                }
            }));
            let stop = run.unwrap_or_else(|e| {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Stop::Inconclusive(format!("executor: {m}"))
            });
            self.st.insts = n;
            match stop {
                Stop::Drop => {
                    self.st.dropped += 1;
                    *self.outcomes.entry("dropped".into()).or_insert(0) += 1;
                }
                Stop::Inconclusive(r) => {
                    let key = format!("{r} [in {}]", self.stack(&st).iter().take(4).cloned().collect::<Vec<_>>().join(" < "));
                    *self.inconclusive.entry(key).or_insert(0) += 1;
                    if r.contains("time limit") && r.contains("job") {
                        let left = self.work.len() as u64;
                        *self.inconclusive.entry("unexplored states at the time limit".into()).or_insert(0) += left + 1;
                        self.work.clear();
                    }
                }
                Stop::End(o) => {
                    self.st.paths += 1;
                    match o {
                        Outcome::Ret => {
                            *self.outcomes.entry("returned".into()).or_insert(0) += 1;
                            self.witness(&st);
                        }
                        Outcome::Panic(l) => {
                            *self.outcomes.entry("panic".into()).or_insert(0) += 1;
                            if !self.allow.panics {
                                self.violate(&st, "panic", &l);
                            }
                        }
                        Outcome::Mem(l) => {
                            *self.outcomes.entry("memory".into()).or_insert(0) += 1;
                            let fnm = self.stack(&st).first().cloned().unwrap_or_default();
                            self.violate(&st, "memory", &format!("{l} in {fnm}"));
                        }
                        Outcome::OverAlloc(_) => {
                            *self.outcomes.entry("overalloc".into()).or_insert(0) += 1;
                            let fnm = self.stack(&st).into_iter().find(|f| f.contains("gvas::")).unwrap_or_default();
                            self.violate(&st, "overalloc", &format!("allocation out of proportion in {fnm}"));
                        }
                        Outcome::Depth(l) => {
                            *self.outcomes.entry("depth".into()).or_insert(0) += 1;
                            self.violate(&st, "depth", &l);
                        }
                    }
                }
            }
            if self.st.paths + self.st.dropped >= self.lim.max_paths && !self.work.is_empty() {
                let left = self.work.len() as u64;
                *self.inconclusive.entry("unexplored states at the path limit".into()).or_insert(0) += left;
                self.work.clear();
            }
        }
    }
    fn witness(&mut self, st: &State) {
        // reservoir: keep the first ones, then every 2^k-th
        let p = self.st.paths;
        if self.witnesses.len() >= self.lim.witnesses && !(p.is_power_of_two()) {
            return;
        }
        let mut model = (*st.model).clone();
        model.resize(st.nvars as usize, 0);
        let obs = st
            .obs
            .iter()
            .map(|v| match v {
                Val::C(x) => *x,
                Val::S(e) => self.ar.eval(*e, &model) as u64,
                _ => 0,
            })
            .collect();
        self.witnesses.push(Witness { model, obs, ret: st.retval });
    }
}
fn xop(b: Bin) -> X {
    match b {
        Bin::Add => X::Add,
        Bin::Sub => X::Sub,
        Bin::Mul => X::Mul,
        Bin::UDiv => X::UDiv,
        Bin::SDiv => X::SDiv,
        Bin::URem => X::URem,
        Bin::SRem => X::SRem,
        Bin::And => X::And,
        Bin::Or => X::Or,
        Bin::Xor => X::Xor,
        Bin::Shl => X::Shl,
        Bin::LShr => X::LShr,
        Bin::AShr => X::AShr,
    }
}
