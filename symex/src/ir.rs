//! LLVM textual IR: types, functions (parsed lazily), globals.
use crate::expr::{mask, Arena, E};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    /// integer/pointer/float bits, width <= 64 (known from context)
    C(u64),
    /// symbolic term, or any value wider than 64 bits
    S(E),
    /// aggregate or vector
    A(Rc<Vec<Val>>),
}

pub type Ty = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TyK {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Ty),
    Vec(u32, Ty),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Other,
}
pub struct TyI {
    pub k: TyK,
    pub size: u64,
    pub store: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FpExt,
    FpTrunc,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    Same, // ptrtoint / inttoptr / ptrtoaddr of equal width
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ptr(Op),
    Intr(String),
    Asm(String),
}
#[derive(Clone, Debug)]
pub struct Call {
    pub callee: Callee,
    pub args: Vec<Op>,
    pub arg_tys: Vec<Ty>,
    pub ret: Ty,
    pub normal: Option<u32>,
}
#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, u16, Op, Op),
    ICmp(Pred, u16, Op, Op),
    FCmp(String, u16, Op, Op),
    FBin(String, u16, Op, Op),
    FNeg(u16, Op),
    Cast(Cast, u16, u16, Op),
    Bitcast(Ty, Ty, Op),
    Select(Op, Op, Op, u16, bool),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Op, i64, Vec<(Op, i64, u16)>),
    Alloca(u64, Op),
    Call(Box<Call>),
    ExtractValue(Op, Vec<u32>),
    InsertValue(Op, Op, Vec<u32>),
    ExtractElement(Op, Op),
    InsertElement(Op, Op, Op),
    Shuffle(Op, Op, Vec<i32>),
    Freeze(Op),
    AtomicRmw(String, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    Nop,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u16, Op, u32, Vec<(u64, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32,
    pub i: I,
}
pub const NODST: u32 = u32::MAX;
#[derive(Default, Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}
pub struct FnInfo {
    pub noreturn: bool,
    pub name: String,
    pub dem: String,
    pub span: Option<(usize, usize)>,
    pub parsed: Option<&'static Func>,
}
pub struct Global {
    pub name: String,
    pub size: u64,
    pub align: u64,
    pub data: Vec<u8>,
    pub constant: bool,
    pub external: bool,
}

pub const FN_BASE: u64 = 0x7000_0000_0000_0000;
pub fn fn_addr(id: u32) -> u64 {
    FN_BASE + (id as u64) * 16
}
pub fn obj_addr(id: u32) -> u64 {
    ((id as u64) << 32) | 0x1_0000
}

pub struct Module {
    pub text: &'static [u8],
    pub types: Vec<TyI>,
    ty_tab: HashMap<TyK, Ty>,
    named: HashMap<String, Ty>,
    pub fns: Vec<FnInfo>,
    pub fn_ids: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub global_ids: HashMap<String, u32>,
    aliases: HashMap<String, (usize, usize)>,
}
/// object id of global i is i + 1
pub fn glob_obj(i: u32) -> u32 {
    i + 1
}

struct Cur<'a> {
    t: &'a [u8],
    p: usize,
    end: usize,
}
impl<'a> Cur<'a> {
    fn ws(&mut self) {
        while self.p < self.end {
            match self.t[self.p] {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b'/' if self.t[self.p + 1] == b'*' => {
                    while !self.t[self.p..self.end].starts_with(b"*/") {
                        self.p += 1
                    }
                    self.p += 2;
                }
                b';' => {
                    while self.p < self.end && self.t[self.p] != b'\n' {
                        self.p += 1
                    }
                }
                _ => break,
            }
        }
    }
    fn sp(&mut self) {
        while self.p < self.end && (self.t[self.p] == b' ' || self.t[self.p] == b'\t') {
            self.p += 1
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.end {
            self.t[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        self.ws();
        if self.t[self.p..self.end].starts_with(s.as_bytes()) {
            self.p += s.len();
            true
        } else {
            false
        }
    }
    fn eat_word(&mut self, s: &str) -> bool {
        self.ws();
        if self.t[self.p..self.end].starts_with(s.as_bytes()) {
            let q = self.p + s.len();
            if q >= self.end || !is_id(self.t[q]) {
                self.p = q;
                return true;
            }
        }
        false
    }
    fn expect(&mut self, s: &str) {
        if !self.eat(s) {
            panic!("expected {:?} at: {}", s, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let s = self.p.saturating_sub(120);
        let e = (self.p + 160).min(self.t.len());
        format!("{} <<HERE>> {}", String::from_utf8_lossy(&self.t[s..self.p]), String::from_utf8_lossy(&self.t[self.p..e]))
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let s = self.p;
        while self.p < self.end && is_id(self.t[self.p]) {
            self.p += 1
        }
        std::str::from_utf8(&self.t[s..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    /// after the sigil: name or quoted
    fn name(&mut self) -> String {
        if self.p < self.end && self.t[self.p] == b'"' {
            self.p += 1;
            let s = self.p;
            while self.t[self.p] != b'"' {
                self.p += 1
            }
            let r = String::from_utf8_lossy(&self.t[s..self.p]).into_owned();
            self.p += 1;
            r
        } else {
            let s = self.p;
            while self.p < self.end && is_id(self.t[self.p]) {
                self.p += 1
            }
            String::from_utf8_lossy(&self.t[s..self.p]).into_owned()
        }
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.t[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.t[self.p] != b'"' {
                        self.p += 1
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn eol(&mut self) {
        while self.p < self.end && self.t[self.p] != b'\n' {
            self.p += 1
        }
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let neg = self.t[self.p] == b'-';
        if neg {
            self.p += 1
        }
        let mut v: i128 = 0;
        let s = self.p;
        while self.p < self.end && self.t[self.p].is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.t[self.p] - b'0') as i128);
            self.p += 1
        }
        if s == self.p {
            panic!("number expected at {}", self.ctx());
        }
        if neg {
            -v
        } else {
            v
        }
    }
}
fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl Module {
    pub fn ty(&mut self, k: TyK) -> Ty {
        if let Some(t) = self.ty_tab.get(&k) {
            return *t;
        }
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        let mut offs = vec![];
        let (size, store, align) = match &k {
            TyK::Void | TyK::Label | TyK::Meta | TyK::Other => (0, 0, 1),
            TyK::Int(w) => {
                let st = (*w as u64 + 7) / 8;
                let al = st.next_power_of_two().min(16);
                (up(st, al), st, al)
            }
            TyK::Ptr | TyK::F64 => (8, 8, 8),
            TyK::F32 => (4, 4, 4),
            TyK::Arr(n, t) => {
                let e = &self.types[*t as usize];
                (e.size * n, e.size * n, e.align)
            }
            TyK::Vec(n, t) => {
                let e = &self.types[*t as usize];
                let b = if let TyK::Int(w) = e.k { (w as u64 * *n as u64 + 7) / 8 } else { e.size * *n as u64 };
                let a = b.next_power_of_two();
                (up(b, a), b, a)
            }
            TyK::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in f {
                    let e = &self.types[*t as usize];
                    if !*packed {
                        o = up(o, e.align);
                        al = al.max(e.align);
                    }
                    offs.push(o);
                    o += e.size;
                }
                let s = up(o, al);
                (s, s, al)
            }
        };
        let id = self.types.len() as Ty;
        self.types.push(TyI { k: k.clone(), size, store, align, offs });
        self.ty_tab.insert(k, id);
        id
    }
    pub fn width(&self, t: Ty) -> u16 {
        match &self.types[t as usize].k {
            TyK::Int(w) => *w,
            TyK::Ptr | TyK::F64 => 64,
            TyK::F32 => 32,
            TyK::Vec(_, e) => self.width(*e),
            _ => 0,
        }
    }
    fn is_ty_start(c: &mut Cur) -> bool {
        match c.peek() {
            b'[' | b'<' | b'{' | b'%' => true,
            _ => {
                let w = c.peek_word();
                matches!(w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "bfloat" | "opaque")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()))
            }
        }
    }
    fn p_ty(&mut self, c: &mut Cur) -> Ty {
        let t = match c.peek() {
            b'[' => {
                c.p += 1;
                let n = c.num() as u64;
                c.expect("x");
                let t = self.p_ty(c);
                c.expect("]");
                self.ty(TyK::Arr(n, t))
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    c.p += 1;
                    let f = self.p_tys(c, b'}');
                    c.expect(">");
                    self.ty(TyK::Struct(f, true))
                } else {
                    let n = c.num() as u32;
                    c.expect("x");
                    let t = self.p_ty(c);
                    c.expect(">");
                    self.ty(TyK::Vec(n, t))
                }
            }
            b'{' => {
                c.p += 1;
                let f = self.p_tys(c, b'}');
                self.ty(TyK::Struct(f, false))
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                *self.named.get(&n).unwrap_or_else(|| panic!("unknown type %{n}"))
            }
            _ => {
                let w = c.word();
                match w {
                    "void" => self.ty(TyK::Void),
                    "ptr" => self.ty(TyK::Ptr),
                    "float" => self.ty(TyK::F32),
                    "double" => self.ty(TyK::F64),
                    "label" => self.ty(TyK::Label),
                    "metadata" => self.ty(TyK::Meta),
                    _ if w.starts_with('i') && w.len() > 1 => self.ty(TyK::Int(w[1..].parse().unwrap())),
                    _ => self.ty(TyK::Other),
                }
            }
        };
        // function type suffix
        let p = c.p;
        c.sp();
        if c.p < c.end && c.t[c.p] == b'(' {
            // only treat as a function type if followed by another token that looks like a callee
            let q = c.p;
            c.balanced();
            let r = c.p;
            c.sp();
            if c.p < c.end && (c.t[c.p] == b'@' || c.t[c.p] == b'%') {
                c.p = r;
                return t;
            }
            c.p = q;
        }
        c.p = p;
        t
    }
    fn p_tys(&mut self, c: &mut Cur, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        loop {
            if c.peek() == close {
                c.p += 1;
                return v;
            }
            v.push(self.p_ty(c));
            c.eat(",");
        }
    }

    pub fn load(text: &'static [u8]) -> Module {
        let mut m = Module {
            text,
            types: vec![],
            ty_tab: HashMap::new(),
            named: HashMap::new(),
            fns: vec![],
            fn_ids: HashMap::new(),
            globals: vec![],
            global_ids: HashMap::new(),
            aliases: HashMap::new(),
        };
        let mut gspans = vec![];
        let mut fattr: Vec<String> = vec![];
        let mut noret = std::collections::HashSet::new();
        let mut p = 0;
        let n = text.len();
        let mut pend_types: Vec<(String, usize, usize)> = vec![];
        while p < n {
            let mut e = p;
            while e < n && text[e] != b'\n' {
                e += 1
            }
            let line = &text[p..e];
            if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let at = find_fn_name(line);
                let mut c = Cur { t: text, p: p + at + 1, end: e };
                let name = c.name();
                let id = m.fns.len() as u32;
                let mut span = None;
                let mut next = e + 1;
                if line.starts_with(b"define ") {
                    let mut q = e + 1;
                    loop {
                        if text[q] == b'}' && (q + 1 >= n || text[q + 1] == b'\n') && text[q - 1] == b'\n' {
                            break;
                        }
                        while text[q] != b'\n' {
                            q += 1
                        }
                        q += 1;
                    }
                    span = Some((p, q));
                    next = q + 2;
                }
                let dem = format!("{:#}", rustc_demangle::demangle(&name));
                m.fn_ids.insert(name.clone(), id);
                let attr = std::str::from_utf8(&line[at..]).unwrap_or("").rsplit(')').next().unwrap_or("").split_whitespace().find_map(|w| w.strip_prefix('#')).unwrap_or("").to_string();
                fattr.push(attr);
                m.fns.push(FnInfo { name, dem, span, parsed: None, noreturn: false });
                p = next;
                continue;
            } else if line.starts_with(b"attributes #") {
                let l = std::str::from_utf8(line).unwrap_or("");
                if l.split_whitespace().any(|w| w == "noreturn") {
                    noret.insert(l["attributes #".len()..].split(' ').next().unwrap().to_string());
                }
            } else if line.starts_with(b"@") {
                let mut c = Cur { t: text, p: p + 1, end: e };
                let name = c.name();
                gspans.push((name, c.p, e));
            } else if line.starts_with(b"%") {
                let mut c = Cur { t: text, p: p + 1, end: e };
                let name = c.name();
                c.expect("= type");
                pend_types.push((name, c.p, e));
            }
            p = e + 1;
        }
        for (i, a) in fattr.iter().enumerate() {
            m.fns[i].noreturn = noret.contains(a);
        }
        // named types may refer to each other; resolve iteratively
        let mut tries = 0;
        while !pend_types.is_empty() && tries < 100 {
            tries += 1;
            let mut rest = vec![];
            for (nm, a, b) in pend_types {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut c = Cur { t: text, p: a, end: b };
                    m.p_ty(&mut c)
                }));
                match r {
                    Ok(t) => {
                        m.named.insert(nm, t);
                    }
                    Err(_) => rest.push((nm, a, b)),
                }
            }
            pend_types = rest;
        }
        // first pass: ids
        let mut inits = vec![];
        for (name, a, b) in gspans {
            let mut c = Cur { t: text, p: a, end: b };
            c.expect("=");
            let mut external = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                if c.peek() == b'"' {
                    c.p += 1;
                    c.p -= 1;
                    c.name();
                    continue;
                }
                let w = c.word();
                match w {
                    "external" | "extern_weak" => external = true,
                    "global" => break,
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "alias" => {
                        alias = true;
                        break;
                    }
                    "" => panic!("global {name}: {}", c.ctx()),
                    _ => {
                        if c.peek() == b'(' {
                            c.balanced();
                        }
                    }
                }
            }
            if alias {
                m.aliases.insert(name, (c.p, b));
                continue;
            }
            let t = m.p_ty(&mut c);
            let id = m.globals.len() as u32;
            let (size, align) = (m.types[t as usize].size, m.types[t as usize].align);
            m.global_ids.insert(name.clone(), id);
            m.globals.push(Global { name, size, align: align.max(16), data: vec![0; size as usize], constant, external });
            if !external {
                inits.push((id, t, c.p, b));
            }
        }
        let mut ar = Arena::new();
        for (id, t, a, b) in inits {
            let mut c = Cur { t: text, p: a, end: b };
            let v = m.p_const(&mut c, t, &mut ar);
            let mut d = std::mem::take(&mut m.globals[id as usize].data);
            m.put(&mut d, 0, t, &v, &ar);
            m.globals[id as usize].data = d;
        }
        m
    }
    fn put(&self, d: &mut [u8], off: usize, t: Ty, v: &Val, ar: &Arena) {
        let ti = &self.types[t as usize];
        match (&ti.k, v) {
            (TyK::Struct(f, _), Val::A(l)) => {
                for (i, ft) in f.iter().enumerate() {
                    self.put(d, off + ti.offs[i] as usize, *ft, &l[i], ar);
                }
            }
            (TyK::Arr(_, et), Val::A(l)) | (TyK::Vec(_, et), Val::A(l)) => {
                let es = self.types[*et as usize].size as usize;
                for (i, x) in l.iter().enumerate() {
                    self.put(d, off + i * es, *et, x, ar);
                }
            }
            (_, Val::C(x)) => {
                let n = ti.store as usize;
                for i in 0..n.min(8) {
                    d[off + i] = (x >> (8 * i)) as u8;
                }
            }
            (_, Val::S(e)) => {
                let x = ar.as_const(*e).unwrap();
                let n = ti.store as usize;
                for i in 0..n {
                    d[off + i] = (x >> (8 * i)) as u8;
                }
            }
            _ => panic!("put"),
        }
    }
    pub fn zero(&self, t: Ty, ar: &mut Arena) -> Val {
        match &self.types[t as usize].k {
            TyK::Struct(f, _) => Val::A(Rc::new(f.iter().map(|x| self.zero(*x, ar)).collect())),
            TyK::Arr(n, e) => {
                let z = self.zero(*e, ar);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            TyK::Vec(n, e) => {
                let z = self.zero(*e, ar);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            TyK::Int(w) if *w > 64 => Val::S(ar.cnst(0, *w)),
            _ => Val::C(0),
        }
    }
    fn global_addr(&mut self, name: &str, ar: &mut Arena) -> u64 {
        if let Some(i) = self.fn_ids.get(name) {
            return fn_addr(*i);
        }
        if let Some(i) = self.global_ids.get(name) {
            return obj_addr(glob_obj(*i));
        }
        if let Some((a, b)) = self.aliases.get(name).copied() {
            let text = self.text;
            let mut c = Cur { t: text, p: a, end: b };
            self.p_ty(&mut c);
            c.expect(",");
            let t = self.p_ty(&mut c);
            if let Val::C(x) = self.p_const(&mut c, t, ar) {
                return x;
            }
        }
        panic!("unknown global @{name}")
    }
    fn p_tyval(&mut self, c: &mut Cur, ar: &mut Arena) -> (Ty, Val) {
        let t = self.p_ty(c);
        let v = self.p_const(c, t, ar);
        (t, v)
    }
    fn agg_list(&mut self, c: &mut Cur, close: u8, ar: &mut Arena) -> Vec<Val> {
        let mut v = vec![];
        loop {
            if c.peek() == close {
                c.p += 1;
                return v;
            }
            v.push(self.p_tyval(c, ar).1);
            c.eat(",");
        }
    }
    fn p_const(&mut self, c: &mut Cur, t: Ty, ar: &mut Arena) -> Val {
        let k = self.types[t as usize].k.clone();
        match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name();
                return Val::C(self.global_addr(&n, ar));
            }
            b'{' => {
                c.p += 1;
                return Val::A(Rc::new(self.agg_list(c, b'}', ar)));
            }
            b'[' => {
                c.p += 1;
                return Val::A(Rc::new(self.agg_list(c, b']', ar)));
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    c.p += 1;
                    let l = self.agg_list(c, b'}', ar);
                    c.expect(">");
                    return Val::A(Rc::new(l));
                }
                return Val::A(Rc::new(self.agg_list(c, b'>', ar)));
            }
            b'c' if c.t[c.p + 1] == b'"' => {
                c.p += 2;
                let mut l = vec![];
                while c.t[c.p] != b'"' {
                    if c.t[c.p] == b'\\' {
                        let h = std::str::from_utf8(&c.t[c.p + 1..c.p + 3]).unwrap();
                        if let Ok(x) = u8::from_str_radix(h, 16) {
                            l.push(Val::C(x as u64));
                            c.p += 3;
                        } else {
                            // "\\" escape
                            l.push(Val::C(b'\\' as u64));
                            c.p += 2;
                        }
                    } else {
                        l.push(Val::C(c.t[c.p] as u64));
                        c.p += 1;
                    }
                }
                c.p += 1;
                return Val::A(Rc::new(l));
            }
            b'+' | b'-' | b'0'..=b'9' => {
                match k {
                    TyK::F32 | TyK::F64 => {
                        let w = {
                            let s = c.p;
                            while c.p < c.end && (c.t[c.p].is_ascii_alphanumeric() || matches!(c.t[c.p], b'.' | b'-' | b'+')) {
                                c.p += 1
                            }
                            if c.p < c.end && c.t[c.p] == b'(' {
                                while c.t[c.p] != b')' {
                                    c.p += 1
                                }
                                c.p += 1;
                            }
                            std::str::from_utf8(&c.t[s..c.p]).unwrap()
                        };
                        return Val::C(fp_const(w, k == TyK::F32));
                    }
                    _ => {}
                }
                let v = c.num();
                let w = self.width(t);
                if w > 64 {
                    return Val::S(ar.cnst(v as u128, w));
                }
                return Val::C(v as u128 as u64 & mask(w) as u64);
            }
            _ => {}
        }
        let w = c.word();
        match w {
            "true" => Val::C(1),
            "false" | "null" | "none" => Val::C(0),
            "undef" | "poison" | "zeroinitializer" => self.zero(t, ar),
            "splat" => {
                c.expect("(");
                let (_, v) = self.p_tyval(c, ar);
                c.expect(")");
                match k {
                    TyK::Vec(n, _) => Val::A(Rc::new(vec![v; n as usize])),
                    TyK::Arr(n, _) => Val::A(Rc::new(vec![v; n as usize])),
                    _ => panic!("splat"),
                }
            }
            "getelementptr" => {
                while c.peek() != b'(' {
                    c.word();
                    if c.peek() == b'(' {
                        // inrange(...) or the list itself
                        let p = c.p;
                        c.balanced();
                        if c.peek() == b'(' || c.t[c.p].is_ascii_lowercase() {
                            continue;
                        }
                        c.p = p;
                    }
                }
                c.expect("(");
                let bt = self.p_ty(c);
                c.expect(",");
                let (_, base) = self.p_tyval(c, ar);
                let mut off = 0i64;
                let mut cur = bt;
                let mut first = true;
                while c.eat(",") {
                    let (it, iv) = self.p_tyval(c, ar);
                    let iw = self.width(it);
                    let i = match iv {
                        Val::C(x) => crate::expr::sext128(x as u128, iw) as i64,
                        _ => panic!("gep const"),
                    };
                    if first {
                        off += i * self.types[cur as usize].size as i64;
                        first = false;
                    } else {
                        match self.types[cur as usize].k.clone() {
                            TyK::Struct(f, _) => {
                                off += self.types[cur as usize].offs[i as usize] as i64;
                                cur = f[i as usize];
                            }
                            TyK::Arr(_, e) | TyK::Vec(_, e) => {
                                off += i * self.types[e as usize].size as i64;
                                cur = e;
                            }
                            _ => panic!("gep const into scalar"),
                        }
                    }
                }
                c.expect(")");
                match base {
                    Val::C(b) => Val::C(b.wrapping_add(off as u64)),
                    _ => panic!(),
                }
            }
            "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                c.expect("(");
                let (_, v) = self.p_tyval(c, ar);
                c.expect("to");
                let tt = self.p_ty(c);
                c.expect(")");
                let wt = self.width(tt);
                match v {
                    Val::C(x) => Val::C(x & mask(wt) as u64),
                    v => v,
                }
            }
            "add" | "sub" | "xor" | "mul" => {
                while c.peek() != b'(' {
                    c.word();
                }
                c.expect("(");
                let (t1, a) = self.p_tyval(c, ar);
                c.expect(",");
                let (_, b) = self.p_tyval(c, ar);
                c.expect(")");
                let ww = self.width(t1);
                match (a, b) {
                    (Val::C(x), Val::C(y)) => Val::C(
                        (match w {
                            "add" => x.wrapping_add(y),
                            "sub" => x.wrapping_sub(y),
                            "mul" => x.wrapping_mul(y),
                            _ => x ^ y,
                        }) & mask(ww) as u64,
                    ),
                    _ => panic!(),
                }
            }
            "inf" | "nan" | "pinf" | "ninf" | "qnan" | "f0x" => panic!("fp literal {w}"),
            _ => {
                if w.starts_with("f0x") {
                    return Val::C(u64::from_str_radix(&w[3..], 16).unwrap());
                }
                panic!("constant {w:?} at {}", c.ctx())
            }
        }
    }

    pub fn func(&mut self, id: u32, ar: &mut Arena) -> Option<&'static Func> {
        if let Some(f) = self.fns[id as usize].parsed {
            return Some(f);
        }
        let (a, b) = self.fns[id as usize].span?;
        let f = FnParser::parse(self, id, a, b, ar);
        let f: &'static Func = Box::leak(Box::new(f));
        self.fns[id as usize].parsed = Some(f);
        Some(f)
    }
}
pub fn find_fn_name(line: &[u8]) -> usize {
    // first '@' outside of parentheses/quotes
    let mut d = 0;
    let mut i = 0;
    while i < line.len() {
        match line[i] {
            b'(' => d += 1,
            b')' => d -= 1,
            b'"' => {
                i += 1;
                while line[i] != b'"' {
                    i += 1
                }
            }
            b'@' if d == 0 => return i,
            _ => {}
        }
        i += 1;
    }
    panic!("function name")
}
fn fp_const(w: &str, f32_: bool) -> u64 {
    // +inf, -qnan, +nan(0x7), +snan(0x1), f0x...
    if let Some(h) = w.strip_prefix("f0x") {
        return u64::from_str_radix(h, 16).unwrap();
    }
    let neg = w.starts_with('-');
    let t = w.trim_start_matches(['+', '-']);
    let (sign, exp, quiet) = if f32_ { (1u64 << 31, 0x7f80_0000, 0x40_0000) } else { (1u64 << 63, 0x7ff0_0000_0000_0000, 0x8_0000_0000_0000) };
    let name = t.split('(').next().unwrap();
    if matches!(name, "inf" | "qnan" | "nan" | "snan") {
        let pay = t.split('(').nth(1).map_or(0, |p| u64::from_str_radix(p.trim_end_matches(')').trim_start_matches("0x"), 16).unwrap());
        let q = if name == "inf" || name == "snan" { 0 } else { quiet };
        return if neg { sign } else { 0 } | exp | q | pay;
    }
    let w = w.trim_start_matches('+');
    let d: f64 = if let Some(h) = w.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else {
        w.parse().unwrap()
    };
    if f32_ {
        if d.is_nan() {
            let b = d.to_bits();
            (((b >> 63) << 31) | 0x7f80_0000 | ((b >> 29) & 0x7f_ffff)) & 0xffff_ffff
        } else {
            (d as f32).to_bits() as u64
        }
    } else {
        d.to_bits()
    }
}

struct FnParser<'m> {
    m: &'m mut Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl<'m> FnParser<'m> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: String) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    fn operand(&mut self, c: &mut Cur, t: Ty, ar: &mut Arena) -> Op {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            Op::R(self.reg(n))
        } else {
            Op::C(self.m.p_const(c, t, ar))
        }
    }
    fn typed(&mut self, c: &mut Cur, ar: &mut Arena) -> (Ty, Op) {
        let t = self.m.p_ty(c);
        let o = self.operand(c, t, ar);
        (t, o)
    }
    fn lab(&mut self, c: &mut Cur) -> u32 {
        c.expect("label");
        c.expect("%");
        let n = c.name();
        self.label(n)
    }
    fn parse(m: &'m mut Module, id: u32, a: usize, b: usize, ar: &mut Arena) -> Func {
        let text = m.text;
        let mut f = FnParser { m, regs: HashMap::new(), labels: HashMap::new() };
        let mut le = a;
        while text[le] != b'\n' {
            le += 1
        }
        let at = find_fn_name(&text[a..le]);
        let mut c = Cur { t: text, p: a + at + 1, end: b };
        c.name();
        c.expect("(");
        let mut params = vec![];
        let mut num = 0;
        loop {
            if c.peek() == b')' {
                c.p += 1;
                break;
            }
            if c.eat("...") {
                continue;
            }
            f.m.p_ty(&mut c);
            // attributes until %name , or )
            let mut named = None;
            loop {
                match c.peek() {
                    b'%' => {
                        c.p += 1;
                        named = Some(c.name());
                    }
                    b',' | b')' => break,
                    b'(' => c.balanced(),
                    b'"' => {
                        c.name();
                    }
                    b'=' => c.p += 1,
                    _ => {
                        let w = c.word();
                        if w.is_empty() {
                            panic!("param attr: {}", c.ctx());
                        }
                    }
                }
            }
            if let Some(k) = named.as_ref().and_then(|n| n.parse::<i32>().ok()) {
                num = k + 1;
            }
            let nm = named.unwrap_or_else(|| {
                let s = num.to_string();
                num += 1;
                s
            });
            params.push(f.reg(nm));
            c.eat(",");
        }
        c.p = le;
        // blocks
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur: u32;
        // entry label: explicit, or implicit number
        {
            c.ws();
            let p = c.p;
            let nm = c.name();
            if c.p < c.end && c.t[c.p] == b':' && !nm.is_empty() {
                c.p += 1;
                cur = f.label(nm);
            } else {
                c.p = p;
                // implicit entry label number = number of unnamed params
                cur = f.label(format!("{num}"));
            }
        }
        let entry = cur;
        blocks.insert(cur, Block::default());
        loop {
            c.ws();
            if c.p >= c.end {
                break;
            }
            // label?
            let p = c.p;
            let ch = c.t[c.p];
            if ch != b'%' {
                let nm = c.name();
                if c.p < c.end && c.t[c.p] == b':' && !nm.is_empty() {
                    c.p += 1;
                    cur = f.label(nm);
                    blocks.insert(cur, Block::default());
                    continue;
                }
                c.p = p;
            }
            let blk = blocks.get_mut(&cur).unwrap();
            let have = blk.insts.len();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.inst(&mut c, blk, ar)));
            if r.is_err() {
                // a form the parser does not know: undecided only where it is executed
                c.p = p;
                let line = &c.t[p..c.end.min(p + 200)];
                let line = String::from_utf8_lossy(line.split(|x| *x == b'\n').next().unwrap()).into_owned();
                let mut dst = NODST;
                if ch == b'%' {
                    c.p += 1;
                    let n = c.name();
                    dst = f.reg(n);
                }
                blk.insts.truncate(have);
                blk.insts.push(Inst { dst, i: I::Unsupported(line) });
            }
            c.eol();
        }
        let n = f.labels.len() as u32;
        let mut bl: Vec<Block> = Vec::with_capacity(n as usize);
        for i in 0..n {
            bl.push(blocks.remove(&i).unwrap_or_default());
        }
        assert_eq!(entry, 0);
        Func { id, params, nregs: f.regs.len() as u32, blocks: bl }
    }
    fn flags(&mut self, c: &mut Cur) {
        loop {
            let w = c.peek_word();
            match w {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile"
                | "atomic" | "weak" => {
                    c.word();
                }
                _ => return,
            }
        }
    }
    fn inst(&mut self, c: &mut Cur, b: &mut Block, ar: &mut Arena) {
        let start = c.p;
        let mut dst = NODST;
        if c.t[c.p] == b'%' {
            c.p += 1;
            let n = c.name();
            dst = self.reg(n);
            c.expect("=");
        }
        let mut w = c.word();
        if matches!(w, "tail" | "musttail" | "notail") {
            w = c.word();
        }
        let i = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.flags(c);
                let (t, x) = self.typed(c, ar);
                c.expect(",");
                let y = self.operand(c, t, ar);
                let op = match w {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    _ => Bin::AShr,
                };
                I::Bin(op, self.m.width(t), x, y)
            }
            "icmp" => {
                self.flags(c);
                let p = c.word();
                let p = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("icmp {p}"),
                };
                let (t, x) = self.typed(c, ar);
                c.expect(",");
                let y = self.operand(c, t, ar);
                I::ICmp(p, self.m.width(t), x, y)
            }
            "fcmp" => {
                self.flags(c);
                let p = c.word().to_string();
                let (t, x) = self.typed(c, ar);
                c.expect(",");
                let y = self.operand(c, t, ar);
                I::FCmp(p, self.m.width(t), x, y)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags(c);
                let (t, x) = self.typed(c, ar);
                c.expect(",");
                let y = self.operand(c, t, ar);
                I::FBin(w.to_string(), self.m.width(t), x, y)
            }
            "fneg" => {
                self.flags(c);
                let (t, x) = self.typed(c, ar);
                I::FNeg(self.m.width(t), x)
            }
            "trunc" | "zext" | "sext" | "fpext" | "fptrunc" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                self.flags(c);
                let (t, x) = self.typed(c, ar);
                c.expect("to");
                let tt = self.m.p_ty(c);
                let (wf, wt) = (self.m.width(t), self.m.width(tt));
                let k = match w {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "fpext" => Cast::FpExt,
                    "fptrunc" => Cast::FpTrunc,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    _ => {
                        if wf == wt {
                            Cast::Same
                        } else if wf > wt {
                            Cast::Trunc
                        } else {
                            Cast::ZExt
                        }
                    }
                };
                I::Cast(k, wf, wt, x)
            }
            "bitcast" => {
                let (t, x) = self.typed(c, ar);
                c.expect("to");
                let tt = self.m.p_ty(c);
                I::Bitcast(t, tt, x)
            }
            "select" => {
                self.flags(c);
                let (_, x) = self.typed(c, ar);
                c.expect(",");
                let (t, y) = self.typed(c, ar);
                c.expect(",");
                let (_, z) = self.typed(c, ar);
                let isp = self.m.types[t as usize].k == TyK::Ptr;
                I::Select(x, y, z, self.m.width(t), isp)
            }
            "load" => {
                self.flags(c);
                let t = self.m.p_ty(c);
                c.expect(",");
                let (_, p) = self.typed(c, ar);
                I::Load(t, p)
            }
            "store" => {
                self.flags(c);
                let (t, v) = self.typed(c, ar);
                c.expect(",");
                let (_, p) = self.typed(c, ar);
                I::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags(c);
                let bt = self.m.p_ty(c);
                c.expect(",");
                let (_, base) = self.typed(c, ar);
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = bt;
                let mut first = true;
                loop {
                    c.sp();
                    if c.p < c.end && c.t[c.p] == b',' {
                        c.p += 1;
                        c.sp();
                        if c.t[c.p] == b'!' {
                            break;
                        }
                        let (it, iv) = self.typed(c, ar);
                        let iw = self.m.width(it);
                        let scale;
                        if first {
                            scale = self.m.types[cur as usize].size as i64;
                            first = false;
                        } else {
                            match self.m.types[cur as usize].k.clone() {
                                TyK::Struct(f, _) => {
                                    let i = match iv {
                                        Op::C(Val::C(x)) => x as usize,
                                        _ => panic!(),
                                    };
                                    off += self.m.types[cur as usize].offs[i] as i64;
                                    cur = f[i];
                                    continue;
                                }
                                TyK::Arr(_, e) | TyK::Vec(_, e) => {
                                    scale = self.m.types[e as usize].size as i64;
                                    cur = e;
                                }
                                _ => panic!("gep into scalar"),
                            }
                        }
                        match iv {
                            Op::C(Val::C(x)) => off += crate::expr::sext128(x as u128, iw) as i64 * scale,
                            o => dynv.push((o, scale, iw)),
                        }
                    } else {
                        break;
                    }
                }
                I::Gep(base, off, dynv)
            }
            "alloca" => {
                let t = self.m.p_ty(c);
                let mut cnt = Op::C(Val::C(1));
                c.sp();
                if c.t[c.p] == b',' {
                    c.p += 1;
                    c.sp();
                    if c.t[c.p] == b'i' {
                        cnt = self.typed(c, ar).1;
                    }
                }
                I::Alloca(self.m.types[t as usize].size, cnt)
            }
            "call" | "invoke" => {
                let inv = w == "invoke";
                let call = self.call(c, inv, ar);
                match call {
                    Some(k) => I::Call(Box::new(k)),
                    None => I::Nop,
                }
            }
            "extractvalue" => {
                let (_, x) = self.typed(c, ar);
                let mut ix = vec![];
                while c.t[c.p] == b',' {
                    c.p += 1;
                    c.sp();
                    if c.t[c.p] == b'!' {
                        break;
                    }
                    ix.push(c.num() as u32);
                }
                I::ExtractValue(x, ix)
            }
            "insertvalue" => {
                let (_, x) = self.typed(c, ar);
                c.expect(",");
                let (_, y) = self.typed(c, ar);
                let mut ix = vec![];
                while c.t[c.p] == b',' {
                    c.p += 1;
                    c.sp();
                    if c.t[c.p] == b'!' {
                        break;
                    }
                    ix.push(c.num() as u32);
                }
                I::InsertValue(x, y, ix)
            }
            "extractelement" => {
                let (_, x) = self.typed(c, ar);
                c.expect(",");
                let (_, y) = self.typed(c, ar);
                I::ExtractElement(x, y)
            }
            "insertelement" => {
                let (_, x) = self.typed(c, ar);
                c.expect(",");
                let (_, y) = self.typed(c, ar);
                c.expect(",");
                let (_, z) = self.typed(c, ar);
                I::InsertElement(x, y, z)
            }
            "shufflevector" => {
                let (_, x) = self.typed(c, ar);
                c.expect(",");
                let (_, y) = self.typed(c, ar);
                c.expect(",");
                let mt = self.m.p_ty(c);
                let mv = self.m.p_const(c, mt, ar);
                let mut mk = vec![];
                if let Val::A(l) = mv {
                    for v in l.iter() {
                        if let Val::C(x) = v {
                            mk.push(*x as u32 as i32);
                        }
                    }
                }
                I::Shuffle(x, y, mk)
            }
            "freeze" => I::Freeze(self.typed(c, ar).1),
            "fence" => I::Nop,
            "atomicrmw" => {
                self.flags(c);
                let op = c.word().to_string();
                let (_, p) = self.typed(c, ar);
                c.expect(",");
                let (t, v) = self.typed(c, ar);
                I::AtomicRmw(op, t, p, v)
            }
            "cmpxchg" => {
                self.flags(c);
                let (_, p) = self.typed(c, ar);
                c.expect(",");
                let (t, x) = self.typed(c, ar);
                c.expect(",");
                let (_, y) = self.typed(c, ar);
                I::CmpXchg(t, p, x, y)
            }
            "phi" => {
                self.flags(c);
                let t = self.m.p_ty(c);
                let mut inc = vec![];
                loop {
                    c.expect("[");
                    let v = self.operand(c, t, ar);
                    c.expect(",");
                    c.expect("%");
                    let n = c.name();
                    let l = self.label(n);
                    c.expect("]");
                    inc.push((l, v));
                    c.sp();
                    if c.t[c.p] == b',' {
                        c.p += 1;
                        c.sp();
                        if c.t[c.p] == b'!' {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                b.phis.push((dst, inc));
                return;
            }
            "br" => {
                if c.peek_word() == "label" {
                    I::Br(self.lab(c))
                } else {
                    let (_, x) = self.typed(c, ar);
                    c.expect(",");
                    let t = self.lab(c);
                    c.expect(",");
                    let f = self.lab(c);
                    I::CondBr(x, t, f)
                }
            }
            "switch" => {
                let (t, x) = self.typed(c, ar);
                c.expect(",");
                let d = self.lab(c);
                c.expect("[");
                let mut cs = vec![];
                while c.peek() != b']' {
                    let (_, v) = self.m.p_tyval(c, ar);
                    c.expect(",");
                    let l = self.lab(c);
                    match v {
                        Val::C(x) => cs.push((x, l)),
                        _ => panic!("switch const"),
                    }
                }
                c.p += 1;
                I::Switch(self.m.width(t), x, d, cs)
            }
            "ret" => {
                if c.peek_word() == "void" {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.typed(c, ar).1))
                }
            }
            "unreachable" => I::Unreachable,
            "landingpad" | "resume" | "cleanup" | "catch" | "filter" => {
                if w == "landingpad" {
                    // swallow clause lines
                    loop {
                        c.eol();
                        let p = c.p;
                        c.ws();
                        let q = c.peek_word();
                        if matches!(q, "cleanup" | "catch" | "filter") {
                            continue;
                        }
                        c.p = p;
                        break;
                    }
                }
                I::Unsupported(w.to_string())
            }
            _ => {
                let mut e = start;
                while c.t[e] != b'\n' {
                    e += 1
                }
                I::Unsupported(String::from_utf8_lossy(&c.t[start..e]).into_owned())
            }
        };
        b.insts.push(Inst { dst, i });
    }
    fn call(&mut self, c: &mut Cur, inv: bool, ar: &mut Arena) -> Option<Call> {
        // skip flags, calling convention, return attributes
        loop {
            if Module::is_ty_start(c) {
                break;
            }
            if c.peek() == b'"' {
                c.name();
                continue;
            }
            let w = c.word();
            if w.is_empty() {
                panic!("call: {}", c.ctx());
            }
            if w == "align" || w == "cc" {
                c.num();
                continue;
            }
            c.sp();
            if c.t[c.p] == b'(' {
                c.balanced();
            }
        }
        let ret = self.m.p_ty(c);
        c.sp();
        if c.t[c.p] == b'(' {
            c.balanced(); // function type
        }
        let callee = match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name();
                if n.starts_with("llvm.") {
                    Callee::Intr(n)
                } else if let Some(i) = self.m.fn_ids.get(&n) {
                    Callee::Fn(*i)
                } else {
                    let a = self.m.global_addr(&n, ar);
                    Callee::Ptr(Op::C(Val::C(a)))
                }
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                Callee::Ptr(Op::R(self.reg(n)))
            }
            _ => {
                if c.peek_word() == "asm" {
                    c.word();
                    let s = c.p;
                    while c.t[c.p] != b'(' || c.t[s..c.p].iter().filter(|b| **b == b'"').count() % 2 == 1 {
                        c.p += 1
                    }
                    Callee::Asm(String::from_utf8_lossy(&c.t[s..c.p]).into_owned())
                } else {
                    let pt = self.m.ty(TyK::Ptr);
                    Callee::Ptr(Op::C(self.m.p_const(c, pt, ar)))
                }
            }
        };
        c.expect("(");
        let mut args = vec![];
        let mut tys = vec![];
        let skip = match &callee {
            Callee::Intr(n) => n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.lifetime"),
            _ => false,
        };
        if skip {
            c.p -= 1;
            c.balanced();
            return None;
        }
        loop {
            if c.peek() == b')' {
                c.p += 1;
                break;
            }
            let t = self.m.p_ty(c);
            if self.m.types[t as usize].k == TyK::Meta {
                // skip to , or )
                while c.t[c.p] != b',' && c.t[c.p] != b')' {
                    if c.t[c.p] == b'(' {
                        c.balanced();
                    } else {
                        c.p += 1;
                    }
                }
                args.push(Op::C(Val::C(0)));
                tys.push(t);
                c.eat(",");
                continue;
            }
            // attributes
            loop {
                c.ws();
                let p = c.p;
                let w = c.word();
                let attr = !w.is_empty()
                    && matches!(
                        w,
                        "noundef"
                            | "nonnull"
                            | "noalias"
                            | "zeroext"
                            | "signext"
                            | "align"
                            | "dereferenceable"
                            | "dereferenceable_or_null"
                            | "captures"
                            | "sret"
                            | "byval"
                            | "range"
                            | "readonly"
                            | "readnone"
                            | "writeonly"
                            | "nocapture"
                            | "inreg"
                            | "returned"
                            | "immarg"
                            | "initializes"
                            | "nofpclass"
                            | "allocalign"
                            | "allocptr"
                            | "nofree"
                            | "writable"
                            | "dead_on_unwind"
                            | "dead_on_return"
                            | "noext"
                            | "inalloca"
                            | "swiftself"
                            | "swifterror"
                            | "nest"
                            | "elementtype"
                    );
                if !attr {
                    c.p = p;
                    break;
                }
                c.sp();
                if c.t[c.p] == b'(' {
                    c.balanced();
                } else if w == "align" {
                    c.num();
                }
            }
            args.push(self.operand(c, t, ar));
            tys.push(t);
            c.eat(",");
        }
        let mut normal = None;
        if inv {
            // skip attrs until "to label"
            loop {
                if c.eat_word("to") {
                    break;
                }
                match c.peek() {
                    b'#' => {
                        c.p += 1;
                        c.word();
                    }
                    b'[' => {
                        while c.t[c.p] != b']' {
                            c.p += 1
                        }
                        c.p += 1;
                    }
                    _ => {
                        let w = c.word();
                        if w.is_empty() {
                            panic!("invoke: {}", c.ctx());
                        }
                        if c.peek() == b'(' {
                            c.balanced();
                        }
                    }
                }
            }
            normal = Some(self.lab(c));
            c.expect("unwind");
            self.lab(c);
        }
        Some(Call { callee, args, arg_tys: tys, ret, normal })
    }
}
