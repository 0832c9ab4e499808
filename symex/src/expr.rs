//! Hash-consed bit-vector terms with simplification, evaluation and support sets.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    /// f32 -> f64 / f64 -> f32 conversions on the bit patterns
    FpExt,
    FpTrunc,
    /// floating point operation `c` (see `fp_op`) on the bit patterns
    Fp,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, Copy)]
struct Info {
    kz: u128, // known zero bits
    ko: u128, // known one bits
    lo: u128,
    hi: u128,
    supp: u32,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    info: Vec<Info>,
    table: FxMap<Node, E>,
    consts: Vec<u128>,
    ctable: FxMap<(u128, u16), E>,
    pub supps: Vec<Box<[u32]>>,
    supp_table: FxMap<Box<[u32]>, u32>,
    supp_memo: FxMap<(u32, u32), u32>,
    memo: Vec<(u32, u128)>,
    stamp: u32,
}

pub fn ev(op: Op, w: u16, aw: u16, x: u128, y: u128) -> u128 {
    // binary op on operand width aw, result width w
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (sx, sy) = (sext128(x, w), sext128(y, w));
            if sy == 0 {
                (if sx < 0 { 1 } else { u128::MAX }) & m
            } else {
                (sx.wrapping_div(sy) as u128) & m
            }
        }
        Op::SRem => {
            let (sx, sy) = (sext128(x, w), sext128(y, w));
            if sy == 0 {
                x
            } else {
                (sx.wrapping_rem(sy) as u128) & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = sext128(x, w);
            let sh = if y >= w as u128 { 127.min(w as u32) } else { y as u32 };
            ((s >> sh.min(127)) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext128(x, aw) < sext128(y, aw)) as u128,
        Op::Sle => (sext128(x, aw) <= sext128(y, aw)) as u128,
        _ => unreachable!(),
    }
}

pub fn fpext(x: u128) -> u128 {
    let b = x as u32;
    if (b & 0x7fff_ffff) > 0x7f80_0000 {
        // NaN: keep sign and payload, quiet it (what the hardware does)
        let s = ((b >> 31) as u64) << 63;
        (s | 0x7ff8_0000_0000_0000 | (((b & 0x7f_ffff) as u64) << 29)) as u128
    } else {
        (f32::from_bits(b) as f64).to_bits() as u128
    }
}
pub fn fptrunc(x: u128) -> u128 {
    let b = x as u64;
    if (b & 0x7fff_ffff_ffff_ffff) > 0x7ff0_0000_0000_0000 {
        let s = ((b >> 63) as u32) << 31;
        (s | 0x7fc0_0000 | (((b & 0xf_ffff_ffff_ffff) >> 29) as u32)) as u128
    } else {
        (f64::from_bits(b) as f32).to_bits() as u128
    }
}

pub const F_ADD: u32 = 0;
pub const F_SUB: u32 = 1;
pub const F_MUL: u32 = 2;
pub const F_DIV: u32 = 3;
pub const F_SQRT: u32 = 4;
pub const F_FLOOR: u32 = 5;
pub const F_CEIL: u32 = 6;
pub const F_TRUNC: u32 = 7;
pub const F_EVEN: u32 = 8;
pub const F_AWAY: u32 = 9;
pub const F_SI: u32 = 10;
pub const F_UI: u32 = 11;
pub const F_TOSI: u32 = 12;
pub const F_TOUI: u32 = 13;
/// Result pattern used for every NaN an operation produces.
pub fn fp_nan(w: u16) -> u128 {
    if w == 32 {
        0xffc0_0000
    } else {
        0xfff8_0000_0000_0000
    }
}
/// Operation `k` with a result of width `w` on operands of width `aw`. Conversions to integers saturate.
pub fn fp_op(k: u32, w: u16, aw: u16, x: u128, y: u128) -> u128 {
    macro_rules! go {
        ($t:ty, $b:ty) => {{
            let (a, b) = (<$t>::from_bits(x as $b), <$t>::from_bits(y as $b));
            match k {
                F_TOSI | F_TOUI => {
                    let (lo, hi) = if k == F_TOUI { (0, mask(w) as i128) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
                    return ((a as i128).clamp(lo, hi) as u128) & mask(w);
                }
                _ => {}
            }
            let r = match k {
                F_ADD => a + b,
                F_SUB => a - b,
                F_MUL => a * b,
                F_DIV => a / b,
                F_SQRT => a.sqrt(),
                F_FLOOR => a.floor(),
                F_CEIL => a.ceil(),
                F_TRUNC => a.trunc(),
                F_EVEN => a.round_ties_even(),
                _ => a.round(),
            };
            if r.is_nan() {
                fp_nan(w)
            } else {
                r.to_bits() as u128
            }
        }};
    }
    match k {
        F_SI if w == 32 => (sext128(x, aw) as f32).to_bits() as u128,
        F_SI => (sext128(x, aw) as f64).to_bits() as u128,
        F_UI if w == 32 => (x as f32).to_bits() as u128,
        F_UI => (x as f64).to_bits() as u128,
        _ if aw == 32 => go!(f32, u32),
        _ => go!(f64, u64),
    }
}

impl Arena {
    pub fn fp(&mut self, k: u32, w: u16, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = fp_op(k, w, self.w(a), x, y);
            return self.cnst(r, w);
        }
        self.intern(Node { op: Op::Fp, w, a, b, c: k })
    }
    fn fp_isnan(&mut self, x: E) -> E {
        let w = self.w(x);
        let m = self.cnst(mask(w) >> 1, w);
        let mag = self.bin(Op::And, x, m);
        let inf = self.cnst(if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 }, w);
        self.bin(Op::Ult, inf, mag)
    }
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            info: vec![],
            table: Default::default(),
            consts: vec![],
            ctable: Default::default(),
            supps: vec![],
            supp_table: Default::default(),
            supp_memo: Default::default(),
            memo: vec![],
            stamp: 0,
        };
        a.intern_supp(Box::new([]));
        a.cnst(0, 1); // E = 0 : false
        a.cnst(1, 1); // E = 1 : true
        a
    }
    fn intern_supp(&mut self, s: Box<[u32]>) -> u32 {
        if let Some(x) = self.supp_table.get(&s) {
            return *x;
        }
        let id = self.supps.len() as u32;
        self.supps.push(s.clone());
        self.supp_table.insert(s, id);
        id
    }
    fn union_supp(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(x) = self.supp_memo.get(&k) {
            return *x;
        }
        let (x, y) = (&self.supps[a as usize], &self.supps[b as usize]);
        let mut r = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() && j < y.len() {
            if x[i] < y[j] {
                r.push(x[i]);
                i += 1
            } else if x[i] > y[j] {
                r.push(y[j]);
                j += 1
            } else {
                r.push(x[i]);
                i += 1;
                j += 1
            }
        }
        r.extend_from_slice(&x[i..]);
        r.extend_from_slice(&y[j..]);
        let id = self.intern_supp(r.into_boxed_slice());
        self.supp_memo.insert(k, id);
        id
    }
    #[inline]
    pub fn support(&self, e: E) -> &[u32] {
        &self.supps[self.info[e as usize].supp as usize]
    }
    #[inline]
    pub fn supp_id(&self, e: E) -> u32 {
        self.info[e as usize].supp
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn node(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn range(&self, e: E) -> (u128, u128) {
        let i = &self.info[e as usize];
        (i.lo, i.hi)
    }
    pub fn cnst(&mut self, v: u128, w: u16) -> E {
        let v = v & mask(w);
        if let Some(e) = self.ctable.get(&(v, w)) {
            return *e;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let id = self.nodes.len() as E;
        self.nodes.push(Node { op: Op::Const, w, a: ci, b: 0, c: 0 });
        self.info.push(Info { kz: !v & mask(w), ko: v, lo: v, hi: v, supp: 0 });
        self.ctable.insert((v, w), id);
        id
    }
    pub fn var(&mut self, idx: u32) -> E {
        self.intern(Node { op: Op::Var, w: 8, a: idx, b: 0, c: 0 })
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(e) = self.table.get(&n) {
            return *e;
        }
        let info = self.compute_info(&n);
        // constant by known bits / range
        let m = mask(n.w);
        if n.op != Op::Var {
            if (info.kz | info.ko) == m {
                let r = self.cnst(info.ko, n.w);
                self.table.insert(n, r);
                return r;
            }
            if info.lo == info.hi {
                let r = self.cnst(info.lo, n.w);
                self.table.insert(n, r);
                return r;
            }
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.info.push(info);
        self.table.insert(n, id);
        id
    }
    fn compute_info(&mut self, n: &Node) -> Info {
        let m = mask(n.w);
        let mut r = Info { kz: 0, ko: 0, lo: 0, hi: m, supp: 0 };
        match n.op {
            Op::Var => {
                r.supp = self.intern_supp(Box::new([n.a]));
                return r;
            }
            Op::Const => unreachable!(),
            Op::Extract => {
                let i = self.info[n.a as usize];
                r.supp = i.supp;
                r.kz = (i.kz >> n.b) & m;
                r.ko = (i.ko >> n.b) & m;
                if n.b == 0 && i.hi <= m {
                    r.lo = i.lo;
                    r.hi = i.hi;
                } else if (i.lo >> n.b) >> n.w == (i.hi >> n.b) >> n.w && (n.b as u32 + n.w as u32) < 128 {
                    r.lo = (i.lo >> n.b) & m;
                    r.hi = (i.hi >> n.b) & m;
                }
            }
            Op::ZExt => {
                let i = self.info[n.a as usize];
                let aw = self.w(n.a);
                r.supp = i.supp;
                r.kz = i.kz | (m & !mask(aw));
                r.ko = i.ko;
                r.lo = i.lo;
                r.hi = i.hi;
            }
            Op::SExt => {
                let i = self.info[n.a as usize];
                let aw = self.w(n.a);
                r.supp = i.supp;
                let sb = 1u128 << (aw - 1);
                let up = m & !mask(aw);
                r.kz = i.kz;
                r.ko = i.ko;
                if i.kz & sb != 0 {
                    r.kz |= up;
                    r.lo = i.lo;
                    r.hi = i.hi;
                } else if i.ko & sb != 0 {
                    r.ko |= up;
                    r.lo = i.lo | up;
                    r.hi = i.hi | up;
                }
            }
            Op::FpExt | Op::FpTrunc => {
                r.supp = self.info[n.a as usize].supp;
            }
            Op::Fp => {
                r.supp = self.union_supp(self.info[n.a as usize].supp, self.info[n.b as usize].supp);
            }
            Op::Ite => {
                let (x, y) = (self.info[n.b as usize], self.info[n.c as usize]);
                let cs = self.info[n.a as usize].supp;
                let s = self.union_supp(x.supp, y.supp);
                r.supp = self.union_supp(s, cs);
                r.kz = x.kz & y.kz;
                r.ko = x.ko & y.ko;
                r.lo = x.lo.min(y.lo);
                r.hi = x.hi.max(y.hi);
            }
            _ => {
                let (x, y) = (self.info[n.a as usize], self.info[n.b as usize]);
                r.supp = self.union_supp(x.supp, y.supp);
                match n.op {
                    Op::And => {
                        r.kz = x.kz | y.kz;
                        r.ko = x.ko & y.ko;
                        r.hi = x.hi.min(y.hi);
                    }
                    Op::Or => {
                        r.kz = x.kz & y.kz;
                        r.ko = x.ko | y.ko;
                        r.lo = x.lo.max(y.lo);
                    }
                    Op::Xor => {
                        r.kz = (x.kz & y.kz) | (x.ko & y.ko);
                        r.ko = (x.kz & y.ko) | (x.ko & y.kz);
                    }
                    Op::Concat => {
                        let bw = self.w(n.b) as u32;
                        r.kz = (x.kz << bw) | y.kz;
                        r.ko = (x.ko << bw) | y.ko;
                        r.lo = (x.lo << bw) | y.lo;
                        r.hi = (x.hi << bw) | y.hi;
                    }
                    Op::Add => {
                        // common trailing known zeros
                        if let (Some(l), Some(h)) = (x.lo.checked_add(y.lo), x.hi.checked_add(y.hi)) {
                            if h <= m {
                                r.lo = l;
                                r.hi = h;
                            } else if l > m && h.wrapping_sub(l) < m && h < (m << 1) && n.w < 127 {
                                r.lo = l & m;
                                r.hi = h & m;
                            }
                        }
                        let tz = (!x.kz).trailing_zeros().min((!y.kz).trailing_zeros()).min(127);
                        r.kz |= ((1u128 << tz) - 1) & m;
                    }
                    Op::Sub => {
                        if x.lo >= y.hi {
                            r.lo = x.lo - y.hi;
                            r.hi = x.hi - y.lo;
                        }
                    }
                    Op::Mul => {
                        if let (Some(l), Some(h)) = (x.lo.checked_mul(y.lo), x.hi.checked_mul(y.hi)) {
                            if h <= m {
                                r.lo = l;
                                r.hi = h;
                            }
                        }
                        let tz = ((!x.kz).trailing_zeros().min(n.w as u32) + (!y.kz).trailing_zeros().min(n.w as u32)).min(n.w as u32);
                        r.kz |= if tz >= 128 { m } else { ((1u128 << tz) - 1) & m };
                    }
                    Op::UDiv => {
                        if y.lo > 0 {
                            r.hi = x.hi / y.lo;
                            r.lo = x.lo / y.hi;
                        }
                    }
                    Op::URem => {
                        if y.lo > 0 {
                            r.hi = (y.hi - 1).min(x.hi);
                        } else {
                            r.hi = x.hi.max(y.hi);
                        }
                    }
                    Op::LShr => {
                        r.hi = x.hi;
                        if y.lo == y.hi && y.lo < 128 {
                            r.kz = (x.kz >> y.lo) | (m & !(m >> y.lo));
                            r.ko = x.ko >> y.lo;
                            r.lo = x.lo >> y.lo;
                            r.hi = x.hi >> y.lo;
                        }
                    }
                    Op::Shl => {
                        if y.lo == y.hi && y.lo < n.w as u128 {
                            r.kz = ((x.kz << y.lo) | ((1u128 << y.lo) - 1)) & m;
                            r.ko = (x.ko << y.lo) & m;
                        }
                    }
                    Op::AShr => {}
                    Op::Eq => {
                        r.hi = 1;
                        if (x.kz & y.ko) != 0 || (x.ko & y.kz) != 0 || x.hi < y.lo || y.hi < x.lo {
                            r.hi = 0;
                        }
                    }
                    Op::Ult => {
                        if x.hi < y.lo {
                            r.lo = 1;
                        }
                        if x.lo >= y.hi {
                            r.hi = 0;
                        }
                    }
                    Op::Ule => {
                        if x.hi <= y.lo {
                            r.lo = 1;
                        }
                        if x.lo > y.hi {
                            r.hi = 0;
                        }
                    }
                    Op::Slt | Op::Sle => {}
                    Op::SDiv | Op::SRem => {}
                    _ => unreachable!("{:?}", n.op),
                }
            }
        }
        // cross-tighten
        if r.ko > r.lo {
            r.lo = r.ko;
        }
        let mx = m & !r.kz;
        if mx < r.hi {
            r.hi = mx;
        }
        // leading zeros from hi
        if r.hi < m {
            let nb = 128 - r.hi.leading_zeros();
            r.kz |= m & !mask(nb as u16);
            if nb == 0 {
                r.kz = m;
            }
        }
        r
    }

    pub fn not1(&mut self, e: E) -> E {
        if e <= 1 {
            return 1 - e;
        }
        let n = self.node(e);
        match n.op {
            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
            _ => {}
        }
        self.bin(Op::Xor, e, 1)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eqc(&mut self, a: E, v: u128) -> E {
        let w = self.w(a);
        let c = self.cnst(v, w);
        self.bin(Op::Eq, a, c)
    }

    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        assert!(w <= 128, "concat too wide");
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cnst((x << wb) | y, w);
        }
        if self.as_const(a) == Some(0) {
            return self.zext(b, w);
        }
        let (na, nb) = (self.node(a), self.node(b));
        // adjacent extracts
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.b == nb.b + wb as u32 {
            return self.extract(na.a, nb.b as u16, w);
        }
        // extract above a full low part:  concat(extract(x,wb,..), x_low) where b == trunc x handled above
        // right-nested: concat(a, concat(c,d)) -> merge a with c if adjacent
        if nb.op == Op::Concat {
            let nc = self.node(nb.a);
            if na.op == Op::Extract && nc.op == Op::Extract && na.a == nc.a && na.b == nc.b + nc.w as u32 {
                let h = self.extract(na.a, nc.b as u16, na.w + nc.w);
                return self.concat(h, nb.b);
            }
            if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(nb.a)) {
                let h = self.cnst((x << nc.w) | y, wa + nc.w);
                return self.concat(h, nb.b);
            }
        }
        if na.op == Op::Concat {
            // re-associate to the right
            let r = self.concat(na.b, b);
            return self.concat(na.a, r);
        }
        // sign-extension pattern is left alone
        self.intern(Node { op: Op::Concat, w, a, b, c: 0 })
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.node(a);
        if n.w == w {
            return a;
        }
        if let Some(v) = self.as_const(a) {
            return self.cnst(v, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.as_const(n.b), self.as_const(n.c)) {
                let (x, y) = (self.cnst(x, w), self.cnst(y, w));
                return self.ite(n.a, x, y);
            }
        }
        self.intern(Node { op: Op::ZExt, w, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.node(a);
        if n.w == w {
            return a;
        }
        if let Some(v) = self.as_const(a) {
            return self.cnst(sext128(v, n.w) as u128, w);
        }
        let sb = 1u128 << (n.w - 1);
        if self.info[a as usize].kz & sb != 0 {
            return self.zext(a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.w == 1 {
            let (x, y) = (self.cnst(u128::MAX, w), self.cnst(0, w));
            return self.ite(a, x, y);
        }
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.as_const(n.b), self.as_const(n.c)) {
                let (x, y) = (self.cnst(sext128(x, n.w) as u128, w), self.cnst(sext128(y, n.w) as u128, w));
                return self.ite(n.a, x, y);
            }
        }
        self.intern(Node { op: Op::SExt, w, a, b: 0, c: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.node(a);
        if lo == 0 && n.w == w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        if let Some(v) = self.as_const(a) {
            return self.cnst(v >> lo, w);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, n.b as u16 + lo, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, lo + w - wb);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wa = self.w(n.a);
                if lo >= wa {
                    return self.cnst(0, w);
                }
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wa - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Ite => {
                let cb = self.as_const(n.b).is_some();
                let cc = self.as_const(n.c).is_some();
                if cb || cc || w == 8 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w, a, b: lo as u32, c: 0 })
    }
    pub fn ite(&mut self, c: E, x: E, y: E) -> E {
        if c == 1 || x == y {
            return x;
        }
        if c == 0 {
            return y;
        }
        let w = self.w(x);
        let n = self.node(c);
        if n.op == Op::Xor && n.b == 1 {
            return self.ite(n.a, y, x);
        }
        if w == 1 {
            if x == 1 && y == 0 {
                return c;
            }
            if x == 0 && y == 1 {
                return self.not1(c);
            }
            if x == 1 {
                return self.bin(Op::Or, c, y);
            }
            if y == 0 {
                return self.bin(Op::And, c, x);
            }
            if x == 0 {
                let nc = self.not1(c);
                return self.bin(Op::And, nc, y);
            }
            if y == 1 {
                let nc = self.not1(c);
                return self.bin(Op::Or, nc, x);
            }
        }
        let nx = self.node(x);
        if nx.op == Op::Ite && nx.a == c {
            return self.ite(c, nx.b, y);
        }
        let ny = self.node(y);
        if ny.op == Op::Ite && ny.a == c {
            return self.ite(c, x, ny.c);
        }
        if ny.op == Op::Ite && ny.b == x {
            let o = self.bin(Op::Or, c, ny.a);
            return self.ite(o, x, ny.c);
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: x, c: y })
    }
    pub fn fp_ext(&mut self, a: E) -> E {
        if let Some(v) = self.as_const(a) {
            return self.cnst(fpext(v), 64);
        }
        let r = self.intern(Node { op: Op::FpExt, w: 64, a, b: 0, c: 0 });
        let nan = self.fp_isnan(a);
        let q = self.cnst(0x40_0000, 32);
        let qa = self.bin(Op::Or, a, q);
        let sign = self.extract(a, 31, 1);
        let frac = self.extract(qa, 0, 23);
        let e = self.cnst(0x7ff, 11);
        let h = self.concat(sign, e);
        let h = self.concat(h, frac);
        let z = self.cnst(0, 29);
        let n = self.concat(h, z);
        self.ite(nan, n, r)
    }
    pub fn fp_trunc(&mut self, a: E) -> E {
        if let Some(v) = self.as_const(a) {
            return self.cnst(fptrunc(v), 32);
        }
        let n = self.node(a);
        if n.op == Op::Ite && self.node(n.c).op == Op::FpExt {
            // exact for every non-NaN value; a NaN comes back quieted
            let x = self.node(n.c).a;
            let nan = self.fp_isnan(x);
            let q = self.cnst(0x40_0000, 32);
            let qx = self.bin(Op::Or, x, q);
            return self.ite(nan, qx, x);
        }
        let r = self.intern(Node { op: Op::FpTrunc, w: 32, a, b: 0, c: 0 });
        let nan = self.fp_isnan(a);
        let sign = self.extract(a, 63, 1);
        let e = self.cnst(0x1ff, 9);
        let h = self.concat(sign, e);
        let frac = self.extract(a, 29, 22);
        let n = self.concat(h, frac);
        self.ite(nan, n, r)
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b), "{:?}", op);
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => aw,
        };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cnst(ev(op, w, aw, x, y), w);
        }
        let m = mask(aw);
        // canonical order for commutative ops: constant right
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        let (mut ca, mut cb) = (ca, cb);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let na = self.node(a);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if aw == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(y) = cb {
                    if na.op == Op::Add {
                        if let Some(x) = self.as_const(na.b) {
                            let c = self.cnst(x.wrapping_add(y), w);
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                    if let Some(r) = self.push_ite(op, na, b, false) {
                        return r;
                    }
                }
                // x + ~x etc. not needed; (x - y) + y
                if na.op == Op::Sub && na.b == b {
                    return na.a;
                }
                let nb = self.node(b);
                if nb.op == Op::Sub && nb.b == a {
                    return nb.a;
                }
                // pull constants outward: (x + c) + y -> (x+y) + c
                if cb.is_none() {
                    if na.op == Op::Add && self.as_const(na.b).is_some() {
                        let s = self.bin(Op::Add, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                    if nb.op == Op::Add && self.as_const(nb.b).is_some() {
                        let s = self.bin(Op::Add, a, nb.a);
                        return self.bin(Op::Add, s, nb.b);
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cnst(0, w);
                }
                if aw == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(y) = cb {
                    let c = self.cnst(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, c);
                }
                let nb = self.node(b);
                // (x + c) - x , (x + y) - x
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    if self.as_const(na.b).is_some() {
                        let s = self.bin(Op::Sub, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                }
                if nb.op == Op::Add {
                    if nb.a == a {
                        let z = self.cnst(0, w);
                        return self.bin(Op::Sub, z, nb.b);
                    }
                    if let Some(y) = self.as_const(nb.b) {
                        let s = self.bin(Op::Sub, a, nb.a);
                        let c = self.cnst(y.wrapping_neg(), w);
                        return self.bin(Op::Add, s, c);
                    }
                }
                if nb.op == Op::Sub && nb.a == a {
                    return nb.b;
                }
            }
            Op::Mul => {
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let c = self.cnst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, c);
                    }
                    if let Some(r) = self.push_ite(op, na, b, false) {
                        return r;
                    }
                }
            }
            Op::UDiv => {
                if let Some(y) = cb {
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let c = self.cnst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, c);
                    }
                    // narrow the division
                    let (_, hi) = self.range(a);
                    let need = (128 - hi.max(y).leading_zeros()) as u16;
                    if need < w {
                        let x = self.extract(a, 0, need);
                        let c = self.cnst(y, need);
                        let q = self.bin(Op::UDiv, x, c);
                        return self.zext(q, w);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y == 1 {
                        return self.cnst(0, w);
                    }
                    if y.is_power_of_two() {
                        let c = self.cnst(y - 1, w);
                        return self.bin(Op::And, a, c);
                    }
                    if y > 0 && self.range(a).1 < y {
                        return a;
                    }
                    let (_, hi) = self.range(a);
                    let need = (128 - hi.max(y).leading_zeros()) as u16;
                    if need < w {
                        let x = self.extract(a, 0, need);
                        let c = self.cnst(y, need);
                        let q = self.bin(Op::URem, x, c);
                        return self.zext(q, w);
                    }
                }
            }
            Op::SDiv | Op::SRem => {
                // both known non-negative
                let sb = 1u128 << (aw - 1);
                if self.info[a as usize].kz & sb != 0 && self.info[b as usize].kz & sb != 0 {
                    return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m || (self.info[a as usize].kz | y) == m {
                        return a;
                    }
                    if na.op == Op::And {
                        if let Some(x) = self.as_const(na.b) {
                            let c = self.cnst(x & y, w);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                    // low mask -> zext(extract)
                    if (y & (y + 1)) == 0 {
                        let nb = y.count_ones() as u16;
                        let x = self.extract(a, 0, nb);
                        return self.zext(x, w);
                    }
                    if let Some(r) = self.push_ite(op, na, b, false) {
                        return r;
                    }
                    if na.op == Op::Concat {
                        let wb = self.w(na.b);
                        let (ch, cl) = (self.cnst(y >> wb, aw - wb), self.cnst(y, wb));
                        let h = self.bin(Op::And, na.a, ch);
                        let l = self.bin(Op::And, na.b, cl);
                        return self.concat(h, l);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let c = self.cnst(y, iw);
                        let x = self.bin(Op::And, na.a, c);
                        return self.zext(x, w);
                    }
                }
                if w == 1 {
                    let nb = self.node(b);
                    if na.op == Op::Xor && na.b == 1 && na.a == b {
                        return 0;
                    }
                    if nb.op == Op::Xor && nb.b == 1 && nb.a == a {
                        return 0;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    // contradictory equalities with constants
                    if na.op == Op::Eq && nb.op == Op::Eq && na.a == nb.a {
                        if let (Some(x), Some(y)) = (self.as_const(na.b), self.as_const(nb.b)) {
                            return if x == y { a } else { 0 };
                        }
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                    if let Some(r) = self.push_ite(op, na, b, false) {
                        return r;
                    }
                }
                if w == 1 {
                    let nb = self.node(b);
                    if na.op == Op::Xor && na.b == 1 && na.a == b {
                        return 1;
                    }
                    if nb.op == Op::Xor && nb.b == 1 && nb.a == a {
                        return 1;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                } else if let Some(r) = self.or_disjoint(a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cnst(0, w);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if na.op == Op::Xor {
                        if let Some(x) = self.as_const(na.b) {
                            let c = self.cnst(x ^ y, w);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                    if w == 1 {
                        match na.op {
                            Op::Ult | Op::Ule | Op::Slt | Op::Sle => return self.not1(a),
                            _ => {}
                        }
                    }
                    if let Some(r) = self.push_ite(op, na, b, false) {
                        return r;
                    }
                }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.cnst(0, w);
                    }
                    let x = self.extract(a, 0, w - y as u16);
                    let z = self.cnst(0, y as u16);
                    return self.concat(x, z);
                }
                if let Some(r) = self.push_ite(op, na, b, false) {
                    return r;
                }
                let nb = self.node(b);
                if let Some(r) = self.push_ite(op, nb, a, true) {
                    return r;
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.cnst(0, w);
                    }
                    let x = self.extract(a, y as u16, w - y as u16);
                    return self.zext(x, w);
                }
                let nb = self.node(b);
                if let Some(r) = self.push_ite(op, nb, a, true) {
                    return r;
                }
            }
            Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let sb = 1u128 << (w - 1);
                    if self.info[a as usize].kz & sb != 0 {
                        return self.bin(Op::LShr, a, b);
                    }
                    let y = y.min(w as u128 - 1) as u16;
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return 1;
                }
                if aw == 1 {
                    if b == 1 {
                        return a;
                    }
                    if b == 0 {
                        return self.not1(a);
                    }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not1(x);
                }
                if let Some(y) = cb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if y >> iw != 0 {
                                return 0;
                            }
                            let c = self.cnst(y, iw);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            if sext128(y & mask(iw), iw) as u128 & m != y {
                                return 0;
                            }
                            let c = self.cnst(y, iw);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Concat => {
                            let wb = self.w(na.b);
                            let (ch, cl) = (self.cnst(y >> wb, aw - wb), self.cnst(y, wb));
                            let h = self.bin(Op::Eq, na.a, ch);
                            if h == 0 {
                                return 0;
                            }
                            let l = self.bin(Op::Eq, na.b, cl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Add => {
                            if let Some(x) = self.as_const(na.b) {
                                let c = self.cnst(y.wrapping_sub(x), aw);
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        Op::Sub if y == 0 => {
                            return self.bin(Op::Eq, na.a, na.b);
                        }
                        Op::Xor => {
                            if let Some(x) = self.as_const(na.b) {
                                let c = self.cnst(y ^ x, aw);
                                return self.bin(Op::Eq, na.a, c);
                            }
                            if y == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Or if y == 0 => {
                            let p = self.bin(Op::Eq, na.a, b);
                            let q = self.bin(Op::Eq, na.b, b);
                            return self.bin(Op::And, p, q);
                        }
                        Op::Ite => {
                            let (x1, x2) = (self.as_const(na.b), self.as_const(na.c));
                            if x1.is_some() || x2.is_some() {
                                let p = self.bin(Op::Eq, na.b, b);
                                let q = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.node(b);
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let h = self.bin(Op::Eq, na.a, nb.a);
                        if h == 0 {
                            return 0;
                        }
                        let l = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, h, l);
                    }
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) {
                    return 0;
                }
                if cb == Some(1) {
                    return self.eqc(a, 0);
                }
                if ca == Some(0) {
                    let e = self.eqc(b, 0);
                    return self.not1(e);
                }
                if ca == Some(m) {
                    return 0;
                }
                if let Some(r) = self.cmp_ext(op, a, b, ca, cb) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b || ca == Some(0) || cb == Some(m) {
                    return 1;
                }
                if cb == Some(0) {
                    return self.eqc(a, 0);
                }
                if let Some(y) = cb {
                    let c = self.cnst(y + 1, aw);
                    return self.bin(Op::Ult, a, c);
                }
                if let Some(x) = ca {
                    let c = self.cnst(x - 1, aw);
                    return self.bin(Op::Ult, c, b);
                }
                if let Some(r) = self.cmp_ext(op, a, b, ca, cb) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return (op == Op::Sle) as E;
                }
                let sb = 1u128 << (aw - 1);
                let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
                let u = if op == Op::Slt { Op::Ult } else { Op::Ule };
                if (ia.kz & sb != 0 && ib.kz & sb != 0) || (ia.ko & sb != 0 && ib.ko & sb != 0) {
                    return self.bin(u, a, b);
                }
                if ia.kz & sb != 0 && ib.ko & sb != 0 {
                    return 0;
                }
                if ia.ko & sb != 0 && ib.kz & sb != 0 {
                    return 1;
                }
                if op == Op::Slt && cb == Some(0) {
                    return self.extract(a, aw - 1, 1);
                }
                if op == Op::Slt && ca == Some(m) {
                    // -1 < b
                    let s = self.extract(b, aw - 1, 1);
                    return self.not1(s);
                }
                // non-strict with constants -> strict
                if op == Op::Sle {
                    if let Some(y) = cb {
                        if y != m >> 1 {
                            let c = self.cnst(y.wrapping_add(1), aw);
                            return self.bin(Op::Slt, a, c);
                        }
                        return 1;
                    }
                    if let Some(x) = ca {
                        if x != sb {
                            let c = self.cnst(x.wrapping_sub(1), aw);
                            return self.bin(Op::Slt, c, b);
                        }
                        return 1;
                    }
                }
                let nb = self.node(b);
                if na.op == Op::SExt {
                    let iw = self.w(na.a);
                    if nb.op == Op::SExt && self.w(nb.a) == iw {
                        return self.bin(op, na.a, nb.a);
                    }
                    if let Some(y) = cb {
                        let sy = sext128(y, aw);
                        let (mn, mx) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
                        if sy >= mn && sy <= mx {
                            let c = self.cnst(y, iw);
                            return self.bin(op, na.a, c);
                        }
                        return (sy > mx) as E;
                    }
                }
                if nb.op == Op::SExt {
                    let iw = self.w(nb.a);
                    if let Some(x) = ca {
                        let sx = sext128(x, aw);
                        let (mn, mx) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
                        if sx >= mn && sx <= mx {
                            let c = self.cnst(x, iw);
                            return self.bin(op, c, nb.a);
                        }
                        return (sx < mn) as E;
                    }
                }
                if na.op == Op::Ite || nb.op == Op::Ite {
                    if let Some(r) = self.cmp_ite(op, a, b) {
                        return r;
                    }
                }
            }
            _ => unreachable!("{:?}", op),
        }
        self.intern(Node { op, w, a, b, c: 0 })
    }
    fn cmp_ite(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::Ite && self.as_const(b).is_some() && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
            let p = self.bin(op, na.b, b);
            let q = self.bin(op, na.c, b);
            return Some(self.ite(na.a, p, q));
        }
        if nb.op == Op::Ite && self.as_const(a).is_some() && (self.as_const(nb.b).is_some() || self.as_const(nb.c).is_some()) {
            let p = self.bin(op, a, nb.b);
            let q = self.bin(op, a, nb.c);
            return Some(self.ite(nb.a, p, q));
        }
        None
    }
    fn cmp_ext(&mut self, op: Op, a: E, b: E, ca: Option<u128>, cb: Option<u128>) -> Option<E> {
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return Some(self.bin(op, na.a, nb.a));
        }
        if na.op == Op::ZExt {
            if let Some(y) = cb {
                let iw = self.w(na.a);
                if y > mask(iw) {
                    return Some(1);
                }
                let c = self.cnst(y, iw);
                return Some(self.bin(op, na.a, c));
            }
        }
        if nb.op == Op::ZExt {
            if let Some(x) = ca {
                let iw = self.w(nb.a);
                if x > mask(iw) {
                    return Some(0);
                }
                let c = self.cnst(x, iw);
                return Some(self.bin(op, c, nb.a));
            }
        }
        if na.op == Op::Ite || nb.op == Op::Ite {
            return self.cmp_ite(op, a, b);
        }
        None
    }
    /// op(ite(c, k1, k2), k) with constant leaves
    fn push_ite(&mut self, op: Op, n: Node, other: E, swapped: bool) -> Option<E> {
        if n.op != Op::Ite {
            return None;
        }
        self.as_const(other)?;
        if self.as_const(n.b).is_none() && self.as_const(n.c).is_none() {
            return None;
        }
        let (p, q) = if swapped {
            (self.bin(op, other, n.b), self.bin(op, other, n.c))
        } else {
            (self.bin(op, n.b, other), self.bin(op, n.c, other))
        };
        Some(self.ite(n.a, p, q))
    }
    /// or of terms whose non-zero bits are disjoint, as a concatenation
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let m = mask(w);
        let za = self.info[a as usize].kz;
        let zb = self.info[b as usize].kz;
        if (za | zb) != m {
            return None;
        }
        // find a split: low part from one, high part from the other
        let ta = (!za & m).trailing_zeros() as u16; // lowest possibly-set bit of a
        let tb = (!zb & m).trailing_zeros() as u16;
        let (hi, lo, t) = if ta > tb { (a, b, ta) } else { (b, a, tb) };
        if t == 0 || t >= w {
            return None;
        }
        // lo must have zero bits at and above t
        let zl = self.info[lo as usize].kz;
        if (zl >> t) == (m >> t) {
            let h = self.extract(hi, t, w - t);
            let l = self.extract(lo, 0, t);
            return Some(self.concat(h, l));
        }
        None
    }

    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        if let Some(v) = self.as_const(e) {
            return v;
        }
        self.stamp += 1;
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        self.ev_rec(e, model)
    }
    fn ev_rec(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return model.get(n.a as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        let (s, v) = self.memo[e as usize];
        if s == self.stamp {
            return v;
        }
        let r = match n.op {
            Op::Extract => (self.ev_rec(n.a, model) >> n.b) & mask(n.w),
            Op::ZExt => self.ev_rec(n.a, model),
            Op::SExt => {
                let aw = self.nodes[n.a as usize].w;
                sext128(self.ev_rec(n.a, model), aw) as u128 & mask(n.w)
            }
            Op::Ite => {
                if self.ev_rec(n.a, model) == 1 {
                    self.ev_rec(n.b, model)
                } else {
                    self.ev_rec(n.c, model)
                }
            }
            Op::Concat => {
                let bw = self.nodes[n.b as usize].w;
                (self.ev_rec(n.a, model) << bw) | self.ev_rec(n.b, model)
            }
            Op::FpExt => fpext(self.ev_rec(n.a, model)),
            Op::FpTrunc => fptrunc(self.ev_rec(n.a, model)),
            Op::Fp => {
                let aw = self.nodes[n.a as usize].w;
                let x = self.ev_rec(n.a, model);
                let y = self.ev_rec(n.b, model);
                fp_op(n.c, n.w, aw, x, y)
            }
            Op::And if n.w == 1 => {
                if self.ev_rec(n.a, model) == 0 {
                    0
                } else {
                    self.ev_rec(n.b, model)
                }
            }
            op => {
                let aw = self.nodes[n.a as usize].w;
                let x = self.ev_rec(n.a, model);
                let y = self.ev_rec(n.b, model);
                ev(op, n.w, aw, x, y)
            }
        };
        self.memo[e as usize] = (self.stamp, r);
        r
    }
}
