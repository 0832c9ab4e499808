use crate::gen_::*;
use crate::sx;
use gvas::properties::Property;
use gvas::types::map::HashableIndexMap;
use std::hash::{Hash, Hasher};

/// Records what a value feeds to a hasher.
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
pub fn rec<T: Hash>(x: &T) -> Vec<u8> {
    let mut r = Rec(Vec::new());
    x.hash(&mut r);
    r.0
}
/// width of the lanes if the payload consists of floating point numbers only
fn lanes(k: u32) -> usize {
    match k {
        FLOAT | VEC2F | VECF | ROTF | QUATF | LINCOLOR => 4,
        DOUBLE | VEC2D | VECD | ROTD | QUATD => 8,
        _ => 0,
    }
}
fn mixed(k: u32) -> bool {
    k == CUSTOM || (k >= T_NAMED && k <= T_CURRENCY) || (k >= T_ARGS64 && k < ARRAY) || k == T_TRANSFORM
}
/// numerically equal or both NaN, lane by lane
fn same_numbers(a: &[u8], b: &[u8], w: usize) -> bool {
    let mut all = true;
    let mut i = 0;
    while i < a.len() {
        let s = if w == 4 {
            let x = u32::from_le_bytes([a[i], a[i + 1], a[i + 2], a[i + 3]]);
            let y = u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
            let (xm, ym) = (x & 0x7fff_ffff, y & 0x7fff_ffff);
            (x == y) | ((xm == 0) & (ym == 0)) | ((xm > 0x7f80_0000) & (ym > 0x7f80_0000))
        } else {
            let g = |v: &[u8]| u64::from_le_bytes([v[i], v[i + 1], v[i + 2], v[i + 3], v[i + 4], v[i + 5], v[i + 6], v[i + 7]]);
            let (x, y) = (g(a), g(b));
            let (xm, ym) = (x & (u64::MAX >> 1), y & (u64::MAX >> 1));
            let inf = 0x7ff0_0000_0000_0000;
            (x == y) | ((xm == 0) & (ym == 0)) | ((xm > inf) & (ym > inf))
        };
        all = sx::and(all, s);
        i += w;
    }
    all
}

/// P12: two arbitrary values of the same shape.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_eqhash(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let a = make(&p, &mut e);
    let b = make(&p, &mut e);
    judge(&p, &a, &b);
    0
}
/// P12: the form inside containers.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_eqhash_elem(param: u32) -> u32 {
    let p = P::new(param);
    let a = leaf(p.kind, &p, true);
    let b = leaf(p.kind, &p, true);
    judge(&p, &a, &b);
    0
}
fn judge(p: &P, a: &Case, b: &Case) {
    let ab = a.prop == b.prop;
    let ba = b.prop == a.prop;
    sx::check(ab == ba, "equality is symmetric");
    sx::check(ab != (a.prop != b.prop), "inequality is the opposite of equality");
    if ab {
        sx::check(sx::eq(&rec(&a.prop), &rec(&b.prop)), "equal values hash equally");
        sx::reach("equal");
    } else {
        sx::reach("different");
    }
    let k = if p.kind >= ARRAY { p.sub } else { p.kind };
    let (x, y) = (a.full(), b.full());
    if p.kind != MAP && !mixed(k) {
        let w = lanes(k);
        let same = if w == 0 {
            sx::eq(&x, &y)
        } else {
            // everything before the numbers is compared as it is
            let n = if p.kind == ARRAY || p.kind == SET { p.n } else { 1 };
            let per = a_len(k);
            let off = x.len() - n * per;
            sx::eq(&x[..off], &y[..off]) && same_numbers(&x[off..], &y[off..], w)
        };
        sx::check(ab == same, "equality is exactly equality of what is written");
    } else {
        sx::check(ab || !sx::eq(&x, &y), "values written identically are equal");
    }
}
fn a_len(k: u32) -> usize {
    match k {
        FLOAT => 4,
        DOUBLE | VEC2F => 8,
        VECF | ROTF => 12,
        VEC2D | QUATF | LINCOLOR => 16,
        VECD | ROTD => 24,
        _ => 32,
    }
}
/// P12: reflexivity and clones.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_eqself(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let a = make(&p, &mut e).prop;
    sx::check(a == a, "equality is reflexive");
    let c = a.clone();
    sx::check(c == a, "a clone is equal");
    sx::check(a == c, "a clone is equal the other way round");
    sx::check(sx::eq(&rec(&a), &rec(&c)), "a clone hashes equally");
    sx::reach("end");
    0
}
/// P12: values of different kinds are different.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_eqdiff(param: u32) -> u32 {
    let p = P::new(param);
    let q = P { kind: p.sub, sub: 0, ..p };
    let p = P { sub: 0, ..p };
    let a: Property = leaf(p.kind, &p, p.mode == 1).prop;
    let b: Property = leaf(q.kind, &q, p.mode == 1).prop;
    sx::check(a != b, "values of different kinds are different");
    sx::check(b != a, "values of different kinds are different the other way round");
    sx::reach("end");
    0
}
/// P12: the same entries in another order. kind 0: plain map, otherwise a map property or text.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_eqorder(param: u32) -> u32 {
    let p = P::new(param);
    if p.kind == 0 {
        let (k1, k2) = (sx::u32(), sx::u32());
        let (v1, v2) = (sx::u32(), sx::u32());
        sx::assume(k1 != k2);
        let mut a = HashableIndexMap::new();
        a.insert(k1, v1);
        a.insert(k2, v2);
        let mut b = HashableIndexMap::new();
        b.insert(k2, v2);
        b.insert(k1, v1);
        if a == b {
            sx::check(sx::eq(&rec(&a), &rec(&b)), "equal maps hash equally");
        }
        sx::check((a == b) == (b == a), "equality is symmetric");
        // arbitrary maps of two entries
        let (k3, k4) = (sx::u32(), sx::u32());
        let (v3, v4) = (sx::u32(), sx::u32());
        sx::assume(k3 != k4);
        let mut c = HashableIndexMap::new();
        c.insert(k3, v3);
        c.insert(k4, v4);
        if a == c {
            sx::check(sx::eq(&rec(&a), &rec(&c)), "equal maps hash equally");
            let same = ((k1 == k3) & (v1 == v3) & (k2 == k4) & (v2 == v4)) | ((k1 == k4) & (v1 == v4) & (k2 == k3) & (v2 == v3));
            sx::check(same, "equal maps have the same entries");
            sx::reach("equal");
        }
        if (k1 == k3) & (v1 == v3) & (k2 == k4) & (v2 == v4) {
            sx::check(a == c, "maps with the same entries in the same order are equal");
        }
        sx::reach("end");
        return 0;
    }
    use gvas::properties::map_property::MapProperty;
    let (kk, vk) = (p.kind, MAP_VALUES[p.var as usize]);
    let q = P { n: 2, ..p };
    let k1 = leaf(kk, &q, true);
    let k2 = leaf(kk, &q, true);
    let v1 = leaf(vk, &q, true);
    let v2 = leaf(vk, &q, true);
    sx::assume(!sx::eq(&k1.body, &k2.body));
    let flags = if p.mode & 8 == 8 { 1 } else { 0 };
    let mut a = HashableIndexMap::new();
    a.insert(k1.prop.clone(), v1.prop.clone());
    a.insert(k2.prop.clone(), v2.prop.clone());
    let mut b = HashableIndexMap::new();
    b.insert(k2.prop, v2.prop);
    b.insert(k1.prop, v1.prop);
    sx::assume(a.len() == 2);
    let a: Property = MapProperty::new(type_of(kk).into(), type_of(vk).into(), flags, a).into();
    let b: Property = MapProperty::new(type_of(kk).into(), type_of(vk).into(), flags, b).into();
    if a == b {
        sx::check(sx::eq(&rec(&a), &rec(&b)), "equal map properties hash equally");
    }
    sx::check((a == b) == (b == a), "equality is symmetric");
    sx::reach("end");
    0
}

/// P12: the same entries after different histories.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_eqhistory(param: u32) -> u32 {
    let p = P::new(param);
    let vk = MAP_VALUES[p.var as usize];
    let q = P { n: 2, ..p };
    let mut es: Vec<(Property, Property)> = Vec::new();
    for _ in 0..p.n + 1 {
        let k = leaf(p.kind, &q, true).prop;
        for (o, _) in &es {
            sx::assume(*o != k);
        }
        es.push((k, leaf(vk, &q, true).prop));
    }
    let (xk, xv) = es.pop().unwrap();
    let plain = filled(HashableIndexMap::new(), &es);
    let mut roomy = filled(HashableIndexMap::with_capacity(64), &es);
    same(&plain, &roomy);
    roomy.reserve(1000);
    same(&plain, &roomy);
    // the extra entry comes and goes
    let mut h = HashableIndexMap::with_capacity(1);
    h.insert(xk.clone(), xv.clone());
    let mut h = filled(h, &es);
    h.shift_remove(&xk);
    same(&plain, &h);
    let mut h = filled(HashableIndexMap::new(), &es);
    h.insert(xk.clone(), xv.clone());
    h.pop();
    same(&plain, &h);
    // every value is replaced and restored
    let mut h = HashableIndexMap::new();
    for (k, _) in &es {
        h.insert(k.clone(), xv.clone());
    }
    let h = filled(h, &es);
    same(&plain, &h);
    let mut h = filled(HashableIndexMap::new(), &es);
    h.clear();
    let h = filled(h, &es);
    same(&plain, &h);
    same(&plain, &plain.clone());
    let g = HashableIndexMap(es.iter().cloned().collect());
    same(&plain, &g);
    if p.n == 2 {
        same(&plain, &HashableIndexMap::from([es[0].clone(), es[1].clone()]));
    }
    // one entry more
    let mut h = plain.clone();
    h.insert(xk, xv);
    sx::check(h != plain, "a map with another entry is different");
    sx::check(plain != h, "a map with another entry is different the other way round");
    sx::reach("end");
    0
}
type Entries = HashableIndexMap<Property, Property>;
fn filled(mut m: Entries, es: &[(Property, Property)]) -> Entries {
    for (k, v) in es {
        m.insert(k.clone(), v.clone());
    }
    m
}
fn same(a: &Entries, b: &Entries) {
    sx::check(a == b, "maps with the same entries are equal");
    sx::check(b == a, "maps with the same entries are equal the other way round");
    sx::check(sx::eq(&rec(a), &rec(b)), "equal maps hash equally");
    use gvas::properties::map_property::MapProperty;
    let x: Property = MapProperty::new("ObjectProperty".into(), "Int8Property".into(), 0, a.clone()).into();
    let y: Property = MapProperty::new("ObjectProperty".into(), "Int8Property".into(), 0, b.clone()).into();
    sx::check(x == y, "map properties with the same entries are equal");
    sx::check(sx::eq(&rec(&x), &rec(&y)), "equal map properties hash equally");
}
