//! Values of every property kind with symbolic contents, each with its expected encoding.
use crate::spec::*;
use crate::sx;
use gvas::properties::{
    Property, PropertyOptions, array_property::ArrayProperty, delegate_property::*,
    enum_property::EnumProperty, field_path_property::*, int_property::*,
    map_property::MapProperty, name_property::NameProperty, object_property::ObjectProperty,
    set_property::SetProperty, str_property::StrProperty, struct_property::*, struct_types::*,
    text_property::*, unknown_property::UnknownProperty,
};
use gvas::types::{Guid, map::HashableIndexMap};
use std::collections::HashMap;

/// Parameters of a generated value, unpacked from the job parameter.
#[derive(Clone, Copy)]
pub struct P {
    pub kind: u32,
    pub sub: u32,
    pub n: usize,
    pub sl: usize,
    pub mode: u32,
    pub var: u32,
}
pub const SIZES: [usize; 16] = [0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 33, 64, 127, 257, 1025, 70001];
impl P {
    pub fn new(p: u32) -> P {
        P {
            kind: p & 255,
            sub: (p >> 8) & 255,
            n: SIZES[(p >> 16) as usize & 15],
            sl: SIZES[(p >> 20) as usize & 15],
            mode: (p >> 24) & 15,
            var: (p >> 28) & 15,
        }
    }
    /// A text of the selected shape.
    pub fn s(&self) -> S {
        match self.mode {
            0 => S::ascii(self.sl),
            1 => self.cls(&[2]),
            2 => self.cls(&[3]),
            3 => self.cls(&[4]),
            4 => self.cls(&[1, 2]),
            5 => self.cls(&[2, 1, 4, 3]),
            6 => self.cls(&[1, 1, 1, 1, 1, 1, 1, 1, 2]),
            _ => S::lit("Fixed"),
        }
    }
    fn cls(&self, pat: &[u8]) -> S {
        let mut v = Vec::new();
        for i in 0..self.sl {
            v.push(pat[i % pat.len()]);
        }
        S::chars(&v)
    }
}

pub struct Case {
    pub ty: String,
    /// kind-specific header bytes between array index and terminator
    pub head: Vec<u8>,
    pub index: u32,
    pub body: Vec<u8>,
    pub prop: Property,
    pub elem: bool,
}
impl Case {
    fn new(ty: &str, head: B, body: B, prop: Property) -> Case {
        Case { ty: ty.to_string(), head: head.0, index: 0, body: body.0, prop, elem: false }
    }
    /// Bytes after the type name.
    pub fn tagged(&self) -> Vec<u8> {
        let mut b = B::new();
        b.u32(self.body.len() as u32).u32(self.index).raw(&self.head).u8(0).raw(&self.body);
        b.0
    }
    /// Complete encoding with type name.
    pub fn full(&self) -> Vec<u8> {
        let mut b = B::new();
        b.raw(&enc_ascii(self.ty.as_bytes())).raw(&self.tagged());
        b.0
    }
}

/// Everything a read or write needs besides the bytes.
pub struct Env {
    pub versions: HashableIndexMap<Guid, u32>,
    pub hints: HashMap<String, String>,
    pub stack: Vec<String>,
}
impl Env {
    pub fn new() -> Env {
        Env { versions: HashableIndexMap::new(), hints: HashMap::new(), stack: Vec::new() }
    }
    pub fn set(&mut self, key: [u8; 16], v: u32) {
        self.versions.insert(Guid(key), v);
    }
    pub fn opts(&mut self) -> PropertyOptions<'_> {
        PropertyOptions {
            hints: &self.hints,
            properties_stack: &mut self.stack,
            custom_versions: &self.versions,
        }
    }
}

pub const INT8: u32 = 0;
pub const INT16: u32 = 1;
pub const UINT16: u32 = 2;
pub const INT: u32 = 3;
pub const UINT32: u32 = 4;
pub const INT64: u32 = 5;
pub const UINT64: u32 = 6;
pub const FLOAT: u32 = 7;
pub const DOUBLE: u32 = 8;
pub const BOOL: u32 = 9;
pub const BYTE: u32 = 10;
pub const BYTE_NS: u32 = 11;
pub const ENUM: u32 = 12;
pub const STR: u32 = 13;
pub const STR_NULL: u32 = 14;
pub const NAME: u32 = 15;
pub const NAME_NULL: u32 = 16;
pub const OBJECT: u32 = 17;
pub const DELEGATE: u32 = 18;
pub const MC_INLINE: u32 = 19;
pub const MC_SPARSE: u32 = 20;
pub const FIELD_PATH: u32 = 21;
pub const VEC2F: u32 = 22;
pub const VEC2D: u32 = 23;
pub const VECF: u32 = 24;
pub const VECD: u32 = 25;
pub const ROTF: u32 = 26;
pub const ROTD: u32 = 27;
pub const QUATF: u32 = 28;
pub const QUATD: u32 = 29;
pub const DATETIME: u32 = 30;
pub const TIMESPAN: u32 = 31;
pub const GUID: u32 = 32;
pub const LINCOLOR: u32 = 33;
pub const INTPOINT: u32 = 34;
pub const TAGS: u32 = 35;
pub const CUSTOM: u32 = 36;
pub const UNKNOWN: u32 = 37;
pub const TEXT: u32 = 40; // 40..=60: text histories
pub const ARRAY: u32 = 64;
pub const SET: u32 = 65;
pub const MAP: u32 = 66; // sub = key kind, var selects the value kind

pub fn is_struct(kind: u32) -> bool {
    (VEC2F..=CUSTOM).contains(&kind)
}
pub fn struct_type(kind: u32) -> &'static str {
    match kind {
        VEC2F | VEC2D => "Vector2D",
        VECF | VECD => "Vector",
        ROTF | ROTD => "Rotator",
        QUATF | QUATD => "Quat",
        DATETIME => "DateTime",
        TIMESPAN => "Timespan",
        GUID => "Guid",
        LINCOLOR => "LinearColor",
        INTPOINT => "IntPoint",
        TAGS => "GameplayTagContainer",
        _ => "MyStruct",
    }
}
pub fn type_of(kind: u32) -> &'static str {
    match kind {
        INT8 => "Int8Property",
        INT16 => "Int16Property",
        UINT16 => "UInt16Property",
        INT => "IntProperty",
        UINT32 => "UInt32Property",
        INT64 => "Int64Property",
        UINT64 => "UInt64Property",
        FLOAT => "FloatProperty",
        DOUBLE => "DoubleProperty",
        BOOL => "BoolProperty",
        BYTE | BYTE_NS => "ByteProperty",
        ENUM => "EnumProperty",
        STR | STR_NULL => "StrProperty",
        NAME | NAME_NULL => "NameProperty",
        OBJECT => "ObjectProperty",
        DELEGATE => "DelegateProperty",
        MC_INLINE => "MulticastInlineDelegateProperty",
        MC_SPARSE => "MulticastSparseDelegateProperty",
        FIELD_PATH => "FieldPathProperty",
        UNKNOWN => "MysteryProperty",
        ARRAY => "ArrayProperty",
        SET => "SetProperty",
        MAP => "MapProperty",
        k if is_struct(k) => "StructProperty",
        _ => "TextProperty",
    }
}

/// Versions the kind needs: `Some(true)` double precision, `Some(false)` single precision.
pub fn lwc(kind: u32) -> Option<bool> {
    match kind {
        VEC2F | VECF | ROTF | QUATF => Some(false),
        VEC2D | VECD | ROTD | QUATD => Some(true),
        _ => None,
    }
}
/// The file's versions for this value: an arbitrary number on the right side of the switch.
pub fn env_for(p: &P) -> Env {
    let mut e = Env::new();
    let k = if p.kind == ARRAY || p.kind == SET || p.kind == MAP { p.sub } else { p.kind };
    match lwc(k) {
        Some(true) => {
            let v = sx::u32();
            sx::assume(v >= LWC);
            e.set(UE5_RELEASE, v);
        }
        Some(false) if p.var & 1 == 1 => {
            let v = sx::u32();
            sx::assume(v < LWC);
            e.set(UE5_RELEASE, v);
        }
        _ => {}
    }
    if k >= TEXT && k < ARRAY {
        let k = if k == p.kind { deciding(p) } else { k };
        let w = text_wide(k);
        if let Some(w) = w {
            if w {
                let v = sx::u32();
                sx::assume(v >= TEXT64);
                e.set(UE5_RELEASE, v);
            } else if p.var & 1 == 1 {
                let v = sx::u32();
                sx::assume(v < TEXT64);
                e.set(UE5_RELEASE, v);
            }
        }
        match text_culture(k) {
            Some(true) => {
                let v = sx::u32();
                sx::assume(v >= CULTURE);
                e.set(EDITOR, v);
            }
            Some(false) if p.var & 1 == 1 => {
                let v = sx::u32();
                sx::assume(v < CULTURE);
                e.set(EDITOR, v);
            }
            _ => {}
        }
    }
    e
}

fn f32s() -> (f32, u32) {
    let b = sx::u32();
    (f32::from_bits(b), b)
}
fn f64s() -> (f64, u64) {
    let b = sx::u64();
    (f64::from_bits(b), b)
}

pub fn struct_value(kind: u32, p: &P) -> (StructPropertyValue, B) {
    let mut b = B::new();
    let v = match kind {
        VEC2F => {
            let (x, xb) = f32s();
            let (y, yb) = f32s();
            b.u32(xb).u32(yb);
            Vector2F::new(x, y).into()
        }
        VEC2D => {
            let (x, xb) = f64s();
            let (y, yb) = f64s();
            b.u64(xb).u64(yb);
            Vector2D::new(x, y).into()
        }
        VECF => {
            let (x, xb) = f32s();
            let (y, yb) = f32s();
            let (z, zb) = f32s();
            b.u32(xb).u32(yb).u32(zb);
            VectorF::new(x, y, z).into()
        }
        VECD => {
            let (x, xb) = f64s();
            let (y, yb) = f64s();
            let (z, zb) = f64s();
            b.u64(xb).u64(yb).u64(zb);
            VectorD::new(x, y, z).into()
        }
        ROTF => {
            let (x, xb) = f32s();
            let (y, yb) = f32s();
            let (z, zb) = f32s();
            b.u32(xb).u32(yb).u32(zb);
            let r = RotatorF { pitch: x.into(), yaw: y.into(), roll: z.into() };
            r.into()
        }
        ROTD => {
            let (x, xb) = f64s();
            let (y, yb) = f64s();
            let (z, zb) = f64s();
            b.u64(xb).u64(yb).u64(zb);
            let r = RotatorD { pitch: x.into(), yaw: y.into(), roll: z.into() };
            r.into()
        }
        QUATF => {
            let (x, xb) = f32s();
            let (y, yb) = f32s();
            let (z, zb) = f32s();
            let (w, wb) = f32s();
            b.u32(xb).u32(yb).u32(zb).u32(wb);
            QuatF { x: x.into(), y: y.into(), z: z.into(), w: w.into() }.into()
        }
        QUATD => {
            let (x, xb) = f64s();
            let (y, yb) = f64s();
            let (z, zb) = f64s();
            let (w, wb) = f64s();
            b.u64(xb).u64(yb).u64(zb).u64(wb);
            QuatD { x: x.into(), y: y.into(), z: z.into(), w: w.into() }.into()
        }
        DATETIME => {
            let t = sx::u64();
            b.u64(t);
            DateTime { ticks: t }.into()
        }
        TIMESPAN => {
            let t = sx::u64();
            b.u64(t);
            Timespan { ticks: t }.into()
        }
        GUID => {
            let g: [u8; 16] = sx::guid();
            b.raw(&g);
            Guid(g).into()
        }
        LINCOLOR => {
            let (x, xb) = f32s();
            let (y, yb) = f32s();
            let (z, zb) = f32s();
            let (w, wb) = f32s();
            b.u32(xb).u32(yb).u32(zb).u32(wb);
            LinearColor { r: x.into(), g: y.into(), b: z.into(), a: w.into() }.into()
        }
        INTPOINT => {
            let (x, y) = (sx::u32(), sx::u32());
            b.u32(x).u32(y);
            IntPoint { x: x as i32, y: y as i32 }.into()
        }
        TAGS => {
            b.u32(p.n as u32);
            let mut v = Vec::new();
            for i in 0..p.n {
                let s = within(i, p.n, || p.s());
                b.s(&s);
                v.push(s.s);
            }
            StructPropertyValue::GameplayTagContainer(v)
        }
        _ => {
            // a struct with members of several kinds; the member names are fixed and distinct
            let mut m = HashableIndexMap::new();
            for i in 0..p.n {
                let k = [INT, STR, BOOL, NAME, FLOAT, BYTE, UINT64, ENUM][i % 8];
                let mut c = within(i, p.n, || leaf(k, p, false));
                unindexed(&mut c);
                let name = format_name(i);
                b.lit(&name).raw(&c.full());
                m.insert(name, vec![c.prop]);
            }
            b.lit("None");
            StructPropertyValue::CustomStruct(m)
        }
    };
    (v, b)
}
/// Long lists have arbitrary contents only in the first and the last element.
pub fn inner(i: usize, n: usize) -> bool {
    n > 8 && i > 0 && i + 1 < n
}
/// Distinct numbers below 2^14 in no particular order.
pub fn scatter(i: usize) -> u32 {
    (i as u32 * 4051 + 1) & 0x3fff
}
pub fn within<T>(i: usize, n: usize, f: impl FnOnce() -> T) -> T {
    let was = sx::pinned();
    if inner(i, n) {
        sx::pin_to(scatter(i));
    }
    let r = f();
    if !was {
        sx::pin(false);
    }
    r
}
/// Members of generated structs are not static arrays.
pub fn unindexed(c: &mut Case) {
    if let Property::NameProperty(n) = &mut c.prop {
        n.array_index = 0;
        c.index = 0;
    }
}
pub fn format_name(i: usize) -> String {
    let mut s = String::from("m");
    s.push((b'a' + (i / 16 % 16) as u8) as char);
    s.push((b'a' + (i % 16) as u8) as char);
    s.push((b'a' + (i / 256 % 16) as u8) as char);
    s.push((b'a' + (i / 4096) as u8) as char);
    s
}

/// A value of a kind without nested containers; `elem` gives the form used inside containers.
pub fn leaf(kind: u32, p: &P, elem: bool) -> Case {
    let mut h = B::new();
    let mut b = B::new();
    let prop: Property = match kind {
        INT8 => {
            let x = sx::u8();
            b.u8(x);
            Int8Property::new(x as i8).into()
        }
        INT16 => {
            let x = sx::u16();
            b.u16(x);
            Int16Property::new(x as i16).into()
        }
        UINT16 => {
            let x = sx::u16();
            b.u16(x);
            UInt16Property::new(x).into()
        }
        INT => {
            let x = sx::u32();
            b.u32(x);
            IntProperty::new(x as i32).into()
        }
        UINT32 => {
            let x = sx::u32();
            b.u32(x);
            UInt32Property::new(x).into()
        }
        INT64 => {
            let x = sx::u64();
            b.u64(x);
            Int64Property::new(x as i64).into()
        }
        UINT64 => {
            let x = sx::u64();
            b.u64(x);
            UInt64Property::new(x).into()
        }
        FLOAT => {
            let (x, xb) = f32s();
            b.u32(xb);
            FloatProperty::new(x).into()
        }
        DOUBLE => {
            let (x, xb) = f64s();
            b.u64(xb);
            DoubleProperty::new(x).into()
        }
        BOOL => {
            let x = sx::u8();
            sx::assume(x < 2);
            if elem {
                b.u8(x);
            } else {
                h.u8(x);
            }
            BoolProperty::new(x == 1).into()
        }
        BYTE | BYTE_NS => {
            let name = if elem {
                None
            } else {
                let s = p.s();
                h.s(&s);
                Some(s.s)
            };
            let value = if kind == BYTE {
                let x = sx::u8();
                b.u8(x);
                BytePropertyValue::Byte(x)
            } else {
                let s = p.s();
                b.s(&s);
                BytePropertyValue::Namespaced(s.s)
            };
            ByteProperty { name, value }.into()
        }
        ENUM => {
            let t = if elem {
                None
            } else {
                let s = p.s();
                h.s(&s);
                Some(s.s)
            };
            let s = p.s();
            b.s(&s);
            EnumProperty::new(t, s.s).into()
        }
        STR => {
            let s = p.s();
            b.s(&s);
            StrProperty::new(Some(s.s)).into()
        }
        STR_NULL => {
            b.u32(0);
            StrProperty::new(None).into()
        }
        NAME | NAME_NULL => {
            let array_index = if elem { 0 } else { sx::u32() };
            let value = if kind == NAME {
                let s = p.s();
                b.s(&s);
                Some(s.s)
            } else {
                b.u32(0);
                None
            };
            let mut c = Case::new("NameProperty", h, b, NameProperty { array_index, value }.into());
            c.index = array_index;
            c.elem = elem;
            return c;
        }
        OBJECT => {
            let s = p.s();
            b.s(&s);
            ObjectProperty::new(s.s).into()
        }
        DELEGATE => {
            let d = delegate(p, &mut b);
            DelegateProperty::new(d).into()
        }
        MC_INLINE | MC_SPARSE => {
            b.u32(p.n as u32);
            let mut v = Vec::new();
            for i in 0..p.n {
                v.push(within(i, p.n, || delegate(p, &mut b)));
            }
            let d = MulticastScriptDelegate::new(v);
            if kind == MC_INLINE {
                MulticastInlineDelegateProperty::new(d).into()
            } else {
                MulticastSparseDelegateProperty::new(d).into()
            }
        }
        FIELD_PATH => {
            b.u32(p.n as u32);
            let mut v = Vec::new();
            for i in 0..p.n {
                let s = within(i, p.n, || p.s());
                b.s(&s);
                v.push(s.s);
            }
            let o = p.s();
            b.s(&o);
            FieldPathProperty::new(FieldPath::new(v, o.s)).into()
        }
        UNKNOWN => {
            let raw = sx::vec(p.n);
            b.raw(&raw);
            UnknownProperty::new("MysteryProperty".into(), raw).into()
        }
        k if is_struct(k) => {
            let (v, vb) = struct_value(k, p);
            if elem {
                let mut c = Case::new("StructProperty", h, vb, v.into());
                c.elem = true;
                return c;
            }
            let t = struct_type(k);
            let g: [u8; 16] = sx::guid();
            h.lit(t).raw(&g);
            return Case::new("StructProperty", h, vb, StructProperty::new(Guid(g), t.into(), v).into());
        }
        k => {
            let t = text(k, p, &mut b);
            TextProperty::new(t).into()
        }
    };
    let mut c = Case::new(type_of(kind), h, b, prop);
    c.elem = elem;
    c
}
fn delegate(p: &P, b: &mut B) -> Delegate {
    let o = p.s();
    let f = p.s();
    b.s(&o).s(&f);
    Delegate::new(o.s, f.s)
}

// ---- text ------------------------------------------------------------
pub const T_EMPTY_OLD: u32 = 40;
pub const T_EMPTY: u32 = 41;
pub const T_NONE: u32 = 42;
pub const T_NONE_NULL: u32 = 43;
pub const T_BASE: u32 = 44;
pub const T_BASE_NULL: u32 = 45;
pub const T_NAMED: u32 = 46;
pub const T_NAMED64: u32 = 47;
pub const T_ORDERED: u32 = 48;
pub const T_ORDERED64: u32 = 49;
pub const T_ARGS: u32 = 50;
pub const T_NUMBER: u32 = 51;
pub const T_NUMBER_OPT: u32 = 52;
pub const T_PERCENT: u32 = 53;
pub const T_CURRENCY: u32 = 54;
pub const T_DATE: u32 = 55;
pub const T_TIME: u32 = 56;
pub const T_DATETIME: u32 = 57;
pub const T_TRANSFORM: u32 = 58;
pub const T_TABLE: u32 = 59;
pub const T_ARGS64: u32 = 60;
/// Formats whose source and arguments are texts of the kind in `P::sub`.
pub const T_NEST: u32 = 61;
pub const T_NEST2: u32 = 62;
pub const T_NEST3: u32 = 63;
/// The kind that decides which versions the value fits.
pub fn deciding(p: &P) -> u32 {
    if (p.kind == T_TRANSFORM || (p.kind >= T_NEST && p.kind < ARRAY)) && p.sub >= TEXT { p.sub } else { p.kind }
}

pub fn text_wide(k: u32) -> Option<bool> {
    match k {
        T_NAMED64 | T_ORDERED64 | T_ARGS64 => Some(true),
        T_NAMED | T_ORDERED | T_ARGS | T_NUMBER | T_PERCENT | T_CURRENCY | T_NUMBER_OPT => Some(false),
        _ => None,
    }
}
pub fn text_culture(k: u32) -> Option<bool> {
    match k {
        T_EMPTY | T_NONE | T_NONE_NULL => Some(true),
        T_EMPTY_OLD => Some(false),
        _ => None,
    }
}
fn opt(p: &P, null: bool, b: &mut B) -> Option<String> {
    if null {
        b.u32(0);
        None
    } else {
        let s = p.s();
        b.s(&s);
        Some(s.s)
    }
}
fn sub_text(p: &P, b: &mut B) -> Box<FText> {
    Box::new(text(if p.sub == 0 { T_BASE } else { p.sub }, &P { sub: 0, ..*p }, b))
}
fn arg(i: usize, wide: bool, p: &P, b: &mut B) -> FormatArgumentValue {
    match i % 5 {
        0 if wide => {
            let x = sx::u64();
            b.u8(0).u64(x);
            FormatArgumentValue::Int64(x as i64)
        }
        0 => {
            let x = sx::u32();
            b.u8(0).u32(x);
            FormatArgumentValue::Int(x as i32)
        }
        1 if wide => {
            let x = sx::u64();
            b.u8(1).u64(x);
            FormatArgumentValue::UInt64(x)
        }
        1 => {
            let x = sx::u32();
            b.u8(1).u32(x);
            FormatArgumentValue::UInt(x)
        }
        2 => {
            let (x, xb) = f32s();
            b.u8(2).u32(xb);
            FormatArgumentValue::Float(x.into())
        }
        3 => {
            let (x, xb) = f64s();
            b.u8(3).u64(xb);
            FormatArgumentValue::Double(x.into())
        }
        _ => {
            b.u8(4);
            FormatArgumentValue::Text(text(T_TABLE, p, b))
        }
    }
}
fn options(some: bool, b: &mut B) -> Option<NumberFormattingOptions> {
    b.u32(some as u32);
    if !some {
        return None;
    }
    let (s, g, r) = (sx::u8(), sx::u8(), sx::u8());
    sx::assume((s < 2) & (g < 2) & (r < 7));
    let d = [sx::u32(), sx::u32(), sx::u32(), sx::u32()];
    b.u32(s as u32).u32(g as u32).u8(r).u32(d[0]).u32(d[1]).u32(d[2]).u32(d[3]);
    Some(NumberFormattingOptions {
        always_include_sign: s == 1,
        use_grouping: g == 1,
        rounding_mode: match sx::fork(r as u64) {
            0 => RoundingMode::HalfToEven,
            1 => RoundingMode::HalfFromZero,
            2 => RoundingMode::HalfToZero,
            3 => RoundingMode::FromZero,
            4 => RoundingMode::ToZero,
            5 => RoundingMode::ToNegativeInfinity,
            _ => RoundingMode::ToPositiveInfinity,
        },
        minimum_integral_digits: d[0] as i32,
        maximum_integral_digits: d[1] as i32,
        minimum_fractional_digits: d[2] as i32,
        maximum_fractional_digits: d[3] as i32,
    })
}
fn style(b: &mut B) -> DateTimeStyle {
    let r = sx::u8();
    sx::assume(r < 5);
    b.u8(r);
    match sx::fork(r as u64) {
        0 => DateTimeStyle::Default,
        1 => DateTimeStyle::Short,
        2 => DateTimeStyle::Medium,
        3 => DateTimeStyle::Long,
        _ => DateTimeStyle::Full,
    }
}
pub fn text(kind: u32, p: &P, b: &mut B) -> FText {
    let flags = sx::u32();
    b.u32(flags);
    let i = p.var as usize / 2;
    let history = match kind {
        T_EMPTY_OLD => {
            b.u8(255);
            FTextHistory::Empty {}
        }
        T_EMPTY => {
            b.u8(255).u32(0);
            FTextHistory::Empty {}
        }
        T_NONE | T_NONE_NULL => {
            b.u8(255).u32(1);
            FTextHistory::None { culture_invariant_string: opt(p, kind == T_NONE_NULL, b) }
        }
        T_BASE | T_BASE_NULL => {
            b.u8(0);
            // each of the three parts is null in one of the variants
            let nul = kind == T_BASE_NULL;
            FTextHistory::Base {
                namespace: opt(p, nul && i != 0, b),
                key: opt(p, nul && i != 1, b),
                source_string: opt(p, nul && i != 2, b),
            }
        }
        T_NAMED | T_NAMED64 | T_ARGS | T_ARGS64 => {
            let args = kind == T_ARGS || kind == T_ARGS64;
            b.u8(if args { 3 } else { 1 });
            let source_format = sub_text(&P { sub: 0, ..*p }, b);
            b.u32(p.n as u32);
            let mut arguments = HashableIndexMap::new();
            for j in 0..p.n {
                let k = format_name(j);
                b.lit(&k);
                arguments.insert(k, within(j, p.n, || arg(i + j, kind == T_NAMED64 || kind == T_ARGS64, p, b)));
            }
            if args {
                FTextHistory::ArgumentFormat { source_format, arguments }
            } else {
                FTextHistory::NamedFormat { source_format, arguments }
            }
        }
        T_ORDERED | T_ORDERED64 => {
            b.u8(2);
            let source_format = sub_text(&P { sub: 0, ..*p }, b);
            b.u32(p.n as u32);
            let mut arguments = Vec::new();
            for j in 0..p.n {
                arguments.push(within(j, p.n, || arg(i + j, kind == T_ORDERED64, p, b)));
            }
            FTextHistory::OrderedFormat { source_format, arguments }
        }
        T_NUMBER | T_NUMBER_OPT | T_PERCENT => {
            b.u8(if kind == T_PERCENT { 5 } else { 4 });
            let source_value = Box::new(arg(i, false, p, b));
            let format_options = options(kind != T_NUMBER, b);
            let target_culture = opt(p, kind == T_NUMBER, b);
            if kind == T_PERCENT {
                FTextHistory::AsPercent { source_value, format_options, target_culture }
            } else {
                FTextHistory::AsNumber { source_value, format_options, target_culture }
            }
        }
        T_CURRENCY => {
            b.u8(6);
            let currency_code = opt(p, i & 1 == 1, b);
            let source_value = Box::new(arg(i, false, p, b));
            let format_options = options(i & 1 == 0, b);
            let target_culture = opt(p, i & 2 == 2, b);
            FTextHistory::AsCurrency { currency_code, source_value, format_options, target_culture }
        }
        T_NEST => {
            b.u8(1);
            let source_format = sub_text(p, b);
            b.u32(2);
            let mut arguments = HashableIndexMap::new();
            b.lit("a").u8(4);
            arguments.insert("a".to_string(), FormatArgumentValue::Text(*sub_text(p, b)));
            b.lit("b");
            arguments.insert("b".to_string(), arg(2, false, p, b));
            FTextHistory::NamedFormat { source_format, arguments }
        }
        T_NEST2 => {
            b.u8(2);
            let source_format = Box::new(text(T_TABLE, p, b));
            b.u32(3).u8(4);
            let a = FormatArgumentValue::Text(text(T_TRANSFORM, p, b));
            b.u8(4);
            let c = FormatArgumentValue::Text(*sub_text(p, b));
            let arguments = vec![a, c, arg(3, false, p, b)];
            FTextHistory::OrderedFormat { source_format, arguments }
        }
        T_NEST3 => {
            b.u8(3);
            let source_format = Box::new(text(T_NEST, p, b));
            b.u32(1).lit("a").u8(4);
            let mut arguments = HashableIndexMap::new();
            arguments.insert("a".to_string(), FormatArgumentValue::Text(*sub_text(p, b)));
            FTextHistory::ArgumentFormat { source_format, arguments }
        }
        T_DATE => {
            b.u8(7);
            let t = sx::u64();
            b.u64(t);
            let date_style = style(b);
            let c = p.s();
            b.s(&c);
            FTextHistory::AsDate { date_time: DateTime { ticks: t }, date_style, target_culture: c.s }
        }
        T_TIME => {
            b.u8(8);
            let t = sx::u64();
            b.u64(t);
            let time_style = style(b);
            let z = p.s();
            let c = p.s();
            b.s(&z).s(&c);
            FTextHistory::AsTime {
                source_date_time: DateTime { ticks: t },
                time_style,
                time_zone: z.s,
                target_culture: c.s,
            }
        }
        T_DATETIME => {
            b.u8(9);
            let t = sx::u64();
            b.u64(t);
            let date_style = style(b);
            let time_style = style(b);
            let z = p.s();
            let c = p.s();
            b.s(&z).s(&c);
            FTextHistory::AsDateTime {
                source_date_time: DateTime { ticks: t },
                date_style,
                time_style,
                time_zone: z.s,
                target_culture: c.s,
            }
        }
        T_TRANSFORM => {
            b.u8(10);
            let source_text = sub_text(p, b);
            let r = sx::u8();
            sx::assume(r < 2);
            b.u8(r);
            let transform_type = match sx::fork(r as u64) {
                0 => TransformType::ToLower,
                _ => TransformType::ToUpper,
            };
            FTextHistory::Transform { source_text, transform_type }
        }
        _ => {
            b.u8(11);
            let t = p.s();
            let k = p.s();
            b.s(&t).s(&k);
            FTextHistory::StringTableEntry { table_id: t.s, key: k.s }
        }
    };
    FText { flags, history }
}

// ---- containers --------------------------------------------------------
/// Value kinds of generated maps, selected by `P::var`.
pub const MAP_VALUES: [u32; 16] = [
    BOOL, INT, STR, NAME, ENUM, FLOAT, STR_NULL, OBJECT, INT64, VECF, BYTE, UINT64, TEXT + 19, DATETIME, INT8, CUSTOM,
];
pub fn make(p: &P, e: &mut Env) -> Case {
    match p.kind {
        ARRAY => {
            let ty = type_of(p.sub);
            let mut h = B::new();
            h.lit(ty);
            let mut items = Vec::new();
            let mut ib = B::new();
            for i in 0..p.n {
                let c = within(i, p.n, || leaf(p.sub, &P { n: 2, sub: 0, ..*p }, true));
                ib.raw(&c.body);
                items.push(c.prop);
            }
            let mut b = B::new();
            b.u32(p.n as u32);
            let info = if is_struct(p.sub) {
                let f = p.s();
                let g: [u8; 16] = sx::guid();
                let t = struct_type(p.sub);
                b.s(&f).lit("StructProperty").u64(ib.len() as u64).lit(t).raw(&g).u8(0);
                Some((f.s, t.to_string(), Guid(g)))
            } else {
                None
            };
            b.raw(&ib.0);
            let prop = match ArrayProperty::new(ty.to_string(), info, items) {
                Ok(a) => a,
                Err(_) => {
                    sx::check(false, "array of matching elements can be built");
                    sx::assume(false);
                    unreachable!()
                }
            };
            Case::new("ArrayProperty", h, b, prop.into())
        }
        SET => {
            let ty = type_of(p.sub);
            if is_struct(p.sub) {
                e.hints.insert("SetProperty.StructProperty".into(), struct_type(p.sub).into());
            }
            let mut h = B::new();
            h.lit(ty);
            let flags = sx::u32();
            let mut b = B::new();
            b.u32(flags).u32(p.n as u32);
            let mut items = Vec::new();
            for i in 0..p.n {
                let c = within(i, p.n, || leaf(p.sub, &P { n: 2, sub: 0, ..*p }, true));
                b.raw(&c.body);
                items.push(c.prop);
            }
            Case::new("SetProperty", h, b, SetProperty::new(ty.into(), flags, items).into())
        }
        MAP => {
            let vk = MAP_VALUES[p.var as usize];
            let (kt, vt) = (type_of(p.sub), type_of(vk));
            if is_struct(p.sub) {
                e.hints.insert("MapProperty.Key.StructProperty".into(), struct_type(p.sub).into());
            }
            if is_struct(vk) {
                e.hints.insert("MapProperty.Value.StructProperty".into(), struct_type(vk).into());
            }
            let mut h = B::new();
            h.lit(kt).lit(vt);
            // mode bit 3: arbitrary flags instead of zero
            let flags = if p.mode & 8 == 8 { sx::u32() } else { 0 };
            let q = P { n: 2, mode: p.mode & 7, ..*p };
            let mut b = B::new();
            b.u32(flags).u32(p.n as u32);
            let mut m = HashableIndexMap::new();
            let mut keys: Vec<Vec<u8>> = Vec::new();
            for i in 0..p.n {
                if inner(i, p.n) {
                    sx::pin_to(scatter(i));
                }
                let k = leaf(p.sub, &q, true);
                if inner(i, p.n) {
                    sx::pin(false);
                }
                // distinct keys, as the format requires
                for o in &keys {
                    if o.len() == k.body.len() && !inner(i, p.n) {
                        sx::assume(!sx::eq(o, &k.body));
                    }
                }
                let v = within(i, p.n, || leaf(vk, &q, true));
                b.raw(&k.body).raw(&v.body);
                keys.push(k.body);
                m.insert(k.prop, v.prop);
            }
            sx::assume(m.len() == p.n);
            let mp = MapProperty::new(kt.into(), vt.into(), flags, m);
            Case::new("MapProperty", h, b, mp.into())
        }
        k => leaf(k, p, false),
    }
}

// ---- nesting -----------------------------------------------------------
pub fn custom(name: &str, members: Vec<(String, Vec<u8>, Property)>) -> Case {
    let mut h = B::new();
    let g: [u8; 16] = sx::guid();
    h.lit(name).raw(&g);
    let mut b = B::new();
    let mut m: HashableIndexMap<String, Vec<Property>> = HashableIndexMap::new();
    for (n, enc, p) in members {
        b.lit(&n).raw(&enc);
        m.entry(n).or_default().push(p);
    }
    b.lit("None");
    let v = StructPropertyValue::CustomStruct(m);
    Case::new("StructProperty", h, b, StructProperty::new(Guid(g), name.into(), v).into())
}
/// Struct types with an encoding of their own.
pub const STRUCT_NAMES: [&str; 10] =
    ["Vector", "Vector2D", "Rotator", "Quat", "DateTime", "Timespan", "LinearColor", "IntPoint", "Guid", "GameplayTagContainer"];
/// A text different from all of `not` and from those made before.
pub fn fresh(p: &P, not: &[&str], before: &mut Vec<Vec<u8>>) -> S {
    let s = p.s();
    for o in not.iter().map(|x| x.as_bytes()).chain(before.iter().map(|x| &x[..])) {
        if o.len() == s.s.len() {
            sx::assume(!sx::eq(o, s.s.as_bytes()));
        }
    }
    before.push(s.s.as_bytes().to_vec());
    s
}
/// Further lengths of names, by the same index as `SIZES`.
pub const MORE: [usize; 16] = [6, 9, 10, 11, 12, 13, 14, 15, 18, 19, 20, 24, 31, 32, 40, 48];
pub fn more(p: &P) -> P {
    let i = SIZES.iter().position(|x| *x == p.sl).unwrap_or(0);
    P { sl: MORE[i], ..*p }
}
/// A struct of arbitrary type with `n` members of arbitrary names. Kinds start at `kind`, `sub` is the
/// index of the length of the type name (from 16 on the length itself, plus 16), `mode` and `sl`
/// describe the member names, `var` bit 1 selects the other table of lengths.
pub fn members(p: &P, kinds: &[u32]) -> Case {
    let tl = if p.sub >= 16 { p.sub as usize - 16 } else { SIZES[p.sub as usize] };
    let t = fresh(&P { sl: tl, mode: 0, ..*p }, &STRUCT_NAMES, &mut Vec::new());
    let p = &if p.var & 2 == 2 { more(p) } else { *p };
    let g: [u8; 16] = sx::guid();
    let mut h = B::new();
    h.s(&t).raw(&g);
    let mut b = B::new();
    let mut m: HashableIndexMap<String, Vec<Property>> = HashableIndexMap::new();
    let mut before = Vec::new();
    for i in 0..p.n {
        let k = kinds[(p.kind as usize + i) % kinds.len()];
        let mut c = leaf(k, &P { n: 2, sl: 2, mode: 0, ..*p }, false);
        unindexed(&mut c);
        let s = fresh(p, &["None"], &mut before);
        b.s(&s).raw(&c.full());
        m.insert(s.s, vec![c.prop]);
    }
    b.lit("None");
    Case::new("StructProperty", h, b, StructProperty::new(Guid(g), t.s, StructPropertyValue::CustomStruct(m)).into())
}
/// The value described by `p` inside a struct inside an array of structs, with siblings.
/// Number of structs around the value, by `var` from 8 on (kinds that do not use it themselves).
pub fn levels(p: &P) -> usize {
    if p.kind == MAP || p.var < 8 || (p.kind >= TEXT && p.kind < ARRAY) {
        return 0;
    }
    [2, 5, 10, 20][(p.var as usize - 8) / 2]
}
pub fn nested(p: &P) -> (Case, Env) {
    let mut e = env_for(p);
    let mut c = make(p, &mut e);
    unindexed(&mut c);
    let d = levels(p);
    for i in 0..d {
        let y = within(i + 1, 99, || leaf(INT, p, false));
        let x = ("D".to_string(), c.full(), c.prop);
        c = custom("Level", vec![x, ("y".into(), y.full(), y.prop)]);
    }
    let hints: Vec<(String, String)> = e.hints.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (k, v) in hints {
        let mut s = String::from("ArrayProperty.In.StructProperty.V.");
        for _ in 0..d {
            s.push_str("StructProperty.D.");
        }
        s.push_str(&k);
        e.hints.insert(s, v);
    }
    let q = P { sl: 2, n: 1, mode: 0, ..*p };
    let a = leaf(UINT16, &q, false);
    let z = leaf(STR, &q, false);
    let inner = custom(
        "Inner",
        vec![("A".into(), a.full(), a.prop), ("V".into(), c.full(), c.prop), ("Z".into(), z.full(), z.prop)],
    );
    // array of one outer struct whose single member is the inner struct
    let mut eb = B::new();
    eb.lit("In").raw(&inner.full()).lit("None");
    let mut m = HashableIndexMap::new();
    m.insert("In".to_string(), vec![inner.prop]);
    let sv = StructPropertyValue::CustomStruct(m);
    let g: [u8; 16] = sx::guid();
    let mut b = B::new();
    b.u32(1).lit("Fld").lit("StructProperty").u64(eb.len() as u64).lit("Outer").raw(&g).u8(0).raw(&eb.0);
    let mut h = B::new();
    h.lit("StructProperty");
    let ap = ArrayProperty::Structs { field_name: "Fld".into(), type_name: "Outer".into(), guid: Guid(g), structs: vec![sv] };
    (Case::new("ArrayProperty", h, b, ap.into()), e)
}
