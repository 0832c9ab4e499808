use crate::common::*;
use crate::gen_::*;
use crate::sx;
use gvas::properties::{Property, PropertyTrait};

/// Which accessor answers, by the name of the kind.
const NAMES: [&str; 25] = [
    "ArrayProperty", "EnumProperty", "BoolProperty", "ByteProperty", "DoubleProperty", "FloatProperty", "Int16Property", "Int64Property",
    "Int8Property", "IntProperty", "UInt16Property", "UInt32Property", "UInt64Property", "MapProperty", "NameProperty", "ObjectProperty",
    "DelegateProperty", "MulticastInlineDelegateProperty", "MulticastSparseDelegateProperty", "FieldPathProperty", "SetProperty",
    "StrProperty", "StructProperty", "TextProperty", "",
];
macro_rules! each {
    ($p:expr, $f:ident) => {
        [
            $f!($p, 0, get_array, get_array_mut),
            $f!($p, 1, get_enum, get_enum_mut),
            $f!($p, 2, get_bool, get_bool_mut),
            $f!($p, 3, get_byte, get_byte_mut),
            $f!($p, 4, get_f64, get_f64_mut),
            $f!($p, 5, get_f32, get_f32_mut),
            $f!($p, 6, get_i16, get_i16_mut),
            $f!($p, 7, get_i64, get_i64_mut),
            $f!($p, 8, get_i8, get_i8_mut),
            $f!($p, 9, get_int, get_int_mut),
            $f!($p, 10, get_u16, get_u16_mut),
            $f!($p, 11, get_u32, get_u32_mut),
            $f!($p, 12, get_u64, get_u64_mut),
            $f!($p, 13, get_map, get_map_mut),
            $f!($p, 14, get_name, get_name_mut),
            $f!($p, 15, get_object_ref, get_object_ref_mut),
            $f!($p, 16, get_delegate, get_delegate_mut),
            $f!($p, 17, get_multicast_inline_delegate, get_multicast_inline_delegate_mut),
            $f!($p, 18, get_multicast_sparse_delegate, get_multicast_sparse_delegate_mut),
            $f!($p, 19, get_field_path, get_field_path_mut),
            $f!($p, 20, get_set, get_set_mut),
            $f!($p, 21, get_str, get_str_mut),
            $f!($p, 22, get_struct, get_struct_mut),
            $f!($p, 23, get_text, get_text_mut),
            $f!($p, 24, get_unknown, get_unknown_mut),
        ]
    };
}
/// What the accessors yield: nothing, or the encoding of the payload, for both forms.
macro_rules! both {
    ($p:expr, $i:expr, $get:ident, $get_mut:ident) => {{
        let (v, e, head): (&mut Property, &mut Env, bool) = $p;
        let a = v.$get().map(|x| {
            let mut o: Vec<u8> = Vec::new();
            let r = x.write(&mut o, head, &mut e.opts());
            (r.is_ok(), o, Property::from(x.clone()))
        });
        let b = v.$get_mut().map(|x| {
            let mut o: Vec<u8> = Vec::new();
            let r = x.write(&mut o, head, &mut e.opts());
            (r.is_ok(), o, Property::from(x.clone()))
        });
        (a, b)
    }};
}
fn accessors(v: &mut Property, ty: &str, plain: bool, enc: &[u8], head: bool, e: &mut Env) {
    let copy = v.clone();
    let got = each!((&mut *v, &mut *e, head), both);
    for (i, (a, b)) in got.iter().enumerate() {
        let own = !plain && if i == 24 { !NAMES[..24].contains(&ty) } else { NAMES[i] == ty };
        sx::check(a.is_some() == own, "exactly the accessor of the kind yields the value");
        sx::check(b.is_some() == own, "exactly the mutable accessor of the kind yields the value");
        for x in [a, b] {
            if let Some((ok, o, q)) = x {
                sx::check(*ok && sx::eq(o, enc), "the accessor yields the value itself");
                sx::check(*q == copy, "the payload converts back into the same property");
            }
        }
    }
    sx::check(*v == copy, "looking at a value does not change it");
}
/// P20: accessors of every kind.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_access(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let c = make(&p, &mut e);
    let full = c.full();
    let mut v = c.prop;
    accessors(&mut v, &c.ty, false, &full, true, &mut e);
    sx::reach("end");
    0
}
/// P20: elements; a struct without a type is not yielded by any of them.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_access_elem(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let c = leaf(p.kind, &p, true);
    let mut v = c.prop;
    let plain = matches!(v, Property::StructPropertyValue(_));
    accessors(&mut v, &c.ty, plain, &c.body, false, &mut e);
    sx::reach("end");
    0
}
/// P20: what is assigned through a mutable accessor is the new value.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_access_set(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let a = make(&p, &mut e);
    let b = make(&p, &mut e);
    let mut v = a.prop;
    macro_rules! set {
        ($p:expr, $i:expr, $get:ident, $get_mut:ident) => {{
            let (v, n): (&mut Property, &Property) = $p;
            match (v.$get_mut(), n.$get()) {
                (Some(x), Some(y)) => {
                    *x = y.clone();
                    1u32
                }
                _ => 0u32,
            }
        }};
    }
    let n: u32 = each!((&mut v, &b.prop), set).iter().sum();
    sx::check(n == 1, "one accessor assigns");
    match write(&v, true, &mut e) {
        Ok((o, _)) => sx::check(sx::eq(&o, &b.full()), "an assigned value is written as what it is now"),
        Err(_) => sx::check(false, "an assigned value can be written"),
    }
    sx::reach("end");
    0
}
struct Num<'a>(&'a [u8], usize);
impl Num<'_> {
    fn take(&mut self, n: usize) -> u64 {
        let mut x = 0u64;
        for i in 0..n {
            x |= (self.0[self.1 + i] as u64) << (8 * i);
        }
        self.1 += n;
        x
    }
    fn f(&mut self, v: f32) -> bool {
        let x = self.take(4) as u32;
        v.to_bits() == x
    }
    fn d(&mut self, v: f64) -> bool {
        let x = self.take(8);
        v.to_bits() == x
    }
}
/// P20: the public fields of what is read hold the encoded numbers, in the documented order.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fields(param: u32) -> u32 {
    let p = P::new(param);
    let mut e = env_for(&p);
    let c = make(&p, &mut e);
    let v = match read(&c.tagged(), &c.ty, true, None, &mut e) {
        Ok((v, _)) => v,
        Err(_) => {
            sx::check(false, "a well-formed property is accepted");
            return 0;
        }
    };
    let mut b = Num(&c.body, 0);
    use gvas::properties::struct_property::StructPropertyValue as V;
    let ok = match (p.kind, &v) {
        (INT8, Property::Int8Property(x)) => x.value as u8 as u64 == b.take(1),
        (INT16, Property::Int16Property(x)) => x.value as u16 as u64 == b.take(2),
        (UINT16, Property::UInt16Property(x)) => x.value as u64 == b.take(2),
        (INT, Property::IntProperty(x)) => x.value as u32 as u64 == b.take(4),
        (UINT32, Property::UInt32Property(x)) => x.value as u64 == b.take(4),
        (INT64, Property::Int64Property(x)) => x.value as u64 == b.take(8),
        (UINT64, Property::UInt64Property(x)) => x.value == b.take(8),
        (FLOAT, Property::FloatProperty(x)) => b.f(x.value.0),
        (DOUBLE, Property::DoubleProperty(x)) => b.d(x.value.0),
        (k, Property::StructProperty(s)) => {
            let g = c.head.len() - 16;
            let head = sx::eq(&s.guid.0, &c.head[g..]) && sx::eq(s.type_name.as_bytes(), struct_type(k).as_bytes());
            let x = match (k, &s.value) {
                (VEC2F, V::Vector2F(x)) => b.f(x.x.0) & b.f(x.y.0),
                (VEC2D, V::Vector2D(x)) => b.d(x.x.0) & b.d(x.y.0),
                (VECF, V::VectorF(x)) => b.f(x.x.0) & b.f(x.y.0) & b.f(x.z.0),
                (VECD, V::VectorD(x)) => b.d(x.x.0) & b.d(x.y.0) & b.d(x.z.0),
                (ROTF, V::RotatorF(x)) => b.f(x.pitch.0) & b.f(x.yaw.0) & b.f(x.roll.0),
                (ROTD, V::RotatorD(x)) => b.d(x.pitch.0) & b.d(x.yaw.0) & b.d(x.roll.0),
                (QUATF, V::QuatF(x)) => b.f(x.x.0) & b.f(x.y.0) & b.f(x.z.0) & b.f(x.w.0),
                (QUATD, V::QuatD(x)) => b.d(x.x.0) & b.d(x.y.0) & b.d(x.z.0) & b.d(x.w.0),
                (DATETIME, V::DateTime(x)) => b.take(8) == x.ticks,
                (TIMESPAN, V::Timespan(x)) => b.take(8) == x.ticks,
                (GUID, V::Guid(x)) => sx::eq(&x.0, &c.body),
                (LINCOLOR, V::LinearColor(x)) => b.f(x.r.0) & b.f(x.g.0) & b.f(x.b.0) & b.f(x.a.0),
                (INTPOINT, V::IntPoint(x)) => (x.x as u32 as u64 == b.take(4)) & (x.y as u32 as u64 == b.take(4)),
                _ => false,
            };
            head & x & value_accessors(k, &s.value)
        }
        _ => false,
    };
    sx::check(ok, "the fields hold the encoded numbers in order");
    // the same through the constructors
    if let Property::StructProperty(s) = &v {
        let w = rebuilt(&s.value);
        if let Some(w) = w {
            let mut o: Vec<u8> = Vec::new();
            match w.write_body(&mut o, &mut e.opts()) {
                Ok(_) => sx::check(sx::eq(&o, &c.body), "a value constructed from the fields is the same value"),
                Err(_) => sx::check(false, "a constructed value can be written"),
            }
        }
    }
    sx::reach("end");
    0
}
/// Accessors of struct values: exactly the one of the kind yields something.
fn value_accessors(k: u32, v: &gvas::properties::struct_property::StructPropertyValue) -> bool {
    let mut c = v.clone();
    let a = [
        (VECF, v.get_vector_f().is_some(), c.get_vector_f_mut().is_some()),
        (VECD, v.get_vector_d().is_some(), c.get_vector_d_mut().is_some()),
        (ROTF, v.get_rotator_f().is_some(), c.get_rotator_f_mut().is_some()),
        (ROTD, v.get_rotator_d().is_some(), c.get_rotator_d_mut().is_some()),
        (QUATF, v.get_quat_f().is_some(), c.get_quat_f_mut().is_some()),
        (QUATD, v.get_quat_d().is_some(), c.get_quat_d_mut().is_some()),
        (DATETIME, v.get_date_time().is_some(), c.get_date_time_mut().is_some()),
        (INTPOINT, v.get_int_point().is_some(), c.get_int_point_mut().is_some()),
        (GUID, v.get_guid().is_some(), c.get_guid_mut().is_some()),
        (CUSTOM, v.get_custom_struct().is_some(), c.get_custom_struct_mut().is_some()),
    ];
    a.iter().all(|x| x.1 == (x.0 == k) && x.2 == (x.0 == k))
}
fn rebuilt(v: &gvas::properties::struct_property::StructPropertyValue) -> Option<gvas::properties::struct_property::StructPropertyValue> {
    use gvas::properties::struct_property::StructPropertyValue as V;
    use gvas::properties::struct_types::*;
    Some(match v {
        V::Vector2F(x) => Vector2F::new(x.x.0, x.y.0).into(),
        V::Vector2D(x) => Vector2D::new(x.x.0, x.y.0).into(),
        V::VectorF(x) => VectorF::new(x.x.0, x.y.0, x.z.0).into(),
        V::VectorD(x) => VectorD::new(x.x.0, x.y.0, x.z.0).into(),
        V::RotatorF(x) => RotatorF::new(x.pitch.0, x.yaw.0, x.roll.0).into(),
        V::RotatorD(x) => RotatorD::new(x.pitch.0, x.yaw.0, x.roll.0).into(),
        V::QuatF(x) => QuatF::new(x.x.0, x.y.0, x.z.0, x.w.0).into(),
        V::QuatD(x) => QuatD::new(x.x.0, x.y.0, x.z.0, x.w.0).into(),
        V::DateTime(x) => DateTime::new(x.ticks).into(),
        V::Timespan(x) => Timespan::new(x.ticks).into(),
        V::LinearColor(x) => LinearColor::new(x.r.0, x.g.0, x.b.0, x.a.0).into(),
        V::IntPoint(x) => IntPoint::new(x.x, x.y).into(),
        V::Guid(x) => V::from(*x),
        _ => return None,
    })
}
/// P20: conversions from text.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_from_text(param: u32) -> u32 {
    use gvas::properties::name_property::NameProperty;
    use gvas::properties::object_property::ObjectProperty;
    use gvas::properties::str_property::StrProperty;
    let p = P::new(param);
    let s = p.s();
    let mut e = Env::new();
    let all: [Property; 8] = [
        StrProperty::from(&s.s[..]).into(),
        StrProperty::from(s.s.clone()).into(),
        StrProperty::new(Some(s.s.clone())).into(),
        NameProperty::from(&s.s[..]).into(),
        NameProperty::from(s.s.clone()).into(),
        NameProperty::from(Some(s.s.clone())).into(),
        ObjectProperty::from(&s.s[..]).into(),
        ObjectProperty::new(s.s.clone()).into(),
    ];
    for v in &all {
        match write(v, false, &mut e) {
            Ok((o, _)) => sx::check(sx::eq(&o, &s.enc), "a text is converted into a property holding it"),
            Err(_) => sx::check(false, "a property made from a text can be written"),
        }
        if let Property::NameProperty(n) = v {
            sx::check(n.array_index == 0, "a name made from a text has no index");
        }
    }
    sx::reach("end");
    0
}
/// P20: engine versions are identified by their major and minor number, for all numbers.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_engine(_: u32) -> u32 {
    use gvas::engine_version::{EngineVersion as E, FEngineVersion};
    const UE4: [E; 28] = [
        E::VER_UE4_0, E::VER_UE4_1, E::VER_UE4_2, E::VER_UE4_3, E::VER_UE4_4, E::VER_UE4_5, E::VER_UE4_6, E::VER_UE4_7, E::VER_UE4_8, E::VER_UE4_9,
        E::VER_UE4_10, E::VER_UE4_11, E::VER_UE4_12, E::VER_UE4_13, E::VER_UE4_14, E::VER_UE4_15, E::VER_UE4_16, E::VER_UE4_17, E::VER_UE4_18,
        E::VER_UE4_19, E::VER_UE4_20, E::VER_UE4_21, E::VER_UE4_22, E::VER_UE4_23, E::VER_UE4_24, E::VER_UE4_25, E::VER_UE4_26, E::VER_UE4_27,
    ];
    const UE5: [E; 3] = [E::VER_UE5_0, E::VER_UE5_1, E::VER_UE5_2];
    let (ma, mi, pa, cl) = (sx::u16(), sx::u16(), sx::u16(), sx::u32());
    let v = FEngineVersion::new(ma, mi, pa, cl, String::from("b"));
    sx::check((v.major == ma) & (v.minor == mi) & (v.patch == pa) & (v.change_list == cl), "the parts of a version are kept");
    let got = v.get_version();
    let want = if ma == 4 && mi < 28 {
        UE4[sx::fork(mi as u64) as usize]
    } else if ma == 5 && mi < 3 {
        UE5[sx::fork(mi as u64) as usize]
    } else {
        E::UNKNOWN
    };
    sx::check(got == want, "a version is identified by major and minor number");
    sx::reach("end");
    0
}
