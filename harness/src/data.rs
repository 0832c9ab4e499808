//! A self-describing data model, shaped like JSON: what a format that keeps numbers and
//! strings intact holds after parsing.
use serde::de::{self, Deserialize, DeserializeOwned, DeserializeSeed, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::{self, Display};

#[derive(Clone)]
pub enum V {
    Null,
    Bool(bool),
    I(i64),
    U(u64),
    F32(f32),
    F64(f64),
    Str(String),
    Seq(Vec<V>),
    Map(Vec<(String, V)>),
}
#[derive(Debug)]
pub struct E;
impl Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("data")
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: Display>(_: T) -> E {
        E
    }
}
impl de::Error for E {
    fn custom<T: Display>(_: T) -> E {
        E
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> E {
        E
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> E {
        E
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> E {
        E
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> E {
        E
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> E {
        E
    }
    fn missing_field(_: &'static str) -> E {
        E
    }
    fn duplicate_field(_: &'static str) -> E {
        E
    }
}

pub fn store<T: Serialize + ?Sized>(x: &T) -> Result<V, E> {
    x.serialize(Ser)
}
pub fn load<T: DeserializeOwned>(v: V) -> Result<T, E> {
    T::deserialize(De(v))
}

struct Ser;
fn int(x: i64) -> V {
    if x < 0 { V::I(x) } else { V::U(x as u64) }
}
fn tagged(n: &str, v: V) -> V {
    V::Map(vec![(n.to_string(), v)])
}
struct SeqS(Vec<V>, Option<&'static str>);
struct MapS(Vec<(String, V)>, Option<String>, Option<&'static str>);
impl SeqS {
    fn done(self) -> V {
        let v = V::Seq(self.0);
        match self.1 {
            Some(n) => tagged(n, v),
            None => v,
        }
    }
}
impl MapS {
    fn done(self) -> V {
        let v = V::Map(self.0);
        match self.2 {
            Some(n) => tagged(n, v),
            None => v,
        }
    }
}
impl ser::Serializer for Ser {
    type Ok = V;
    type Error = E;
    type SerializeSeq = SeqS;
    type SerializeTuple = SeqS;
    type SerializeTupleStruct = SeqS;
    type SerializeTupleVariant = SeqS;
    type SerializeMap = MapS;
    type SerializeStruct = MapS;
    type SerializeStructVariant = MapS;
    fn serialize_bool(self, v: bool) -> Result<V, E> {
        Ok(V::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<V, E> {
        Ok(int(v as i64))
    }
    fn serialize_i16(self, v: i16) -> Result<V, E> {
        Ok(int(v as i64))
    }
    fn serialize_i32(self, v: i32) -> Result<V, E> {
        Ok(int(v as i64))
    }
    fn serialize_i64(self, v: i64) -> Result<V, E> {
        Ok(int(v))
    }
    fn serialize_u8(self, v: u8) -> Result<V, E> {
        Ok(V::U(v as u64))
    }
    fn serialize_u16(self, v: u16) -> Result<V, E> {
        Ok(V::U(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<V, E> {
        Ok(V::U(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<V, E> {
        Ok(V::U(v))
    }
    fn serialize_f32(self, v: f32) -> Result<V, E> {
        Ok(V::F32(v))
    }
    fn serialize_f64(self, v: f64) -> Result<V, E> {
        Ok(V::F64(v))
    }
    fn serialize_char(self, v: char) -> Result<V, E> {
        Ok(V::Str(String::from(v)))
    }
    fn serialize_str(self, v: &str) -> Result<V, E> {
        Ok(V::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<V, E> {
        Ok(V::Seq(v.iter().map(|x| V::U(*x as u64)).collect()))
    }
    fn serialize_none(self) -> Result<V, E> {
        Ok(V::Null)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<V, E> {
        v.serialize(Ser)
    }
    fn serialize_unit(self) -> Result<V, E> {
        Ok(V::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, E> {
        Ok(V::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<V, E> {
        Ok(V::Str(n.to_string()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<V, E> {
        v.serialize(Ser)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<V, E> {
        Ok(tagged(n, v.serialize(Ser)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqS, E> {
        Ok(SeqS(vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqS, E> {
        Ok(SeqS(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqS, E> {
        Ok(SeqS(vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<SeqS, E> {
        Ok(SeqS(vec![], Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapS, E> {
        Ok(MapS(vec![], None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<MapS, E> {
        Ok(MapS(vec![], None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<MapS, E> {
        Ok(MapS(vec![], None, Some(n)))
    }
    fn collect_str<T: Display + ?Sized>(self, v: &T) -> Result<V, E> {
        Ok(V::Str(v.to_string()))
    }
}
macro_rules! seqs {
    ($($t:ident $f:ident),*) => {$(
        impl ser::$t for SeqS {
            type Ok = V;
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
                self.0.push(v.serialize(Ser)?);
                Ok(())
            }
            fn end(self) -> Result<V, E> {
                Ok(self.done())
            }
        }
    )*};
}
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! structs {
    ($($t:ident),*) => {$(
        impl ser::$t for MapS {
            type Ok = V;
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
                self.0.push((k.to_string(), v.serialize(Ser)?));
                Ok(())
            }
            fn end(self) -> Result<V, E> {
                Ok(self.done())
            }
        }
    )*};
}
structs!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for MapS {
    type Ok = V;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        // names only, like JSON
        match k.serialize(Ser)? {
            V::Str(s) => self.1 = Some(s),
            _ => return Err(E),
        }
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let k = self.1.take().ok_or(E)?;
        self.0.push((k, v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        Ok(self.done())
    }
}

struct De(V);
struct SeqD(std::vec::IntoIter<V>);
struct MapD(std::vec::IntoIter<(String, V)>, Option<V>);
struct EnumD(String, Option<V>);
impl<'de> SeqAccess<'de> for SeqD {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some(v) => Ok(Some(s.deserialize(De(v))?)),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        None
    }
}
impl<'de> MapAccess<'de> for MapD {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                Ok(Some(s.deserialize(De(V::Str(k)))?))
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(De(self.1.take().ok_or(E)?))
    }
    fn size_hint(&self) -> Option<usize> {
        None
    }
}
impl<'de> de::EnumAccess<'de> for EnumD {
    type Error = E;
    type Variant = EnumD;
    fn variant_seed<T: DeserializeSeed<'de>>(mut self, s: T) -> Result<(T::Value, EnumD), E> {
        let n = std::mem::take(&mut self.0);
        let n: de::value::StringDeserializer<E> = n.into_deserializer();
        Ok((s.deserialize(n)?, self))
    }
}
impl<'de> de::VariantAccess<'de> for EnumD {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        match self.1 {
            None => Ok(()),
            Some(v) => Deserialize::deserialize(De(v)),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        s.deserialize(De(self.1.ok_or(E)?))
    }
    fn tuple_variant<W: Visitor<'de>>(self, _: usize, w: W) -> Result<W::Value, E> {
        match self.1 {
            Some(V::Seq(l)) => w.visit_seq(SeqD(l.into_iter())),
            _ => Err(E),
        }
    }
    fn struct_variant<W: Visitor<'de>>(self, _: &'static [&'static str], w: W) -> Result<W::Value, E> {
        match self.1 {
            Some(V::Map(l)) => w.visit_map(MapD(l.into_iter(), None)),
            _ => Err(E),
        }
    }
}
impl<'de> de::Deserializer<'de> for De {
    type Error = E;
    fn deserialize_any<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        match self.0 {
            V::Null => w.visit_unit(),
            V::Bool(b) => w.visit_bool(b),
            V::I(x) => w.visit_i64(x),
            V::U(x) => w.visit_u64(x),
            V::F32(x) => w.visit_f32(x),
            V::F64(x) => w.visit_f64(x),
            V::Str(s) => w.visit_string(s),
            V::Seq(l) => {
                let mut d = SeqD(l.into_iter());
                let r = w.visit_seq(&mut d)?;
                // like a parser, which complains about elements left over
                if d.0.next().is_some() { Err(E) } else { Ok(r) }
            }
            V::Map(l) => {
                let mut d = MapD(l.into_iter(), None);
                let r = w.visit_map(&mut d)?;
                if d.0.next().is_some() { Err(E) } else { Ok(r) }
            }
        }
    }
    fn deserialize_option<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        match self.0 {
            V::Null => w.visit_none(),
            v => w.visit_some(De(v)),
        }
    }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, _: &'static str, w: W) -> Result<W::Value, E> {
        w.visit_newtype_struct(self)
    }
    fn deserialize_enum<W: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], w: W) -> Result<W::Value, E> {
        match self.0 {
            V::Str(s) => w.visit_enum(EnumD(s, None)),
            V::Map(l) => {
                let mut i = l.into_iter();
                let (n, v) = i.next().ok_or(E)?;
                if i.next().is_some() {
                    return Err(E);
                }
                w.visit_enum(EnumD(n, Some(v)))
            }
            _ => Err(E),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
