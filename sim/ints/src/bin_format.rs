//! A compact, positional, not self-describing format (the kind used on small devices), for snapshots.
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::{self, Display};
use std::io::{Read, Write};

#[derive(Debug)]
pub struct Error(pub String);
impl Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl ser::Error for Error { fn custom<T: Display>(m: T) -> Self { Error(m.to_string()) } }
impl de::Error for Error { fn custom<T: Display>(m: T) -> Self { Error(m.to_string()) } }
impl From<std::io::Error> for Error { fn from(e: std::io::Error) -> Self { Error(e.to_string()) } }

pub struct Ser<'a>(pub &'a mut dyn Write);
pub struct De<'a>(pub &'a mut dyn Read);

macro_rules! put { ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Result<(), Error> { Ok(self.0.write_all(&v.to_le_bytes())?) } )* } }
impl<'a, 'b> ser::Serializer for &'b mut Ser<'a> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeTupleVariant = Self;
    type SerializeMap = Self; type SerializeStruct = Self; type SerializeStructVariant = Self;
    put!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64);
    fn serialize_bool(self, v: bool) -> Result<(), Error> { self.serialize_u8(v as u8) }
    fn serialize_char(self, v: char) -> Result<(), Error> { self.serialize_u32(v as u32) }
    fn serialize_str(self, v: &str) -> Result<(), Error> { self.serialize_bytes(v.as_bytes()) }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Error> { self.0.write_all(&(v.len() as u32).to_le_bytes())?; Ok(self.0.write_all(v)?) }
    fn serialize_none(self) -> Result<(), Error> { self.serialize_u8(0) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Error> { self.0.write_all(&[1])?; v.serialize(self) }
    fn serialize_unit(self) -> Result<(), Error> { Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> { Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), Error> { self.serialize_u32(i) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), Error> { self.0.write_all(&i.to_le_bytes())?; v.serialize(self) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Error> { let n = n.ok_or(Error("length needed".into()))?; self.0.write_all(&(n as u32).to_le_bytes())?; Ok(self) }
    fn serialize_tuple(self, _: usize) -> Result<Self, Error> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Error> { Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, Error> { self.0.write_all(&i.to_le_bytes())?; Ok(self) }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, Error> { self.serialize_seq(n) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Error> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, Error> { self.0.write_all(&i.to_le_bytes())?; Ok(self) }
    fn is_human_readable(&self) -> bool { false }
}
macro_rules! compound { ($($t:ident $f:ident ($($k:ty)?)),*) => { $( impl<'a, 'b> ser::$t for &'b mut Ser<'a> {
    type Ok = ();
    type Error = Error;
    fn $f<T: ?Sized + Serialize>(&mut self, $(_: $k,)? v: &T) -> Result<(), Error> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), Error> { Ok(()) }
} )* } }
compound!(SerializeSeq serialize_element (), SerializeTuple serialize_element (), SerializeTupleStruct serialize_field (), SerializeTupleVariant serialize_field (), SerializeStruct serialize_field (&'static str), SerializeStructVariant serialize_field (&'static str));
impl<'a, 'b> ser::SerializeMap for &'b mut Ser<'a> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Error> { k.serialize(&mut **self) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), Error> { Ok(()) }
}

impl<'a> De<'a> {
    fn arr<const N: usize>(&mut self) -> Result<[u8; N], Error> { let mut b = [0; N]; self.0.read_exact(&mut b)?; Ok(b) }
    fn len(&mut self) -> Result<usize, Error> { let n = u32::from_le_bytes(self.arr()?); if n > 10_000 { return Err(Error("implausible length".into())) } Ok(n as usize) }
    fn bytes(&mut self) -> Result<Vec<u8>, Error> { let n = self.len()?; let mut v = vec![0; n]; self.0.read_exact(&mut v)?; Ok(v) }
}
macro_rules! get { ($($f:ident $v:ident $t:ty),*) => { $( fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let x = <$t>::from_le_bytes(self.arr()?); v.$v(x) } )* } }
struct Elems<'b, 'a>(&'b mut De<'a>, usize);
impl<'de, 'a, 'b> SeqAccess<'de> for Elems<'b, 'a> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> { if self.1 == 0 { return Ok(None) } self.1 -= 1; s.deserialize(&mut *self.0).map(Some) }
}
impl<'de, 'a, 'b> MapAccess<'de> for Elems<'b, 'a> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> { self.next_element_seed(s) }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Error> { s.deserialize(&mut *self.0) }
}
impl<'de, 'a, 'b> EnumAccess<'de> for &'b mut De<'a> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), Error> { let i = u32::from_le_bytes(self.arr()?); let d: serde::de::value::U32Deserializer<Error> = i.into_deserializer(); Ok((s.deserialize(d)?, self)) }
}
impl<'de, 'a, 'b> VariantAccess<'de> for &'b mut De<'a> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, Error> { s.deserialize(self) }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> { v.visit_seq(Elems(self, n)) }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, Error> { v.visit_seq(Elems(self, f.len())) }
}
impl<'de, 'a, 'b> de::Deserializer<'de> for &'b mut De<'a> {
    type Error = Error;
    get!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64, deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64);
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> { Err(Error("the format does not describe itself".into())) }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { match self.arr::<1>()?[0] { 0 => v.visit_bool(false), 1 => v.visit_bool(true), _ => Err(Error("bool".into())) } }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let c = u32::from_le_bytes(self.arr()?); v.visit_char(char::from_u32(c).ok_or(Error("char".into()))?) }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_string(v) }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let b = self.bytes()?; v.visit_string(String::from_utf8(b).map_err(|e| Error(e.to_string()))?) }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_byte_buf(v) }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let b = self.bytes()?; v.visit_byte_buf(b) }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { match self.arr::<1>()?[0] { 0 => v.visit_none(), 1 => v.visit_some(self), _ => Err(Error("option".into())) } }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_unit() }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { v.visit_unit() }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { v.visit_newtype_struct(self) }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let n = self.len()?; v.visit_seq(Elems(self, n)) }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> { v.visit_seq(Elems(self, n)) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Error> { v.visit_seq(Elems(self, n)) }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let n = self.len()?; v.visit_map(Elems(self, n)) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Error> { v.visit_seq(Elems(self, f.len())) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> { v.visit_enum(self) }
    fn is_human_readable(&self) -> bool { false }
}
