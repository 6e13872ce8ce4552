//! A compact, not self-describing binary serde format: fixed width little endian numbers, lengths as u64,
//! variants as u32. It stands for the binary formats users save trees with (none is in the crate cache).
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::io::{Read, Write};

#[derive(Debug)]
pub enum Error { Io(std::io::Error), Msg(String) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self { Error::Io(e) => write!(f, "{}", e), Error::Msg(m) => write!(f, "{}", m) } } }
impl std::error::Error for Error {}
impl ser::Error for Error { fn custom<T: std::fmt::Display>(m: T) -> Self { Error::Msg(m.to_string()) } }
impl de::Error for Error { fn custom<T: std::fmt::Display>(m: T) -> Self { Error::Msg(m.to_string()) } }
impl From<std::io::Error> for Error { fn from(e: std::io::Error) -> Self { Error::Io(e) } }
type R<T> = Result<T, Error>;

pub struct Ser<W: Write>(pub W);
macro_rules! num { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> R<()> { self.0.write_all(&v.to_le_bytes())?; Ok(()) })* } }
impl<'a, W: Write> ser::Serializer for &'a mut Ser<W> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64);
    fn serialize_bool(self, v: bool) -> R<()> { self.serialize_u8(v as u8) }
    fn serialize_char(self, v: char) -> R<()> { self.serialize_u32(v as u32) }
    fn serialize_str(self, v: &str) -> R<()> { self.serialize_bytes(v.as_bytes()) }
    fn serialize_bytes(self, v: &[u8]) -> R<()> { self.0.write_all(&(v.len() as u64).to_le_bytes())?; self.0.write_all(v)?; Ok(()) }
    fn serialize_none(self) -> R<()> { self.serialize_u8(0) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R<()> { self.0.write_all(&[1])?; v.serialize(self) }
    fn serialize_unit(self) -> R<()> { Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> R<()> { Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> R<()> { self.serialize_u32(i) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R<()> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> R<()> { self.0.write_all(&i.to_le_bytes())?; v.serialize(self) }
    fn serialize_seq(self, n: Option<usize>) -> R<Self> { let n = n.ok_or_else(|| Error::Msg("length unknown".into()))?; self.0.write_all(&(n as u64).to_le_bytes())?; Ok(self) }
    fn serialize_tuple(self, _: usize) -> R<Self> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Self> { Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> R<Self> { self.0.write_all(&i.to_le_bytes())?; Ok(self) }
    fn serialize_map(self, n: Option<usize>) -> R<Self> { self.serialize_seq(n) }
    fn serialize_struct(self, _: &'static str, _: usize) -> R<Self> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> R<Self> { self.0.write_all(&i.to_le_bytes())?; Ok(self) }
    fn is_human_readable(&self) -> bool { false }
}
macro_rules! comp { ($($tr:ident $f:ident),*) => { $(impl<'a, W: Write> ser::$tr for &'a mut Ser<W> {
    type Ok = ();
    type Error = Error;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { v.serialize(&mut **self) }
    fn end(self) -> R<()> { Ok(()) }
})* } }
comp!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! comps { ($($tr:ident),*) => { $(impl<'a, W: Write> ser::$tr for &'a mut Ser<W> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> R<()> { v.serialize(&mut **self) }
    fn end(self) -> R<()> { Ok(()) }
})* } }
comps!(SerializeStruct, SerializeStructVariant);
impl<'a, W: Write> ser::SerializeMap for &'a mut Ser<W> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { v.serialize(&mut **self) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { v.serialize(&mut **self) }
    fn end(self) -> R<()> { Ok(()) }
}

pub struct De<Rd: Read>(pub Rd);
impl<Rd: Read> De<Rd> {
    fn get<const N: usize>(&mut self) -> R<[u8; N]> { let mut b = [0; N]; self.0.read_exact(&mut b)?; Ok(b) }
    fn len(&mut self) -> R<usize> { Ok(u64::from_le_bytes(self.get()?) as usize) }
    fn blob(&mut self) -> R<Vec<u8>> {
        let n = self.len()?;
        let mut v = Vec::new();
        for _ in 0..n { v.push(self.get::<1>()?[0]); }
        Ok(v)
    }
}
struct Items<'a, Rd: Read> { d: &'a mut De<Rd>, left: usize }
impl<'de, 'a, Rd: Read> SeqAccess<'de> for Items<'a, Rd> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<Option<T::Value>> { if self.left == 0 { return Ok(None); } self.left -= 1; s.deserialize(&mut *self.d).map(Some) }
    fn size_hint(&self) -> Option<usize> { Some(self.left) }
}
impl<'de, 'a, Rd: Read> MapAccess<'de> for Items<'a, Rd> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<Option<T::Value>> { if self.left == 0 { return Ok(None); } self.left -= 1; s.deserialize(&mut *self.d).map(Some) }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<T::Value> { s.deserialize(&mut *self.d) }
}
impl<'de, 'a, Rd: Read> EnumAccess<'de> for &'a mut De<Rd> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> R<(T::Value, Self)> { let i = u32::from_le_bytes(self.get()?); let v = s.deserialize(IntoDeserializer::<Error>::into_deserializer(i))?; Ok((v, self)) }
}
impl<'de, 'a, Rd: Read> VariantAccess<'de> for &'a mut De<Rd> {
    type Error = Error;
    fn unit_variant(self) -> R<()> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> R<T::Value> { s.deserialize(self) }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> R<V::Value> { v.visit_seq(Items { d: self, left: n }) }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> R<V::Value> { v.visit_seq(Items { d: self, left: f.len() }) }
}
macro_rules! dnum { ($($f:ident $g:ident $t:ty),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> R<V::Value> { v.$g(<$t>::from_le_bytes(self.get()?)) })* } }
impl<'de, 'a, Rd: Read> de::Deserializer<'de> for &'a mut De<Rd> {
    type Error = Error;
    dnum!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64, deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64);
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> R<V::Value> { Err(Error::Msg("this format does not describe itself".into())) }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> R<V::Value> { match self.get::<1>()?[0] { 0 => v.visit_bool(false), 1 => v.visit_bool(true), _ => Err(Error::Msg("bool".into())) } }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> R<V::Value> { v.visit_char(char::from_u32(u32::from_le_bytes(self.get()?)).ok_or_else(|| Error::Msg("char".into()))?) }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> R<V::Value> { self.deserialize_string(v) }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> R<V::Value> { let b = self.blob()?; v.visit_string(String::from_utf8(b).map_err(|_| Error::Msg("utf-8".into()))?) }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> R<V::Value> { let b = self.blob()?; v.visit_byte_buf(b) }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> R<V::Value> { let b = self.blob()?; v.visit_byte_buf(b) }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> R<V::Value> { match self.get::<1>()?[0] { 0 => v.visit_none(), 1 => v.visit_some(self), _ => Err(Error::Msg("option".into())) } }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> R<V::Value> { v.visit_unit() }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> { v.visit_unit() }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> { v.visit_newtype_struct(self) }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> R<V::Value> { let left = self.len()?; v.visit_seq(Items { d: self, left }) }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> R<V::Value> { v.visit_seq(Items { d: self, left: n }) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> R<V::Value> { v.visit_seq(Items { d: self, left: n }) }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> R<V::Value> { let left = self.len()?; v.visit_map(Items { d: self, left }) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> R<V::Value> { v.visit_seq(Items { d: self, left: f.len() }) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> R<V::Value> { v.visit_enum(self) }
    fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> R<V::Value> { Err(Error::Msg("this format does not describe itself".into())) }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> R<V::Value> { Err(Error::Msg("this format does not describe itself".into())) }
    fn is_human_readable(&self) -> bool { false }
}
