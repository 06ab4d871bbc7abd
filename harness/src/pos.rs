//! A positional binary serde format, like bincode: no field names, no types, so
//! that a reader sees exactly what was written or garbage.
use serde::de::{self, DeserializeOwned, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
type R<T> = Result<T, Error>;

pub fn to_vec<T: Serialize>(v: &T) -> R<Vec<u8>> {
    let mut w = W(vec![]);
    v.serialize(&mut w)?;
    Ok(w.0)
}
pub fn from_slice<T: DeserializeOwned>(b: &[u8]) -> R<T> {
    let mut r = Rd(b);
    let v = T::deserialize(&mut r)?;
    if !r.0.is_empty() {
        return Err(Error(format!("{} bytes left over", r.0.len())));
    }
    Ok(v)
}

struct W(Vec<u8>);
/// A sequence whose length is filled in at the end.
struct Many<'a> {
    w: &'a mut W,
    at: usize,
    n: u64,
}
impl<'a> Many<'a> {
    fn new(w: &'a mut W) -> Self {
        let at = w.0.len();
        w.0.extend([0; 8]);
        Many { w, at, n: 0 }
    }
    fn fin(self) -> R<()> {
        self.w.0[self.at..self.at + 8].copy_from_slice(&self.n.to_le_bytes());
        Ok(())
    }
}
macro_rules! num {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> R<()> { self.0.extend(v.to_le_bytes()); Ok(()) })* };
}
impl<'a> ser::Serializer for &'a mut W {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Many<'a>;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Many<'a>;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    num! { serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16,
    serialize_u32 u32, serialize_u64 u64, serialize_u128 u128, serialize_f32 f32, serialize_f64 f64 }
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, v: bool) -> R<()> {
        self.0.push(v as u8);
        Ok(())
    }
    fn serialize_char(self, v: char) -> R<()> {
        self.serialize_u32(v as u32)
    }
    fn serialize_str(self, v: &str) -> R<()> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> R<()> {
        self.0.extend((v.len() as u64).to_le_bytes());
        self.0.extend(v);
        Ok(())
    }
    fn serialize_none(self) -> R<()> {
        self.0.push(0);
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R<()> {
        self.0.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> R<()> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> R<()> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> R<()> {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R<()> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> R<()> {
        self.0.extend(i.to_le_bytes());
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> R<Many<'a>> {
        Ok(Many::new(self))
    }
    fn serialize_tuple(self, _: usize) -> R<Self> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Self> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> R<Self> {
        self.0.extend(i.to_le_bytes());
        Ok(self)
    }
    fn serialize_map(self, _: Option<usize>) -> R<Many<'a>> {
        Ok(Many::new(self))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> R<Self> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> R<Self> {
        self.0.extend(i.to_le_bytes());
        Ok(self)
    }
}
impl<'a> ser::SerializeSeq for Many<'a> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        self.n += 1;
        v.serialize(&mut *self.w)
    }
    fn end(self) -> R<()> {
        self.fin()
    }
}
impl<'a> ser::SerializeMap for Many<'a> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        self.n += 1;
        v.serialize(&mut *self.w)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        v.serialize(&mut *self.w)
    }
    fn end(self) -> R<()> {
        self.fin()
    }
}
macro_rules! fields {
    ($($t:ident $f:ident),*) => { $(
        impl<'a> ser::$t for &'a mut W {
            type Ok = ();
            type Error = Error;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { v.serialize(&mut **self) }
            fn end(self) -> R<()> { Ok(()) }
        })* };
}
fields! { SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field }
macro_rules! named {
    ($($t:ident),*) => { $(
        impl<'a> ser::$t for &'a mut W {
            type Ok = ();
            type Error = Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> R<()> { v.serialize(&mut **self) }
            fn end(self) -> R<()> { Ok(()) }
        })* };
}
named! { SerializeStruct, SerializeStructVariant }

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.0.len() {
            return Err(Error("end of data".into()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn len(&mut self) -> R<usize> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()) as usize)
    }
}
struct Elems<'b, 'a>(&'b mut Rd<'a>, usize);
impl<'de, 'b> SeqAccess<'de> for Elems<'b, 'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<Option<T::Value>> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.1)
    }
}
impl<'de, 'b> MapAccess<'de> for Elems<'b, 'de> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<Option<T::Value>> {
        SeqAccess::next_element_seed(self, s)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<T::Value> {
        s.deserialize(&mut *self.0)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.1)
    }
}
impl<'de, 'b> EnumAccess<'de> for &'b mut Rd<'de> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> R<(T::Value, Self)> {
        let i = self.u32()?;
        let v: de::value::U32Deserializer<Error> = i.into_deserializer();
        Ok((s.deserialize(v)?, self))
    }
}
impl<'de, 'b> VariantAccess<'de> for &'b mut Rd<'de> {
    type Error = Error;
    fn unit_variant(self) -> R<()> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> R<T::Value> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> R<V::Value> {
        v.visit_seq(Elems(self, n))
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> R<V::Value> {
        v.visit_seq(Elems(self, f.len()))
    }
}
macro_rules! rnum {
    ($($f:ident $g:ident $t:ty),*) => { $(
        fn $f<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
            let b = self.take(std::mem::size_of::<$t>())?;
            v.$g(<$t>::from_le_bytes(b.try_into().unwrap()))
        })* };
}
macro_rules! untyped {
    ($($f:ident),*) => { $(
        fn $f<V: Visitor<'de>>(self, _: V) -> R<V::Value> {
            Err(Error("the format does not describe its contents".into()))
        })* };
}
impl<'de, 'b> de::Deserializer<'de> for &'b mut Rd<'de> {
    type Error = Error;
    rnum! { deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
    deserialize_i128 visit_i128 i128, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32,
    deserialize_u64 visit_u64 u64, deserialize_u128 visit_u128 u128, deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64 }
    untyped! { deserialize_any, deserialize_ignored_any, deserialize_identifier }
    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        match self.take(1)?[0] {
            0 => v.visit_bool(false),
            1 => v.visit_bool(true),
            _ => Err(Error("not a bool".into())),
        }
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        v.visit_char(char::from_u32(self.u32()?).ok_or(Error("not a char".into()))?)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.len()?;
        v.visit_borrowed_str(std::str::from_utf8(self.take(n)?).map_err(|_| Error("not utf-8".into()))?)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.len()?;
        v.visit_borrowed_bytes(self.take(n)?)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        match self.take(1)?[0] {
            0 => v.visit_none(),
            1 => v.visit_some(self),
            _ => Err(Error("not an option".into())),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.len()?;
        v.visit_seq(Elems(self, n))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> R<V::Value> {
        v.visit_seq(Elems(self, n))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> R<V::Value> {
        v.visit_seq(Elems(self, n))
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.len()?;
        v.visit_map(Elems(self, n))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> R<V::Value> {
        v.visit_seq(Elems(self, f.len()))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> R<V::Value> {
        v.visit_enum(self)
    }
}
