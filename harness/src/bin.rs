//! A compact binary serde format that is not human readable, in the manner of bincode: the
//! second kind of serde format beside JSON (no such crate is available offline).

use serde::de::{self, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};

#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Self { Error(m.to_string()) }
}
impl de::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Self { Error(m.to_string()) }
}
const STR: u64 = 1;
const BYTES: u64 = 2;
const SEQ: u64 = 3;
const MAP: u64 = 4;
type R<T> = Result<T, Error>;

#[derive(Default)]
pub struct Ser(pub Vec<u8>);
impl Ser {
    /// Length and what it is the length of, so that one is not read as the other.
    fn len(&mut self, kind: u64, n: usize) { self.0.extend((n as u64 | kind << 56).to_le_bytes()) }
}
pub fn to_vec<T: Serialize>(t: &T) -> R<Vec<u8>> {
    let mut s = Ser::default();
    t.serialize(&mut s)?;
    Ok(s.0)
}

macro_rules! ser_num {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> R<()> { self.0.extend(v.to_le_bytes()); Ok(()) })* };
}
impl ser::Serializer for &mut Ser {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    ser_num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64);
    fn serialize_bool(self, v: bool) -> R<()> {
        self.0.push(v as u8);
        Ok(())
    }
    fn serialize_char(self, v: char) -> R<()> {
        self.0.extend((v as u32).to_le_bytes());
        Ok(())
    }
    fn serialize_str(self, v: &str) -> R<()> {
        self.len(STR, v.len());
        self.0.extend(v.as_bytes());
        Ok(())
    }
    fn serialize_bytes(self, v: &[u8]) -> R<()> {
        self.len(BYTES, v.len());
        self.0.extend(v);
        Ok(())
    }
    fn serialize_none(self) -> R<()> {
        self.0.push(0);
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R<()> {
        self.0.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> R<()> { Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> R<()> { Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> R<()> { self.serialize_u32(i) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R<()> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> R<()> {
        self.0.extend(i.to_le_bytes());
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> R<Self> {
        self.len(SEQ, n.ok_or(Error("length needed".into()))?);
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> R<Self> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Self> { Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> R<Self> {
        self.0.extend(i.to_le_bytes());
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> R<Self> {
        self.len(MAP, n.ok_or(Error("length needed".into()))?);
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> R<Self> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> R<Self> {
        self.0.extend(i.to_le_bytes());
        Ok(self)
    }
    fn is_human_readable(&self) -> bool { false }
}
macro_rules! ser_compound {
    ($($tr:ident $f:ident),*) => { $(impl ser::$tr for &mut Ser {
        type Ok = ();
        type Error = Error;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { v.serialize(&mut **self) }
        fn end(self) -> R<()> { Ok(()) }
    })* };
}
ser_compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for &mut Ser {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { v.serialize(&mut **self) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { v.serialize(&mut **self) }
    fn end(self) -> R<()> { Ok(()) }
}
impl ser::SerializeStruct for &mut Ser {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> R<()> { v.serialize(&mut **self) }
    fn end(self) -> R<()> { Ok(()) }
}
impl ser::SerializeStructVariant for &mut Ser {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> R<()> { v.serialize(&mut **self) }
    fn end(self) -> R<()> { Ok(()) }
}

pub struct De<'de>(pub &'de [u8]);
pub fn from_slice<T: de::DeserializeOwned>(b: &[u8]) -> R<T> {
    let mut d = De(b);
    let t = T::deserialize(&mut d)?;
    if d.0.is_empty() {
        Ok(t)
    } else {
        Err(Error("trailing".into()))
    }
}
impl<'de> De<'de> {
    fn take(&mut self, n: usize) -> R<&'de [u8]> {
        if self.0.len() < n {
            return Err(Error("end".into()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn len(&mut self, kind: u64) -> R<usize> {
        let n = u64::from_le_bytes(self.take(8)?.try_into().unwrap());
        if n >> 56 != kind {
            return Err(Error(format!("kind {} where {} is asked for", n >> 56, kind)));
        }
        Ok((n & ((1 << 56) - 1)) as usize)
    }
}
struct Items<'a, 'de>(&'a mut De<'de>, usize);
impl<'de> de::SeqAccess<'de> for Items<'_, 'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<Option<T::Value>> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(self.1.min(1 << 12)) }
}
impl<'de> de::MapAccess<'de> for Items<'_, 'de> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<Option<T::Value>> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<T::Value> { s.deserialize(&mut *self.0) }
}
struct Variant<'a, 'de>(&'a mut De<'de>);
impl<'a, 'de> de::EnumAccess<'de> for Variant<'a, 'de> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> R<(T::Value, Self)> {
        let i = u32::from_le_bytes(self.0.take(4)?.try_into().unwrap());
        let v = s.deserialize(de::value::U32Deserializer::<Error>::new(i))?;
        Ok((v, self))
    }
}
impl<'de> de::VariantAccess<'de> for Variant<'_, 'de> {
    type Error = Error;
    fn unit_variant(self) -> R<()> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> R<T::Value> { s.deserialize(self.0) }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> R<V::Value> { v.visit_seq(Items(self.0, n)) }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> R<V::Value> { v.visit_seq(Items(self.0, f.len())) }
}
macro_rules! de_num {
    ($($f:ident $v:ident $t:ty, $n:expr);*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> R<V::Value> { v.$v(<$t>::from_le_bytes(self.take($n)?.try_into().unwrap())) })* };
}
impl<'de> de::Deserializer<'de> for &mut De<'de> {
    type Error = Error;
    de_num!(deserialize_i8 visit_i8 i8, 1; deserialize_i16 visit_i16 i16, 2; deserialize_i32 visit_i32 i32, 4; deserialize_i64 visit_i64 i64, 8;
        deserialize_u8 visit_u8 u8, 1; deserialize_u16 visit_u16 u16, 2; deserialize_u32 visit_u32 u32, 4; deserialize_u64 visit_u64 u64, 8;
        deserialize_f32 visit_f32 f32, 4; deserialize_f64 visit_f64 f64, 8);
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> R<V::Value> { Err(Error("the format does not describe itself".into())) }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> R<V::Value> { Err(Error("the format does not describe itself".into())) }
    fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> R<V::Value> { Err(Error("no identifiers".into())) }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        match self.take(1)?[0] {
            0 => v.visit_bool(false),
            1 => v.visit_bool(true),
            _ => Err(Error("bool".into())),
        }
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = u32::from_le_bytes(self.take(4)?.try_into().unwrap());
        v.visit_char(char::from_u32(n).ok_or(Error("char".into()))?)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.len(STR)?;
        let b = self.take(n)?;
        v.visit_borrowed_str(std::str::from_utf8(b).map_err(|e| Error(e.to_string()))?)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> R<V::Value> { self.deserialize_str(v) }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.len(BYTES)?;
        v.visit_borrowed_bytes(self.take(n)?)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.len(BYTES)?;
        v.visit_byte_buf(self.take(n)?.to_vec())
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        match self.take(1)?[0] {
            0 => v.visit_none(),
            1 => v.visit_some(self),
            _ => Err(Error("option".into())),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> R<V::Value> { v.visit_unit() }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> { v.visit_unit() }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> { v.visit_newtype_struct(self) }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.len(SEQ)?;
        v.visit_seq(Items(self, n))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> R<V::Value> { v.visit_seq(Items(self, n)) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> R<V::Value> { v.visit_seq(Items(self, n)) }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.len(MAP)?;
        v.visit_map(Items(self, n))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> R<V::Value> { v.visit_seq(Items(self, f.len())) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> R<V::Value> { v.visit_enum(Variant(self)) }
    fn is_human_readable(&self) -> bool { false }
}
