//! A small serialisation format: a list of tokens, with structures either by position (as in binary formats) or by field name (as in
//! self-describing ones).
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{ser, Deserialize, Serialize};
use std::fmt::{self, Display};

#[derive(Clone)]
pub enum Tok {
    Bool(bool),
    Num(u64),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some,
    Variant(u32, &'static str),
    Seq(usize),
    Map(usize),
    Name(&'static str),
}

#[derive(Debug)]
pub struct Bad;
impl Display for Bad {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: Display>(_: T) -> Self {
        Bad
    }
}
impl de::Error for Bad {
    fn custom<T: Display>(_: T) -> Self {
        Bad
    }
}
type R<T> = Result<T, Bad>;

pub struct Out {
    pub toks: Vec<Tok>,
    pub named: bool,
}
/// what has been written of a sequence or map, with the place of its length
pub struct Part<'a>(&'a mut Out);

macro_rules! put {
    ($($f:ident $t:ty, $v:ident => $tok:expr;)*) => { $(fn $f(self, $v: $t) -> R<()> { self.toks.push($tok); Ok(()) })* };
}
impl<'a> ser::Serializer for &'a mut Out {
    type Ok = ();
    type Error = Bad;
    type SerializeSeq = Part<'a>;
    type SerializeTuple = Part<'a>;
    type SerializeTupleStruct = Part<'a>;
    type SerializeTupleVariant = Part<'a>;
    type SerializeMap = Part<'a>;
    type SerializeStruct = Part<'a>;
    type SerializeStructVariant = Part<'a>;
    put! {
        serialize_bool bool, v => Tok::Bool(v);
        serialize_i8 i8, v => Tok::Num(v as u64);
        serialize_i16 i16, v => Tok::Num(v as u64);
        serialize_i32 i32, v => Tok::Num(v as u64);
        serialize_i64 i64, v => Tok::Num(v as u64);
        serialize_u8 u8, v => Tok::Num(v as u64);
        serialize_u16 u16, v => Tok::Num(v as u64);
        serialize_u32 u32, v => Tok::Num(v as u64);
        serialize_u64 u64, v => Tok::Num(v);
        serialize_f32 f32, v => Tok::Num(v.to_bits() as u64);
        serialize_f64 f64, v => Tok::Num(v.to_bits());
        serialize_char char, v => Tok::Num(v as u64);
        serialize_str &str, v => Tok::Str(String::from(v));
        serialize_bytes &[u8], v => Tok::Bytes(v.to_vec());
    }
    fn serialize_none(self) -> R<()> {
        self.toks.push(Tok::None);
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R<()> {
        self.toks.push(Tok::Some);
        v.serialize(self)
    }
    fn serialize_unit(self) -> R<()> {
        self.toks.push(Tok::Unit);
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> R<()> {
        self.serialize_unit()
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, name: &'static str) -> R<()> {
        self.toks.push(Tok::Variant(i, name));
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R<()> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, name: &'static str, v: &T) -> R<()> {
        self.toks.push(Tok::Variant(i, name));
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> R<Part<'a>> {
        self.toks.push(Tok::Seq(n.ok_or(Bad)?));
        Ok(Part(self))
    }
    fn serialize_tuple(self, n: usize) -> R<Part<'a>> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> R<Part<'a>> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, name: &'static str, n: usize) -> R<Part<'a>> {
        self.toks.push(Tok::Variant(i, name));
        self.serialize_seq(Some(n))
    }
    fn serialize_map(self, n: Option<usize>) -> R<Part<'a>> {
        self.toks.push(Tok::Map(n.ok_or(Bad)?));
        Ok(Part(self))
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> R<Part<'a>> {
        self.toks.push(if self.named { Tok::Map(n) } else { Tok::Seq(n) });
        Ok(Part(self))
    }
    fn serialize_struct_variant(self, ty: &'static str, i: u32, name: &'static str, n: usize) -> R<Part<'a>> {
        self.toks.push(Tok::Variant(i, name));
        self.serialize_struct(ty, n)
    }
    fn is_human_readable(&self) -> bool {
        self.named
    }
}
macro_rules! parts {
    ($($tr:ident $f:ident;)*) => { $(impl ser::$tr for Part<'_> {
        type Ok = ();
        type Error = Bad;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
            v.serialize(&mut *self.0)
        }
        fn end(self) -> R<()> {
            Ok(())
        }
    })* };
}
parts! {
    SerializeSeq serialize_element;
    SerializeTuple serialize_element;
    SerializeTupleStruct serialize_field;
    SerializeTupleVariant serialize_field;
}
impl ser::SerializeMap for Part<'_> {
    type Ok = ();
    type Error = Bad;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        v.serialize(&mut *self.0)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        v.serialize(&mut *self.0)
    }
    fn end(self) -> R<()> {
        Ok(())
    }
}
macro_rules! fields {
    ($($tr:ident)*) => { $(impl ser::$tr for Part<'_> {
        type Ok = ();
        type Error = Bad;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, name: &'static str, v: &T) -> R<()> {
            if self.0.named {
                self.0.toks.push(Tok::Name(name));
            }
            v.serialize(&mut *self.0)
        }
        fn end(self) -> R<()> {
            Ok(())
        }
    })* };
}
fields! { SerializeStruct SerializeStructVariant }

pub struct In<'t> {
    toks: &'t [Tok],
    at: usize,
    named: bool,
}
impl<'t> In<'t> {
    fn next(&mut self) -> R<&'t Tok> {
        self.at += 1;
        self.toks.get(self.at - 1).ok_or(Bad)
    }
}
macro_rules! by_token {
    ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> R<V::Value> { self.deserialize_any(v) })* };
}
macro_rules! numbers {
    ($($f:ident $visit:ident $t:ty;)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        match self.next()? {
            Tok::Num(n) => v.$visit(*n as $t),
            _ => Err(Bad),
        }
    })* };
}
impl<'de> de::Deserializer<'de> for &mut In<'_> {
    type Error = Bad;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        match self.next()? {
            Tok::Bool(b) => v.visit_bool(*b),
            Tok::Num(n) => v.visit_u64(*n),
            Tok::Str(s) => v.visit_str(s),
            Tok::Bytes(b) => v.visit_bytes(b),
            Tok::Unit => v.visit_unit(),
            Tok::None => v.visit_none(),
            Tok::Some => v.visit_some(self),
            Tok::Seq(n) => {
                let mut items = Items { left: *n, d: self };
                let x = v.visit_seq(&mut items)?;
                if items.left > 0 {
                    return Err(Bad);
                }
                Ok(x)
            }
            Tok::Map(n) => {
                let mut items = Items { left: *n, d: self };
                let x = v.visit_map(&mut items)?;
                if items.left > 0 {
                    return Err(Bad);
                }
                Ok(x)
            }
            Tok::Name(s) => v.visit_str(s),
            Tok::Variant(..) => {
                self.at -= 1;
                v.visit_enum(self)
            }
        }
    }
    numbers! {
        deserialize_i8 visit_i8 i8;
        deserialize_i16 visit_i16 i16;
        deserialize_i32 visit_i32 i32;
        deserialize_i64 visit_i64 i64;
        deserialize_u8 visit_u8 u8;
        deserialize_u16 visit_u16 u16;
        deserialize_u32 visit_u32 u32;
        deserialize_u64 visit_u64 u64;
    }
    by_token! {
        deserialize_bool deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes
        deserialize_byte_buf deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        match self.next()? {
            Tok::None => v.visit_none(),
            Tok::Some => v.visit_some(self),
            _ => Err(Bad),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> {
        self.deserialize_any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> R<V::Value> {
        self.deserialize_any(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> R<V::Value> {
        self.deserialize_any(v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> R<V::Value> {
        self.deserialize_any(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> R<V::Value> {
        v.visit_enum(self)
    }
    fn is_human_readable(&self) -> bool {
        self.named
    }
}
struct Items<'a, 't> {
    left: usize,
    d: &'a mut In<'t>,
}
impl<'de> SeqAccess<'de> for &mut Items<'_, '_> {
    type Error = Bad;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> R<Option<T::Value>> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(&mut *self.d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}
impl<'de> MapAccess<'de> for &mut Items<'_, '_> {
    type Error = Bad;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> R<Option<K::Value>> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(&mut *self.d).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> R<T::Value> {
        seed.deserialize(&mut *self.d)
    }
}
impl<'de> EnumAccess<'de> for &mut In<'_> {
    type Error = Bad;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> R<(V::Value, Self)> {
        let Tok::Variant(i, name) = self.next()? else { return Err(Bad) };
        let v = if self.named { seed.deserialize((*name).into_deserializer()) } else { seed.deserialize((*i).into_deserializer()) };
        v.map(|v: V::Value| (v, self))
    }
}
impl<'de> VariantAccess<'de> for &mut In<'_> {
    type Error = Bad;
    fn unit_variant(self) -> R<()> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> R<T::Value> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> R<V::Value> {
        de::Deserializer::deserialize_any(self, v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> R<V::Value> {
        de::Deserializer::deserialize_any(self, v)
    }
}

/// there and back; nothing may be left over
#[inline(never)]
pub fn round<T: Serialize + for<'a> Deserialize<'a>>(x: &T, named: bool) -> Option<T> {
    let mut o = Out { toks: vec![], named };
    x.serialize(&mut o).ok()?;
    let mut i = In { toks: &o.toks, at: 0, named };
    let y = T::deserialize(&mut i).ok()?;
    if i.at == o.toks.len() {
        Some(y)
    } else {
        None
    }
}
