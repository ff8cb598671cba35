//! A data format that can hold everything serde has: whatever was written is read back as written.
//! `Named` writes structs as maps from names and variants by name, like text formats do, `Compact`
//! structs as sequences and variants by index, like binary formats do.

use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Bool(bool),
    I(i128, u8),
    U(u128, u8),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Tree>),
    Unit,
    Seq(Vec<Tree>),
    Map(Vec<(Tree, Tree)>),
    /// a variant by name or index, and what's in it
    Variant(Box<Tree>, Box<Tree>),
}

#[derive(Debug)]
pub struct Error(pub String);

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Named,
    Compact,
}

pub fn write<X: Serialize>(x: &X, style: Style) -> Result<Tree, Error> {
    x.serialize(Ser(style))
}

pub fn read<X: de::DeserializeOwned>(t: &Tree) -> Result<X, Error> {
    X::deserialize(De(t.clone()))
}

#[derive(Clone, Copy)]
struct Ser(Style);

impl Ser {
    fn variant(self, index: u32, name: &'static str) -> Box<Tree> {
        Box::new(match self.0 {
            Style::Named => Tree::Str(name.to_owned()),
            Style::Compact => Tree::U(index as u128, 4),
        })
    }
}

struct Parts {
    ser: Ser,
    variant: Option<Box<Tree>>,
    seq: Vec<Tree>,
    map: Vec<(Tree, Tree)>,
    is_map: bool,
    len: Option<usize>,
}

impl Parts {
    fn new(ser: Ser, variant: Option<Box<Tree>>, is_map: bool, len: Option<usize>) -> Self {
        Parts { ser, variant, seq: vec![], map: vec![], is_map, len }
    }
    fn finish(self) -> Result<Tree, Error> {
        if self.len.is_some_and(|l| l != self.seq.len() + self.map.len()) {
            return Err(Error("announced another length than written".into()));
        }
        let t = if self.is_map { Tree::Map(self.map) } else { Tree::Seq(self.seq) };
        Ok(match self.variant {
            Some(v) => Tree::Variant(v, Box::new(t)),
            None => t,
        })
    }
    fn field<T: Serialize + ?Sized>(&mut self, name: &'static str, v: &T) -> Result<(), Error> {
        let v = v.serialize(self.ser)?;
        if self.is_map {
            self.map.push((Tree::Str(name.to_owned()), v));
        } else {
            self.seq.push(v);
        }
        Ok(())
    }
}

macro_rules! plain {
    ($($f:ident $t:ty => $v:ident as $e:expr;)*) => {
        $(fn $f(self, $v: $t) -> Result<Tree, Error> { Ok($e) })*
    };
}

impl ser::Serializer for Ser {
    type Ok = Tree;
    type Error = Error;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = Parts;
    type SerializeStruct = Parts;
    type SerializeStructVariant = Parts;

    plain! {
        serialize_bool bool => v as Tree::Bool(v);
        serialize_i8 i8 => v as Tree::I(v as i128, 1);
        serialize_i16 i16 => v as Tree::I(v as i128, 2);
        serialize_i32 i32 => v as Tree::I(v as i128, 4);
        serialize_i64 i64 => v as Tree::I(v as i128, 8);
        serialize_i128 i128 => v as Tree::I(v, 16);
        serialize_u8 u8 => v as Tree::U(v as u128, 1);
        serialize_u16 u16 => v as Tree::U(v as u128, 2);
        serialize_u32 u32 => v as Tree::U(v as u128, 4);
        serialize_u64 u64 => v as Tree::U(v as u128, 8);
        serialize_u128 u128 => v as Tree::U(v, 16);
        serialize_f32 f32 => v as Tree::F32(v.to_bits());
        serialize_f64 f64 => v as Tree::F64(v.to_bits());
        serialize_char char => v as Tree::Char(v);
        serialize_str &str => v as Tree::Str(v.to_owned());
        serialize_bytes &[u8] => v as Tree::Bytes(v.to_owned());
    }
    fn is_human_readable(&self) -> bool {
        self.0 == Style::Named
    }
    fn serialize_none(self) -> Result<Tree, Error> {
        Ok(Tree::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Tree, Error> {
        Ok(Tree::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<Tree, Error> {
        Ok(Tree::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tree, Error> {
        Ok(Tree::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<Tree, Error> {
        Ok(Tree::Variant(self.variant(i, n), Box::new(Tree::Unit)))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Tree, Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> Result<Tree, Error> {
        Ok(Tree::Variant(self.variant(i, n), Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, l: Option<usize>) -> Result<Parts, Error> {
        Ok(Parts::new(self, None, false, l))
    }
    fn serialize_tuple(self, l: usize) -> Result<Parts, Error> {
        Ok(Parts::new(self, None, false, Some(l)))
    }
    fn serialize_tuple_struct(self, _: &'static str, l: usize) -> Result<Parts, Error> {
        Ok(Parts::new(self, None, false, Some(l)))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, l: usize) -> Result<Parts, Error> {
        Ok(Parts::new(self, Some(self.variant(i, n)), false, Some(l)))
    }
    fn serialize_map(self, l: Option<usize>) -> Result<Parts, Error> {
        Ok(Parts::new(self, None, true, l))
    }
    fn serialize_struct(self, _: &'static str, l: usize) -> Result<Parts, Error> {
        Ok(Parts::new(self, None, self.0 == Style::Named, Some(l)))
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, l: usize) -> Result<Parts, Error> {
        Ok(Parts::new(self, Some(self.variant(i, n)), self.0 == Style::Named, Some(l)))
    }
}

impl ser::SerializeSeq for Parts {
    type Ok = Tree;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.field("", v)
    }
    fn end(self) -> Result<Tree, Error> {
        self.finish()
    }
}
impl ser::SerializeTuple for Parts {
    type Ok = Tree;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.field("", v)
    }
    fn end(self) -> Result<Tree, Error> {
        self.finish()
    }
}
impl ser::SerializeTupleStruct for Parts {
    type Ok = Tree;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.field("", v)
    }
    fn end(self) -> Result<Tree, Error> {
        self.finish()
    }
}
impl ser::SerializeTupleVariant for Parts {
    type Ok = Tree;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.field("", v)
    }
    fn end(self) -> Result<Tree, Error> {
        self.finish()
    }
}
impl ser::SerializeStruct for Parts {
    type Ok = Tree;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, n: &'static str, v: &T) -> Result<(), Error> {
        self.field(n, v)
    }
    fn end(self) -> Result<Tree, Error> {
        self.finish()
    }
}
impl ser::SerializeStructVariant for Parts {
    type Ok = Tree;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, n: &'static str, v: &T) -> Result<(), Error> {
        self.field(n, v)
    }
    fn end(self) -> Result<Tree, Error> {
        self.finish()
    }
}
impl ser::SerializeMap for Parts {
    type Ok = Tree;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        let k = k.serialize(self.ser)?;
        self.map.push((k, Tree::Unit));
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.map.last_mut().unwrap().1 = v.serialize(self.ser)?;
        Ok(())
    }
    fn end(self) -> Result<Tree, Error> {
        self.finish()
    }
}

struct De(Tree);

impl<'de> IntoDeserializer<'de, Error> for De {
    type Deserializer = De;
    fn into_deserializer(self) -> De {
        self
    }
}

impl<'de> de::Deserializer<'de> for De {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Tree::Bool(b) => v.visit_bool(b),
            Tree::I(n, 1) => v.visit_i8(n as i8),
            Tree::I(n, 2) => v.visit_i16(n as i16),
            Tree::I(n, 4) => v.visit_i32(n as i32),
            Tree::I(n, 8) => v.visit_i64(n as i64),
            Tree::I(n, _) => v.visit_i128(n),
            Tree::U(n, 1) => v.visit_u8(n as u8),
            Tree::U(n, 2) => v.visit_u16(n as u16),
            Tree::U(n, 4) => v.visit_u32(n as u32),
            Tree::U(n, 8) => v.visit_u64(n as u64),
            Tree::U(n, _) => v.visit_u128(n),
            Tree::F32(n) => v.visit_f32(f32::from_bits(n)),
            Tree::F64(n) => v.visit_f64(f64::from_bits(n)),
            Tree::Char(c) => v.visit_char(c),
            Tree::Str(s) => v.visit_string(s),
            Tree::Bytes(b) => v.visit_byte_buf(b),
            Tree::None => v.visit_none(),
            Tree::Some(t) => v.visit_some(De(*t)),
            Tree::Unit => v.visit_unit(),
            Tree::Seq(s) => {
                let mut d = SeqDeserializer::new(s.into_iter().map(De));
                let out = v.visit_seq(&mut d)?;
                d.end()?;
                Ok(out)
            }
            Tree::Map(m) => {
                let mut d = MapDeserializer::new(m.into_iter().map(|(k, v)| (De(k), De(v))));
                let out = v.visit_map(&mut d)?;
                d.end()?;
                Ok(out)
            }
            Tree::Variant(n, t) => v.visit_enum(Var(*n, *t)),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

struct Var(Tree, Tree);

impl<'de> de::EnumAccess<'de> for Var {
    type Error = Error;
    type Variant = De;
    fn variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<(S::Value, De), Error> {
        Ok((seed.deserialize(De(self.0))?, De(self.1)))
    }
}

impl<'de> de::VariantAccess<'de> for De {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        match self.0 {
            Tree::Unit => Ok(()),
            other => Err(Error(format!("unit variant expected, not {other:?}"))),
        }
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<S::Value, Error> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        de::Deserializer::deserialize_any(self, v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        de::Deserializer::deserialize_any(self, v)
    }
}
