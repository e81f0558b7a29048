//! Formats of our own for C17: they hold a document in every way the serde data model has for a
//! string or for bytes, and record what they are given.
use serde::de::{self, Visitor};
use serde::ser::{self, Impossible, Serialize};
use std::fmt;

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Held {
    Str(String),
    Bytes(Vec<u8>),
}

#[derive(Debug)]
pub struct Fault(pub String);

impl fmt::Display for Fault {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Fault {}
impl ser::Error for Fault {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Fault(m.to_string())
    }
}
impl de::Error for Fault {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Fault(m.to_string())
    }
}

/// takes a string or bytes; with `fail` it refuses both
pub struct Rec {
    pub human: bool,
    pub fail: bool,
}

macro_rules! refuse {
    ($($f:ident($t:ty)),*) => { $(fn $f(self, _: $t) -> Result<Held, Fault> { Err(Fault(concat!("not a document: ", stringify!($f)).into())) })* };
}

impl ser::Serializer for Rec {
    type Ok = Held;
    type Error = Fault;
    type SerializeSeq = Impossible<Held, Fault>;
    type SerializeTuple = Impossible<Held, Fault>;
    type SerializeTupleStruct = Impossible<Held, Fault>;
    type SerializeTupleVariant = Impossible<Held, Fault>;
    type SerializeMap = Impossible<Held, Fault>;
    type SerializeStruct = Impossible<Held, Fault>;
    type SerializeStructVariant = Impossible<Held, Fault>;
    refuse!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char), serialize_unit_struct(&'static str));
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn serialize_str(self, v: &str) -> Result<Held, Fault> {
        if self.fail {
            return Err(Fault("full".into()));
        }
        Ok(Held::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Held, Fault> {
        if self.fail {
            return Err(Fault("full".into()));
        }
        Ok(Held::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<Held, Fault> {
        Err(Fault("not a document: none".into()))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Held, Fault> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Held, Fault> {
        Err(Fault("not a document: unit".into()))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Held, Fault> {
        Err(Fault("not a document: variant".into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Held, Fault> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Held, Fault> {
        Err(Fault("not a document: variant".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Fault> {
        Err(Fault("not a document: a sequence".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Fault> {
        Err(Fault("not a document: a tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Fault> {
        Err(Fault("not a document: a tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Fault> {
        Err(Fault("not a document: a tuple".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Fault> {
        Err(Fault("not a document: a map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fault> {
        Err(Fault("not a document: a struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Fault> {
        Err(Fault("not a document: a struct".into()))
    }
}

/// the ways of a format to hand what it holds to a visitor
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Way {
    Lent,
    Borrowed,
    Owned,
}
pub const WAYS: [Way; 3] = [Way::Lent, Way::Borrowed, Way::Owned];

pub struct Give<'a> {
    pub held: &'a Held,
    pub way: Way,
    pub human: bool,
}

impl<'de> de::Deserializer<'de> for Give<'de> {
    type Error = Fault;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fault> {
        match (self.held, self.way) {
            (Held::Str(t), Way::Lent) => v.visit_str(&t.clone()),
            (Held::Str(t), Way::Borrowed) => v.visit_borrowed_str(t),
            (Held::Str(t), Way::Owned) => v.visit_string(t.clone()),
            (Held::Bytes(t), Way::Lent) => v.visit_bytes(&t.clone()),
            (Held::Bytes(t), Way::Borrowed) => v.visit_borrowed_bytes(t),
            (Held::Bytes(t), Way::Owned) => v.visit_byte_buf(t.clone()),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// a writer that fails after some bytes
pub struct Brittle {
    pub left: usize,
}

impl std::io::Write for Brittle {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
