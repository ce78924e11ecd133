//! A third serde format, kept as a tree in memory: with and without field names, in any field order,
//! human-readable or not, with exact, missing or wrong size hints, integers of the smallest type.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Unit,
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<Tok>),
    Map(Vec<(Tok, Tok)>),
    Struct(Vec<(String, Tok)>),
    New(Box<Tok>),
    Opt(Option<Box<Tok>>),
}

#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub human: bool,
    /// structs as plain sequences
    pub as_seq: bool,
    /// order of named fields: 0 as written, else rotated or reversed
    pub order: u8,
    /// 0 exact, 1 none, 2 zero, 3 far too many
    pub hint: u8,
    pub small: bool,
}

#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(t: T) -> E {
        E(t.to_string())
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(t: T) -> E {
        E(t.to_string())
    }
}

pub fn to_tok<T: Serialize>(t: &T, style: Style) -> Result<Tok, E> {
    t.serialize(S(style))
}
pub fn of_tok<T: de::DeserializeOwned>(t: &Tok, style: Style) -> Result<T, E> {
    T::deserialize(D(t, style))
}

#[derive(Clone, Copy)]
struct S(Style);
struct Build {
    s: S,
    items: Vec<Tok>,
    names: Vec<String>,
    key: Option<Tok>,
    map: Vec<(Tok, Tok)>,
}
impl Build {
    fn new(s: S) -> Build {
        Build { s, items: vec![], names: vec![], key: None, map: vec![] }
    }
    fn item<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), E> {
        self.items.push(t.serialize(self.s)?);
        Ok(())
    }
}
macro_rules! num {
    ($($f:ident $t:ty => $v:ident $w:ty),*) => { $(fn $f(self, v: $t) -> Result<Tok, E> { Ok(Tok::$v(v as $w)) })* };
}
impl ser::Serializer for S {
    type Ok = Tok;
    type Error = E;
    type SerializeSeq = Build;
    type SerializeTuple = Build;
    type SerializeTupleStruct = Build;
    type SerializeTupleVariant = Build;
    type SerializeMap = Build;
    type SerializeStruct = Build;
    type SerializeStructVariant = Build;
    num!(serialize_u8 u8 => U u64, serialize_u16 u16 => U u64, serialize_u32 u32 => U u64, serialize_u64 u64 => U u64,
         serialize_i8 i8 => I i64, serialize_i16 i16 => I i64, serialize_i32 i32 => I i64, serialize_i64 i64 => I i64,
         serialize_f32 f32 => F f64, serialize_f64 f64 => F f64);
    fn serialize_bool(self, v: bool) -> Result<Tok, E> {
        Ok(Tok::Bool(v))
    }
    fn serialize_char(self, v: char) -> Result<Tok, E> {
        Ok(Tok::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Tok, E> {
        Ok(Tok::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Tok, E> {
        Ok(Tok::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<Tok, E> {
        Ok(Tok::Opt(None))
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Tok, E> {
        Ok(Tok::Opt(Some(Box::new(v.serialize(self)?))))
    }
    fn serialize_unit(self) -> Result<Tok, E> {
        Ok(Tok::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tok, E> {
        Ok(Tok::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<Tok, E> {
        Ok(Tok::U(i as u64))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Tok, E> {
        Ok(Tok::New(Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<Tok, E> {
        Ok(Tok::Map(vec![(Tok::U(i as u64), v.serialize(self)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Build, E> {
        Ok(Build::new(self))
    }
    fn serialize_tuple(self, _: usize) -> Result<Build, E> {
        Ok(Build::new(self))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Build, E> {
        Ok(Build::new(self))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Build, E> {
        Ok(Build::new(self))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Build, E> {
        Ok(Build::new(self))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Build, E> {
        Ok(Build::new(self))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Build, E> {
        Ok(Build::new(self))
    }
    fn is_human_readable(&self) -> bool {
        self.0.human
    }
}
macro_rules! seqlike {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for Build {
        type Ok = Tok;
        type Error = E;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.item(v) }
        fn end(self) -> Result<Tok, E> { Ok(Tok::Seq(self.items)) }
    })* };
}
seqlike!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! structlike {
    ($($t:ident),*) => { $(impl ser::$t for Build {
        type Ok = Tok;
        type Error = E;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
            self.names.push(k.into());
            self.item(v)
        }
        fn end(self) -> Result<Tok, E> {
            if self.s.0.as_seq {
                return Ok(Tok::Seq(self.items));
            }
            let mut f: Vec<_> = self.names.into_iter().zip(self.items).collect();
            let n = f.len().max(1);
            match self.s.0.order {
                0 => {}
                1 => f.reverse(),
                k => f.rotate_left(k as usize % n),
            }
            Ok(Tok::Struct(f))
        }
    })* };
}
structlike!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Build {
    type Ok = Tok;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        self.key = Some(k.serialize(self.s)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let k = self.key.take().unwrap_or(Tok::Unit);
        self.map.push((k, v.serialize(self.s)?));
        Ok(())
    }
    fn end(self) -> Result<Tok, E> {
        Ok(Tok::Map(self.map))
    }
}

struct D<'a>(&'a Tok, Style);
impl<'de, 'a> de::Deserializer<'de> for D<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let D(t, st) = self;
        match t {
            Tok::Unit => v.visit_unit(),
            Tok::Bool(b) => v.visit_bool(*b),
            Tok::U(u) if st.small => match *u {
                u if u < 1 << 8 => v.visit_u8(u as u8),
                u if u < 1 << 16 => v.visit_u16(u as u16),
                u if u < 1 << 32 => v.visit_u32(u as u32),
                u => v.visit_u64(u),
            },
            Tok::U(u) => v.visit_u64(*u),
            Tok::I(i) => v.visit_i64(*i),
            Tok::F(f) => v.visit_f64(*f),
            Tok::Str(s) => v.visit_str(s),
            Tok::Bytes(b) => v.visit_bytes(b),
            Tok::Seq(s) => v.visit_seq(Items(s.iter(), st)),
            Tok::Map(m) => v.visit_map(Pairs(m.iter().map(|(k, v)| (Key::Tok(k), v)).collect::<Vec<_>>().into_iter(), None, st)),
            Tok::Struct(m) => v.visit_map(Pairs(m.iter().map(|(k, v)| (Key::Str(k), v)).collect::<Vec<_>>().into_iter(), None, st)),
            Tok::New(t) => D(t, st).deserialize_any(v),
            Tok::Opt(None) => v.visit_none(),
            Tok::Opt(Some(t)) => v.visit_some(D(t, st)),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        match self.0 {
            Tok::New(t) => v.visit_newtype_struct(D(t, self.1)),
            _ => v.visit_newtype_struct(self),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Tok::Opt(_) => self.deserialize_any(v),
            _ => v.visit_some(self),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.1.human
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit
        unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
fn hint(st: Style, n: usize) -> Option<usize> {
    match st.hint {
        0 => Some(n),
        1 => None,
        2 => Some(0),
        _ => Some(usize::MAX),
    }
}
struct Items<'a>(std::slice::Iter<'a, Tok>, Style);
impl<'de, 'a> de::SeqAccess<'de> for Items<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some(t) => s.deserialize(D(t, self.1)).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.1, self.0.len())
    }
}
enum Key<'a> {
    Str(&'a str),
    Tok(&'a Tok),
}
struct Pairs<'a>(std::vec::IntoIter<(Key<'a>, &'a Tok)>, Option<&'a Tok>, Style);
impl<'de, 'a> de::MapAccess<'de> for Pairs<'a> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                match k {
                    Key::Str(n) => s.deserialize(IntoDeserializer::<E>::into_deserializer(n)).map(Some),
                    Key::Tok(t) => s.deserialize(D(t, self.2)).map(Some),
                }
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        match self.1.take() {
            Some(t) => s.deserialize(D(t, self.2)),
            None => Err(E("value before its key".into())),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.2, self.0.len())
    }
}
