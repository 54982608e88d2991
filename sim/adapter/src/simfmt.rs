//! A serde format with nothing behind it: the serializer turns calls into tokens, the
//! deserializer delivers a scripted value. Every interaction is a fault point of the simulator.
use pgdatetime::Interval;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::cell::{Cell, RefCell};
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum SimErr {
    Injected(u32),
    Custom(String),
    Unexpected(String),
}
impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for SimErr {}
impl ser::Error for SimErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        SimErr::Custom(m.to_string())
    }
}
impl de::Error for SimErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        SimErr::Custom(m.to_string())
    }
}

/// The simulator's side of a format: called at every interaction, may fail it, unwind through it,
/// or call back into the library.
pub trait Hook {
    fn point(&self, site: &'static str) -> Result<(), u32>;
}
pub struct NoHook;
impl Hook for NoHook {
    fn point(&self, _: &'static str) -> Result<(), u32> {
        Ok(())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Tok {
    I32(i32),
    I64(i64),
    Str(String),
    Struct(String, usize),
    Field(String),
    End,
    Other(String),
}

pub struct SimSer<'a> {
    pub hook: &'a dyn Hook,
    pub human: bool,
    pub out: &'a RefCell<Vec<Tok>>,
}
impl<'a> SimSer<'a> {
    fn put(&self, site: &'static str, t: Tok) -> Result<(), SimErr> {
        self.hook.point(site).map_err(SimErr::Injected)?;
        self.out.borrow_mut().push(t);
        Ok(())
    }
    fn other<T>(&self, what: &str) -> Result<T, SimErr> {
        self.put("ser.other", Tok::Other(what.into()))?;
        Err(SimErr::Unexpected(what.into()))
    }
}
macro_rules! ser_other { ($($f:ident : $t:ty),*) => { $(fn $f(self, _v: $t) -> Result<(), SimErr> { self.other(stringify!($f)) })* } }
impl<'a> Serializer for SimSer<'a> {
    type Ok = ();
    type Error = SimErr;
    type SerializeSeq = ser::Impossible<(), SimErr>;
    type SerializeTuple = Seq<'a>;
    type SerializeTupleStruct = Seq<'a>;
    type SerializeTupleVariant = ser::Impossible<(), SimErr>;
    type SerializeMap = ser::Impossible<(), SimErr>;
    type SerializeStruct = Seq<'a>;
    type SerializeStructVariant = ser::Impossible<(), SimErr>;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn serialize_i32(self, v: i32) -> Result<(), SimErr> {
        self.put("ser.i32", Tok::I32(v))
    }
    fn serialize_i64(self, v: i64) -> Result<(), SimErr> {
        self.put("ser.i64", Tok::I64(v))
    }
    fn serialize_str(self, v: &str) -> Result<(), SimErr> {
        self.put("ser.str", Tok::Str(v.into()))
    }
    ser_other!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_u8: u8, serialize_u16: u16,
        serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char,
        serialize_bytes: &[u8], serialize_unit_struct: &'static str);
    fn serialize_none(self) -> Result<(), SimErr> {
        self.other("none")
    }
    fn serialize_unit(self) -> Result<(), SimErr> {
        self.other("unit")
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), SimErr> {
        self.other("some")
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), SimErr> {
        self.other("unit_variant")
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), SimErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self, _: &'static str, _: u32, _: &'static str, _: &T,
    ) -> Result<(), SimErr> {
        self.other("newtype_variant")
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, SimErr> {
        self.other("seq")
    }
    fn serialize_tuple(self, n: usize) -> Result<Seq<'a>, SimErr> {
        self.put("ser.tuple", Tok::Struct("".into(), n))?;
        Ok(Seq(self))
    }
    fn serialize_tuple_struct(self, name: &'static str, n: usize) -> Result<Seq<'a>, SimErr> {
        self.put("ser.tuple", Tok::Struct(name.into(), n))?;
        Ok(Seq(self))
    }
    fn serialize_tuple_variant(
        self, _: &'static str, _: u32, _: &'static str, _: usize,
    ) -> Result<Self::SerializeTupleVariant, SimErr> {
        self.other("tuple_variant")
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, SimErr> {
        self.other("map")
    }
    fn serialize_struct(self, name: &'static str, n: usize) -> Result<Seq<'a>, SimErr> {
        self.put("ser.struct", Tok::Struct(name.into(), n))?;
        Ok(Seq(self))
    }
    fn serialize_struct_variant(
        self, _: &'static str, _: u32, _: &'static str, _: usize,
    ) -> Result<Self::SerializeStructVariant, SimErr> {
        self.other("struct_variant")
    }
}
pub struct Seq<'a>(SimSer<'a>);
impl<'a> Seq<'a> {
    fn elem<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        v.serialize(SimSer { hook: self.0.hook, human: self.0.human, out: self.0.out })
    }
}
impl<'a> ser::SerializeTuple for Seq<'a> {
    type Ok = ();
    type Error = SimErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        self.elem(v)
    }
    fn end(self) -> Result<(), SimErr> {
        self.0.put("ser.end", Tok::End)
    }
}
impl<'a> ser::SerializeTupleStruct for Seq<'a> {
    type Ok = ();
    type Error = SimErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        self.elem(v)
    }
    fn end(self) -> Result<(), SimErr> {
        self.0.put("ser.end", Tok::End)
    }
}
impl<'a> ser::SerializeStruct for Seq<'a> {
    type Ok = ();
    type Error = SimErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), SimErr> {
        self.0.put("ser.field", Tok::Field(k.into()))?;
        self.elem(v)
    }
    fn end(self) -> Result<(), SimErr> {
        self.0.put("ser.end", Tok::End)
    }
}

/// What the simulated format hands to the visitor.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Deliv {
    I8(i8), I16(i16), I32(i32), I64(i64), U8(u8), U16(u16), U32(u32), U64(u64), I128(i128), U128(u128), F64(u64),
    Bool(bool), Char(char), Unit, None, Some(Box<Deliv>), Newtype(Box<Deliv>),
    /// transient &str, &'de str, String
    Str(String), Borrowed(String), Owned(String),
    Bytes(Vec<u8>), ByteBuf(Vec<u8>),
    Seq(Vec<Deliv>), Map(Vec<(Deliv, Deliv)>),
}

pub struct SimDe<'a> {
    pub hook: &'a dyn Hook,
    pub human: bool,
    pub v: &'a Deliv,
    pub hints: &'a RefCell<Vec<&'static str>>,
}
impl<'a> SimDe<'a> {
    fn sub(&self, v: &'a Deliv) -> SimDe<'a> {
        SimDe { hook: self.hook, human: self.human, v, hints: self.hints }
    }
    fn go<'de, V: Visitor<'de>>(self, hint: &'static str, vis: V) -> Result<V::Value, SimErr>
    where
        'a: 'de,
    {
        self.hints.borrow_mut().push(hint);
        self.hook.point("de.value").map_err(SimErr::Injected)?;
        match self.v {
            Deliv::I8(x) => vis.visit_i8(*x),
            Deliv::I16(x) => vis.visit_i16(*x),
            Deliv::I32(x) => vis.visit_i32(*x),
            Deliv::I64(x) => vis.visit_i64(*x),
            Deliv::U8(x) => vis.visit_u8(*x),
            Deliv::U16(x) => vis.visit_u16(*x),
            Deliv::U32(x) => vis.visit_u32(*x),
            Deliv::U64(x) => vis.visit_u64(*x),
            Deliv::I128(x) => vis.visit_i128(*x),
            Deliv::U128(x) => vis.visit_u128(*x),
            Deliv::F64(x) => vis.visit_f64(f64::from_bits(*x)),
            Deliv::Bool(x) => vis.visit_bool(*x),
            Deliv::Char(x) => vis.visit_char(*x),
            Deliv::Unit => vis.visit_unit(),
            Deliv::None => vis.visit_none(),
            Deliv::Some(b) => vis.visit_some(self.sub(b)),
            Deliv::Newtype(b) => vis.visit_newtype_struct(self.sub(b)),
            Deliv::Str(x) => {
                let tmp = x.clone();
                vis.visit_str(&tmp)
            }
            Deliv::Borrowed(x) => vis.visit_borrowed_str(x),
            Deliv::Owned(x) => vis.visit_string(x.clone()),
            Deliv::Bytes(x) => vis.visit_bytes(x),
            Deliv::ByteBuf(x) => vis.visit_byte_buf(x.clone()),
            Deliv::Seq(xs) => vis.visit_seq(SeqA { de: &self, xs, i: 0 }),
            Deliv::Map(xs) => vis.visit_map(MapA { de: &self, xs, i: 0, open: Cell::new(false) }),
        }
    }
}
macro_rules! de_go { ($($f:ident),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> { self.go(stringify!($f), v) })* } }
impl<'de, 'a: 'de> Deserializer<'de> for SimDe<'a> {
    type Error = SimErr;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    de_go!(deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
        deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_i128, deserialize_u128,
        deserialize_f32, deserialize_f64, deserialize_char, deserialize_str, deserialize_string,
        deserialize_bytes, deserialize_byte_buf, deserialize_option, deserialize_unit, deserialize_seq,
        deserialize_map, deserialize_identifier, deserialize_ignored_any);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, SimErr> {
        self.go("deserialize_unit_struct", v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, SimErr> {
        self.go("deserialize_newtype_struct", v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, SimErr> {
        self.go("deserialize_tuple", v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(
        self, _: &'static str, _: usize, v: V,
    ) -> Result<V::Value, SimErr> {
        self.go("deserialize_tuple_struct", v)
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self, _: &'static str, _: &'static [&'static str], v: V,
    ) -> Result<V::Value, SimErr> {
        self.go("deserialize_struct", v)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self, _: &'static str, _: &'static [&'static str], v: V,
    ) -> Result<V::Value, SimErr> {
        self.go("deserialize_enum", v)
    }
}
struct SeqA<'b, 'a> {
    de: &'b SimDe<'a>,
    xs: &'a [Deliv],
    i: usize,
}
impl<'de, 'a: 'de, 'b> SeqAccess<'de> for SeqA<'b, 'a> {
    type Error = SimErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SimErr> {
        self.de.hook.point("de.seq_next").map_err(SimErr::Injected)?;
        if self.i >= self.xs.len() {
            return Ok(None);
        }
        self.i += 1;
        seed.deserialize(self.de.sub(&self.xs[self.i - 1])).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.xs.len() - self.i)
    }
}
struct MapA<'b, 'a> {
    de: &'b SimDe<'a>,
    xs: &'a [(Deliv, Deliv)],
    i: usize,
    open: Cell<bool>,
}
impl<'de, 'a: 'de, 'b> MapAccess<'de> for MapA<'b, 'a> {
    type Error = SimErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SimErr> {
        if self.open.get() {
            return Err(SimErr::Unexpected("next_key before next_value".into()));
        }
        self.de.hook.point("de.map_key").map_err(SimErr::Injected)?;
        if self.i >= self.xs.len() {
            return Ok(None);
        }
        self.open.set(true);
        seed.deserialize(self.de.sub(&self.xs[self.i].0)).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, SimErr> {
        if !self.open.replace(false) {
            return Err(SimErr::Unexpected("next_value before next_key".into()));
        }
        self.de.hook.point("de.map_value").map_err(SimErr::Injected)?;
        self.i += 1;
        seed.deserialize(self.de.sub(&self.xs[self.i - 1].1))
    }
}

pub fn ser<T: Serialize>(v: &T, human: bool, hook: &dyn Hook) -> (Result<(), SimErr>, Vec<Tok>) {
    let out = RefCell::new(Vec::new());
    let r = v.serialize(SimSer { hook, human, out: &out });
    (r, out.into_inner())
}
pub fn de<'a, T: Deserialize<'a>>(v: &'a Deliv, human: bool, hook: &'a dyn Hook, hints: &'a RefCell<Vec<&'static str>>) -> Result<T, SimErr> {
    T::deserialize(SimDe { hook, human, v, hints })
}

pub fn iv_from_parts(time: i64, day: i32, month: i32) -> Interval {
    let mut b = [0u8; 16];
    b[..8].copy_from_slice(&time.to_le_bytes());
    b[8..12].copy_from_slice(&day.to_le_bytes());
    b[12..].copy_from_slice(&month.to_le_bytes());
    bincode::deserialize(&b).expect("an interval is made of a time, a day and a month part")
}
