//! A bit-exact in-memory serde format with a configurable presentation and
//! fault injection: structs as maps (fields in any order, keys as strings,
//! bytes or indices) or as sequences, and an error at any chosen event.
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::cell::Cell;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Unit,
    Bool(bool),
    U(u64),
    I(i64),
    F32(f32),
    F64(f64),
    Str(String),
    Seq(Vec<Tok>),
    /// a struct: named fields
    Struct(Vec<(String, Tok)>),
    Map(Vec<(Tok, Tok)>),
}
impl Tok {
    /// Bit-exact equality.
    pub fn same(&self, o: &Tok) -> bool {
        match (self, o) {
            (Tok::F32(a), Tok::F32(b)) => a.to_bits() == b.to_bits(),
            (Tok::F64(a), Tok::F64(b)) => a.to_bits() == b.to_bits(),
            (Tok::Seq(a), Tok::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.same(b)),
            (Tok::Struct(a), Tok::Struct(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && a.1.same(&b.1)),
            (Tok::Map(a), Tok::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0.same(&b.0) && a.1.same(&b.1)),
            (a, b) => a == b,
        }
    }
    pub fn field_names(&self, out: &mut Vec<String>) {
        match self {
            Tok::Struct(f) => f.iter().for_each(|(n, v)| {
                out.push(n.clone());
                v.field_names(out)
            }),
            Tok::Seq(v) => v.iter().for_each(|v| v.field_names(out)),
            _ => {}
        }
    }
    /// Rebuild with every struct's fields reordered by `f`.
    pub fn reorder(&self, f: &dyn Fn(&mut Vec<(String, Tok)>)) -> Tok {
        match self {
            Tok::Struct(v) => {
                let mut v: Vec<(String, Tok)> = v.iter().map(|(n, t)| (n.clone(), t.reorder(f))).collect();
                f(&mut v);
                Tok::Struct(v)
            }
            Tok::Seq(v) => Tok::Seq(v.iter().map(|t| t.reorder(f)).collect()),
            t => t.clone(),
        }
    }
}

#[derive(Debug)]
pub struct Er(pub String);
impl fmt::Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Er {}
impl de::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Er {
        Er(m.to_string())
    }
}
impl ser::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Er {
        Er(m.to_string())
    }
}

// ---------------------------------------------------------------- serializer
pub struct Ser;
pub fn to_tok<T: Serialize + ?Sized>(v: &T) -> Result<Tok, Er> {
    v.serialize(Ser)
}
pub struct SeqSer(Vec<Tok>);
pub struct StructSer(Vec<(String, Tok)>);
pub struct MapSer(Vec<(Tok, Tok)>, Option<Tok>);
impl ser::Serializer for Ser {
    type Ok = Tok;
    type Error = Er;
    type SerializeSeq = SeqSer;
    type SerializeTuple = SeqSer;
    type SerializeTupleStruct = SeqSer;
    type SerializeTupleVariant = SeqSer;
    type SerializeMap = MapSer;
    type SerializeStruct = StructSer;
    type SerializeStructVariant = StructSer;
    fn serialize_bool(self, v: bool) -> Result<Tok, Er> {
        Ok(Tok::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Tok, Er> {
        Ok(Tok::I(v as i64))
    }
    fn serialize_i16(self, v: i16) -> Result<Tok, Er> {
        Ok(Tok::I(v as i64))
    }
    fn serialize_i32(self, v: i32) -> Result<Tok, Er> {
        Ok(Tok::I(v as i64))
    }
    fn serialize_i64(self, v: i64) -> Result<Tok, Er> {
        Ok(Tok::I(v))
    }
    fn serialize_u8(self, v: u8) -> Result<Tok, Er> {
        Ok(Tok::U(v as u64))
    }
    fn serialize_u16(self, v: u16) -> Result<Tok, Er> {
        Ok(Tok::U(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<Tok, Er> {
        Ok(Tok::U(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<Tok, Er> {
        Ok(Tok::U(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Tok, Er> {
        Ok(Tok::F32(v))
    }
    fn serialize_f64(self, v: f64) -> Result<Tok, Er> {
        Ok(Tok::F64(v))
    }
    fn serialize_char(self, v: char) -> Result<Tok, Er> {
        Ok(Tok::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Tok, Er> {
        Ok(Tok::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Tok, Er> {
        Ok(Tok::Seq(v.iter().map(|b| Tok::U(*b as u64)).collect()))
    }
    fn serialize_none(self) -> Result<Tok, Er> {
        Ok(Tok::Unit)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Tok, Er> {
        v.serialize(Ser)
    }
    fn serialize_unit(self) -> Result<Tok, Er> {
        Ok(Tok::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tok, Er> {
        Ok(Tok::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Tok, Er> {
        Ok(Tok::Str(v.into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Tok, Er> {
        v.serialize(Ser)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Tok, Er> {
        Ok(Tok::Struct(vec![(n.into(), v.serialize(Ser)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqSer, Er> {
        Ok(SeqSer(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqSer, Er> {
        Ok(SeqSer(vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqSer, Er> {
        Ok(SeqSer(vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<SeqSer, Er> {
        Ok(SeqSer(vec![]))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapSer, Er> {
        Ok(MapSer(vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<StructSer, Er> {
        Ok(StructSer(vec![]))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<StructSer, Er> {
        Ok(StructSer(vec![]))
    }
}
macro_rules! seqser {
    ($($tr:ident $f:ident),*) => {$(
        impl ser::$tr for SeqSer {
            type Ok = Tok;
            type Error = Er;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> { self.0.push(v.serialize(Ser)?); Ok(()) }
            fn end(self) -> Result<Tok, Er> { Ok(Tok::Seq(self.0)) }
        }
    )*}
}
seqser!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! structser {
    ($($tr:ident),*) => {$(
        impl ser::$tr for StructSer {
            type Ok = Tok;
            type Error = Er;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Er> { self.0.push((k.into(), v.serialize(Ser)?)); Ok(()) }
            fn end(self) -> Result<Tok, Er> { Ok(Tok::Struct(self.0)) }
        }
    )*}
}
structser!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for MapSer {
    type Ok = Tok;
    type Error = Er;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Er> {
        self.1 = Some(k.serialize(Ser)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        let k = self.1.take().unwrap();
        self.0.push((k, v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> Result<Tok, Er> {
        Ok(Tok::Map(self.0))
    }
}

// -------------------------------------------------------------- deserializer
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Keys {
    Str,
    Borrowed,
    Owned,
    Bytes,
    Index,
}
pub const KEYS: [Keys; 5] = [Keys::Str, Keys::Borrowed, Keys::Owned, Keys::Bytes, Keys::Index];
/// How the format presents data.
#[derive(Clone, Copy, Debug)]
pub struct Pres {
    /// structs as maps (true) or as sequences (false)
    pub map: bool,
    pub keys: Keys,
    pub human: bool,
    /// size hints: none, exact, or wrong (huge)
    pub hint: u8,
    /// all floats presented as f64 (self-describing formats)
    pub widen: bool,
}
pub struct De<'a> {
    pub t: &'a Tok,
    pub p: Pres,
    /// events seen so far, and the event at which to fail
    pub ev: &'a Cell<u64>,
    pub fail_at: u64,
}
impl<'a> De<'a> {
    fn sub(&self, t: &'a Tok) -> De<'a> {
        De { t, p: self.p, ev: self.ev, fail_at: self.fail_at }
    }
    fn tick(&self) -> Result<(), Er> {
        let n = self.ev.get();
        self.ev.set(n + 1);
        if n == self.fail_at {
            Err(Er(format!("format error at event {n}")))
        } else {
            Ok(())
        }
    }
}
fn hint(h: u8, n: usize) -> Option<usize> {
    match h {
        0 => None,
        1 => Some(n),
        _ => Some(usize::MAX),
    }
}
struct SeqDe<'a> {
    d: De<'a>,
    v: &'a [Tok],
    i: usize,
}
impl<'de> SeqAccess<'de> for SeqDe<'de> {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Er> {
        self.d.tick()?;
        let Some(t) = self.v.get(self.i) else { return Ok(None) };
        self.i += 1;
        s.deserialize(self.d.sub(t)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.d.p.hint, self.v.len() - self.i)
    }
}
struct FieldSeq<'a> {
    d: De<'a>,
    v: &'a [(String, Tok)],
    i: usize,
}
impl<'de> SeqAccess<'de> for FieldSeq<'de> {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Er> {
        self.d.tick()?;
        let Some(t) = self.v.get(self.i) else { return Ok(None) };
        self.i += 1;
        s.deserialize(self.d.sub(&t.1)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.d.p.hint, self.v.len() - self.i)
    }
}
struct FieldMap<'a> {
    d: De<'a>,
    v: &'a [(String, Tok)],
    i: usize,
    names: &'static [&'static str],
}
struct KeyDe<'a> {
    k: &'a str,
    keys: Keys,
    index: Option<usize>,
}
impl<'de> Deserializer<'de> for KeyDe<'de> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        match self.keys {
            Keys::Str => v.visit_str(self.k),
            Keys::Borrowed => v.visit_borrowed_str(self.k),
            Keys::Owned => v.visit_string(self.k.to_string()),
            Keys::Bytes => v.visit_bytes(self.k.as_bytes()),
            Keys::Index => match self.index {
                Some(i) => v.visit_u64(i as u64),
                None => v.visit_u64(1_000_000),
            },
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> MapAccess<'de> for FieldMap<'de> {
    type Error = Er;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Er> {
        self.d.tick()?;
        let Some(t) = self.v.get(self.i) else { return Ok(None) };
        s.deserialize(KeyDe { k: &t.0, keys: self.d.p.keys, index: self.names.iter().position(|n| *n == t.0) }).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Er> {
        self.d.tick()?;
        let t = &self.v[self.i].1;
        self.i += 1;
        s.deserialize(self.d.sub(t))
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.d.p.hint, self.v.len() - self.i)
    }
}
impl<'de> Deserializer<'de> for De<'de> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        self.tick()?;
        match self.t {
            Tok::Unit => v.visit_unit(),
            Tok::Bool(b) => v.visit_bool(*b),
            Tok::U(n) => v.visit_u64(*n),
            Tok::I(n) => v.visit_i64(*n),
            Tok::F32(x) if !self.p.widen => v.visit_f32(*x),
            Tok::F32(x) => v.visit_f64(*x as f64),
            Tok::F64(x) => v.visit_f64(*x),
            Tok::Str(s) => v.visit_borrowed_str(s),
            Tok::Seq(s) => v.visit_seq(SeqDe { v: s, i: 0, d: self }),
            Tok::Struct(s) => {
                if self.p.map {
                    v.visit_map(FieldMap { v: s, i: 0, names: &[], d: self })
                } else {
                    v.visit_seq(FieldSeq { v: s, i: 0, d: self })
                }
            }
            Tok::Map(_) => Err(Er("map".into())),
        }
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, names: &'static [&'static str], v: V) -> Result<V::Value, Er> {
        match self.t {
            Tok::Struct(s) if self.p.map => {
                self.tick()?;
                v.visit_map(FieldMap { v: s, i: 0, names, d: self })
            }
            _ => self.deserialize_any(v),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Er> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        match self.t {
            Tok::Unit => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Er> {
        match self.t {
            Tok::Str(s) => v.visit_enum(Unit(s)),
            _ => Err(Er("enum".into())),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.p.human
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map identifier ignored_any }
}
struct Unit<'a>(&'a str);
impl<'de> EnumAccess<'de> for Unit<'de> {
    type Error = Er;
    type Variant = UnitVar;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, UnitVar), Er> {
        let d: de::value::StrDeserializer<'_, Er> = self.0.into_deserializer();
        Ok((s.deserialize(d)?, UnitVar))
    }
}
struct UnitVar;
impl<'de> VariantAccess<'de> for UnitVar {
    type Error = Er;
    fn unit_variant(self) -> Result<(), Er> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, Er> {
        Err(Er("variant".into()))
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Er> {
        Err(Er("variant".into()))
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Er> {
        Err(Er("variant".into()))
    }
}
pub const PLAIN: Pres = Pres { map: true, keys: Keys::Str, human: true, hint: 1, widen: false };
/// Deserialize; also returns the number of events.
pub fn from_tok<T: de::DeserializeOwned>(t: &Tok, p: Pres, fail_at: u64) -> (Result<T, Er>, u64) {
    let ev = Cell::new(0);
    let r = T::deserialize(De { t, p, ev: &ev, fail_at });
    (r, ev.get())
}
pub fn build<T: de::DeserializeOwned>(t: &Tok) -> T {
    from_tok(t, PLAIN, u64::MAX).0.unwrap_or_else(|e| panic!("deserializing a valid value failed: {e}"))
}
