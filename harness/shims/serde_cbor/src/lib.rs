//! Stand-in for `serde_cbor` 0.11 on top of ciborium (serde_cbor is not available offline).
use serde::{Serialize, de::DeserializeOwned};
use std::{fmt, io};
pub mod error {
    pub use super::{Error, Result};
}
pub mod value {
    pub use super::{Value, from_value, to_value};
}
#[derive(Debug)]
pub struct Error(String);
pub type Result<T> = std::result::Result<T, Error>;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
pub enum Value {
    Null,
    Bool(bool),
    Integer(i128),
    Float(f64),
    Bytes(Vec<u8>),
    Text(String),
    Array(Vec<Value>),
    Map(std::collections::BTreeMap<Value, Value>),
    Tag(u64, Box<Value>),
    #[doc(hidden)]
    __Hidden,
}
impl Value {
    fn major(&self) -> u8 {
        use Value::*;
        match self {
            Null | Bool(_) | Float(_) => 7,
            Integer(v) => (*v < 0) as u8,
            Tag(..) => 6,
            Bytes(_) => 2,
            Text(_) => 3,
            Array(_) => 4,
            Map(_) => 5,
            __Hidden => unreachable!(),
        }
    }
}
impl Ord for Value {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        use std::cmp::Ordering;
        use Value::*;
        if self.major() != o.major() {
            return self.major().cmp(&o.major());
        }
        match (self, o) {
            (Integer(a), Integer(b)) => a.abs().cmp(&b.abs()),
            (Bytes(a), Bytes(b)) => a.len().cmp(&b.len()).then_with(|| a.cmp(b)),
            (Text(a), Text(b)) => a.len().cmp(&b.len()).then_with(|| a.cmp(b)),
            (Array(a), Array(b)) => a.cmp(b),
            (Map(a), Map(b)) => a.len().cmp(&b.len()).then_with(|| a.iter().cmp(b.iter())),
            (Bool(a), Bool(b)) => a.cmp(b),
            (Null, Null) => Ordering::Equal,
            (Tag(a, x), Tag(b, y)) => a.cmp(b).then_with(|| x.cmp(y)),
            (a, b) => to_vec(a).unwrap().cmp(&to_vec(b).unwrap()),
        }
    }
}
impl PartialOrd for Value {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for Value {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == std::cmp::Ordering::Equal
    }
}
impl Eq for Value {}
macro_rules! from {
    ($v:ident: $($t:ty),*) => { $(impl From<$t> for Value { fn from(x: $t) -> Self { Value::$v(x.into()) } })* };
}
from!(Integer: i8, i16, i32, i64, i128, u8, u16, u32, u64);
from!(Float: f32, f64);
from!(Bool: bool);
from!(Text: String);
from!(Bytes: Vec<u8>);
from!(Array: Vec<Value>);
impl From<std::collections::BTreeMap<Value, Value>> for Value {
    fn from(x: std::collections::BTreeMap<Value, Value>) -> Self {
        Value::Map(x)
    }
}
impl From<&str> for Value {
    fn from(x: &str) -> Self {
        Value::Text(x.to_string())
    }
}
impl Value {
    fn to_c(&self) -> ciborium::Value {
        use ciborium::Value as C;
        match self {
            Value::Null | Value::__Hidden => C::Null,
            Value::Bool(b) => C::Bool(*b),
            Value::Integer(i) => match ciborium::value::Integer::try_from(*i) {
                Ok(i) => C::Integer(i),
                Err(_) => C::Null,
            },
            Value::Float(f) => C::Float(*f),
            Value::Bytes(b) => C::Bytes(b.clone()),
            Value::Text(t) => C::Text(t.clone()),
            Value::Array(a) => C::Array(a.iter().map(Value::to_c).collect()),
            Value::Map(m) => C::Map(m.iter().map(|(k, v)| (k.to_c(), v.to_c())).collect()),
            Value::Tag(t, v) => C::Tag(*t, Box::new(v.to_c())),
        }
    }
}
impl Value {
    /// whether 64 bits and a sign can hold all of its integers
    fn fits(&self) -> bool {
        match self {
            Value::Integer(i) => ciborium::value::Integer::try_from(*i).is_ok(),
            Value::Array(a) => a.iter().all(Value::fits),
            Value::Map(m) => m.iter().all(|(k, v)| k.fits() && v.fits()),
            Value::Tag(_, v) => v.fits(),
            _ => true,
        }
    }
}
impl Serialize for Value {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        if !self.fits() {
            return Err(serde::ser::Error::custom("The number can't be stored in CBOR"));
        }
        self.to_c().serialize(s)
    }
}

/// Decoded item: integers keep their sign, everything else as in `Value`.
enum Item {
    Null,
    Bool(bool),
    U(u64),
    N(u64),
    F32(f32),
    F64(f64),
    Bytes(Vec<u8>),
    Text(String),
    Array(Vec<Item>),
    Map(Vec<(Item, Item)>),
    Break,
}
struct Rd<'a>(&'a [u8]);
impl Rd<'_> {
    fn take(&mut self, n: usize) -> Result<&[u8]> {
        if n > self.0.len() {
            return Err(Error("EofWhileParsingValue".into()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn num(&mut self, info: u8) -> Result<u64> {
        Ok(match info {
            0..=23 => info.into(),
            24 => self.take(1)?[0].into(),
            25 => u16::from_be_bytes(self.take(2)?.try_into().unwrap()).into(),
            26 => u32::from_be_bytes(self.take(4)?.try_into().unwrap()).into(),
            27 => u64::from_be_bytes(self.take(8)?.try_into().unwrap()),
            _ => return Err(Error("UnassignedCode".into())),
        })
    }
    fn item(&mut self, depth: usize) -> Result<Item> {
        if depth == 0 {
            return Err(Error("RecursionLimitExceeded".into()));
        }
        let b = self.take(1)?[0];
        let (m, i) = (b >> 5, b & 31);
        Ok(match m {
            0 => Item::U(self.num(i)?),
            1 => Item::N(self.num(i)?),
            2 | 3 => {
                let mut v = vec![];
                if i == 31 {
                    loop {
                        let b = self.take(1)?[0];
                        if b == 0xff {
                            break;
                        }
                        if b >> 5 != m {
                            return Err(Error("UnexpectedCode".into()));
                        }
                        let n = self.num(b & 31)?;
                        v.extend_from_slice(self.take(usize::try_from(n).unwrap_or(usize::MAX))?);
                    }
                } else {
                    let n = self.num(i)?;
                    v = self.take(usize::try_from(n).unwrap_or(usize::MAX))?.to_vec();
                }
                if m == 2 { Item::Bytes(v) } else { Item::Text(String::from_utf8(v).map_err(|_| Error("InvalidUtf8".into()))?) }
            }
            4 => {
                let n = if i == 31 { u64::MAX } else { self.num(i)? };
                let mut v = vec![];
                while (v.len() as u64) < n {
                    match self.item(depth - 1)? {
                        Item::Break if i == 31 => break,
                        Item::Break => return Err(Error("UnexpectedCode".into())),
                        x => v.push(x),
                    }
                }
                Item::Array(v)
            }
            5 => {
                let n = if i == 31 { u64::MAX } else { self.num(i)? };
                let mut v = vec![];
                while (v.len() as u64) < n {
                    let k = match self.item(depth - 1)? {
                        Item::Break if i == 31 => break,
                        Item::Break => return Err(Error("UnexpectedCode".into())),
                        x => x,
                    };
                    let w = match self.item(depth - 1)? {
                        Item::Break => return Err(Error("UnexpectedCode".into())),
                        x => x,
                    };
                    v.push((k, w));
                }
                Item::Map(v)
            }
            // the original drops tags unless its `tags` feature is enabled
            6 => {
                self.num(i)?;
                self.item(depth - 1)?
            }
            _ => match i {
                20 => Item::Bool(false),
                21 => Item::Bool(true),
                22 | 23 => Item::Null,
                25 => Item::F32(half(self.num(25)? as u16)),
                26 => Item::F32(f32::from_bits(self.num(26)? as u32)),
                27 => Item::F64(f64::from_bits(self.num(27)?)),
                31 => Item::Break,
                _ => return Err(Error("UnassignedCode".into())),
            },
        })
    }
}
fn half(h: u16) -> f32 {
    let (e, m) = (i32::from(h >> 10 & 31), f32::from(h & 0x3ff));
    let v = match e {
        0 => m * 2f32.powi(-24),
        31 if m == 0.0 => f32::INFINITY,
        31 => f32::NAN,
        _ => (m + 1024.0) * 2f32.powi(e - 25),
    };
    if h >> 15 == 1 { -v } else { v }
}
impl serde::de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl<'de> serde::Deserializer<'de> for Item {
    type Error = Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        use serde::de::value::{MapDeserializer, SeqDeserializer};
        match self {
            Item::Null => v.visit_unit(),
            Item::Bool(b) => v.visit_bool(b),
            Item::U(n) => v.visit_u64(n),
            Item::N(n) if n <= i64::MAX as u64 => v.visit_i64(-1 - n as i64),
            Item::N(n) => v.visit_i128(-1 - i128::from(n)),
            Item::F32(f) => v.visit_f32(f),
            Item::F64(f) => v.visit_f64(f),
            Item::Bytes(b) => v.visit_byte_buf(b),
            Item::Text(t) => v.visit_string(t),
            Item::Array(a) => {
                let mut d = SeqDeserializer::new(a.into_iter());
                let r = v.visit_seq(&mut d)?;
                d.end()?;
                Ok(r)
            }
            Item::Map(m) => {
                let mut d = MapDeserializer::new(m.into_iter());
                let r = v.visit_map(&mut d)?;
                d.end()?;
                Ok(r)
            }
            Item::Break => Err(Error("UnexpectedCode".into())),
        }
    }
    fn deserialize_option<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self {
            Item::Null => v.visit_none(),
            x => v.visit_some(x),
        }
    }
    fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: serde::de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value> {
        match self {
            Item::Map(mut m) if m.len() == 1 => {
                let (k, x) = m.remove(0);
                v.visit_enum(En(k, Some(x)))
            }
            k @ (Item::Text(_) | Item::U(_)) => v.visit_enum(En(k, None)),
            _ => Err(Error("expected enum".into())),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct identifier ignored_any
    }
}
impl<'de> serde::de::IntoDeserializer<'de, Error> for Item {
    type Deserializer = Item;
    fn into_deserializer(self) -> Item {
        self
    }
}
struct En(Item, Option<Item>);
impl<'de> serde::de::EnumAccess<'de> for En {
    type Error = Error;
    type Variant = Va;
    fn variant_seed<S: serde::de::DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Va)> {
        Ok((s.deserialize(self.0)?, Va(self.1)))
    }
}
struct Va(Option<Item>);
impl<'de> serde::de::VariantAccess<'de> for Va {
    type Error = Error;
    fn unit_variant(self) -> Result<()> {
        if self.0.is_none() { Ok(()) } else { Err(Error("unit variant".into())) }
    }
    fn newtype_variant_seed<S: serde::de::DeserializeSeed<'de>>(self, s: S) -> Result<S::Value> {
        s.deserialize(self.0.ok_or(Error("newtype variant".into()))?)
    }
    fn tuple_variant<V: serde::de::Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value> {
        serde::Deserializer::deserialize_any(self.0.ok_or(Error("tuple variant".into()))?, v)
    }
    fn struct_variant<V: serde::de::Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value> {
        serde::Deserializer::deserialize_any(self.0.ok_or(Error("struct variant".into()))?, v)
    }
}
struct Vv;
impl<'de> serde::de::Visitor<'de> for Vv {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("any valid CBOR value")
    }
    fn visit_unit<E>(self) -> std::result::Result<Value, E> {
        Ok(Value::Null)
    }
    fn visit_none<E>(self) -> std::result::Result<Value, E> {
        Ok(Value::Null)
    }
    fn visit_bool<E>(self, x: bool) -> std::result::Result<Value, E> {
        Ok(Value::Bool(x))
    }
    fn visit_u64<E>(self, x: u64) -> std::result::Result<Value, E> {
        Ok(Value::Integer(x.into()))
    }
    fn visit_i64<E>(self, x: i64) -> std::result::Result<Value, E> {
        Ok(Value::Integer(x.into()))
    }
    fn visit_i128<E>(self, x: i128) -> std::result::Result<Value, E> {
        Ok(Value::Integer(x))
    }
    fn visit_f64<E>(self, x: f64) -> std::result::Result<Value, E> {
        Ok(Value::Float(x))
    }
    fn visit_str<E>(self, x: &str) -> std::result::Result<Value, E> {
        Ok(Value::Text(x.to_string()))
    }
    fn visit_byte_buf<E>(self, x: Vec<u8>) -> std::result::Result<Value, E> {
        Ok(Value::Bytes(x))
    }
    fn visit_bytes<E>(self, x: &[u8]) -> std::result::Result<Value, E> {
        Ok(Value::Bytes(x.to_vec()))
    }
    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> std::result::Result<Value, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element()? {
            v.push(x);
        }
        Ok(Value::Array(v))
    }
    fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> std::result::Result<Value, A::Error> {
        let mut v = std::collections::BTreeMap::new();
        while let Some((k, x)) = a.next_entry()? {
            v.insert(k, x);
        }
        Ok(Value::Map(v))
    }
}
impl<'de> serde::Deserialize<'de> for Value {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        d.deserialize_any(Vv)
    }
}
pub fn to_vec<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>> {
    let mut o = Vec::new();
    ciborium::into_writer(v, &mut o).map_err(|e| Error(e.to_string()))?;
    Ok(o)
}
pub fn from_slice<T: DeserializeOwned>(b: &[u8]) -> Result<T> {
    let mut r = Rd(b);
    let it = r.item(128)?;
    if !r.0.is_empty() {
        return Err(Error("TrailingData".into()));
    }
    T::deserialize(it)
}
pub fn from_reader<T: DeserializeOwned, R: io::Read>(mut r: R) -> Result<T> {
    let mut b = vec![];
    r.read_to_end(&mut b).map_err(|e| Error(e.to_string()))?;
    from_slice(&b)
}
pub fn to_value<T: Serialize>(v: T) -> Result<Value> {
    from_slice(&to_vec(&v)?)
}
pub fn from_value<T: DeserializeOwned>(v: Value) -> Result<T> {
    from_slice(&to_vec(&v)?)
}
