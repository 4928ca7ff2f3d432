//! Stand-in for witnet's fork of `cbor-codec` (a git dependency, not available offline).
use std::{collections::BTreeMap, fmt, io};

#[derive(Clone, Debug)]
pub struct Config {
    pub max_len_array: usize,
    pub max_len_bytes: usize,
    pub max_len_text: usize,
    pub max_size_map: usize,
    pub max_nesting: usize,
    pub skip_tags: bool,
}
impl Default for Config {
    fn default() -> Self {
        Config { max_len_array: 1000, max_len_bytes: 0x500000, max_len_text: 0x500000, max_size_map: 1000, max_nesting: 16, skip_tags: true }
    }
}
pub use decoder::GenericDecoder;
pub use encoder::GenericEncoder;

pub mod types {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum Tag {
        DateTime,
        Timestamp,
        Bignum,
        NegativeBignum,
        Decimal,
        Bigfloat,
        ToBase64Url,
        ToBase64,
        ToBase16,
        Cbor,
        Uri,
        Base64Url,
        Base64,
        Regex,
        Mime,
        CborSelf,
        Unassigned(u64),
    }
    impl Tag {
        pub fn of(x: u64) -> Tag {
            use Tag::*;
            match x {
                0 => DateTime, 1 => Timestamp, 2 => Bignum, 3 => NegativeBignum, 4 => Decimal, 5 => Bigfloat,
                21 => ToBase64Url, 22 => ToBase64, 23 => ToBase16, 24 => Cbor, 32 => Uri, 33 => Base64Url,
                34 => Base64, 35 => Regex, 36 => Mime, 55799 => CborSelf, _ => Unassigned(x),
            }
        }
        pub fn to(self) -> u64 {
            use Tag::*;
            match self {
                DateTime => 0, Timestamp => 1, Bignum => 2, NegativeBignum => 3, Decimal => 4, Bigfloat => 5,
                ToBase64Url => 21, ToBase64 => 22, ToBase16 => 23, Cbor => 24, Uri => 32, Base64Url => 33,
                Base64 => 34, Regex => 35, Mime => 36, CborSelf => 55799, Unassigned(x) => x,
            }
        }
    }
}
pub mod value {
    use super::*;
    pub use super::types::Tag;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum Int {
        Neg(u64),
        Pos(u64),
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Text {
        Text(String),
        Chunks(Vec<String>),
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Bytes {
        Bytes(Vec<u8>),
        Chunks(Vec<Vec<u8>>),
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Simple {
        Unassigned(u8),
        Reserved(u8),
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Value {
        Array(Vec<Value>),
        Bool(bool),
        Break,
        Bytes(Bytes),
        F32(f32),
        F64(f64),
        Int(Int),
        I8(i8),
        I16(i16),
        I32(i32),
        I64(i64),
        Map(BTreeMap<Key, Value>),
        Null,
        Simple(Simple),
        Tagged(Tag, Box<Value>),
        Text(Text),
        U8(u8),
        U16(u16),
        U32(u32),
        U64(u64),
        Undefined,
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Key {
        Bool(bool),
        Bytes(Bytes),
        Int(Int),
        Text(Text),
        U8(u8),
        U16(u16),
        U32(u32),
        U64(u64),
        I8(i8),
        I16(i16),
        I32(i32),
        I64(i64),
    }
}
use value::{Bytes, Int, Key, Simple, Text, Value};
use types::Tag;

pub mod encoder {
    use super::*;
    #[derive(Debug)]
    pub enum EncodeError {
        IoError(io::Error),
        UnexpectedEOF,
        InvalidValue(Value),
    }
    impl fmt::Display for EncodeError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for EncodeError {}
    impl From<io::Error> for EncodeError {
        fn from(e: io::Error) -> Self {
            EncodeError::IoError(e)
        }
    }
    pub struct Encoder<W>(W);
    impl<W: io::Write> Encoder<W> {
        pub fn new(w: W) -> Self {
            Encoder(w)
        }
        pub fn into_writer(self) -> W {
            self.0
        }
        fn head(&mut self, major: u8, n: u64) -> Result<(), EncodeError> {
            let m = major << 5;
            if n < 24 {
                self.0.write_all(&[m | n as u8])?
            } else if n <= 0xff {
                self.0.write_all(&[m | 24, n as u8])?
            } else if n <= 0xffff {
                self.0.write_all(&[m | 25])?;
                self.0.write_all(&(n as u16).to_be_bytes())?
            } else if n <= 0xffff_ffff {
                self.0.write_all(&[m | 26])?;
                self.0.write_all(&(n as u32).to_be_bytes())?
            } else {
                self.0.write_all(&[m | 27])?;
                self.0.write_all(&n.to_be_bytes())?
            }
            Ok(())
        }
        fn int(&mut self, x: i64) -> Result<(), EncodeError> {
            if x >= 0 { self.head(0, x as u64) } else { self.head(1, (-1 - x) as u64) }
        }
    }
    pub struct GenericEncoder<W>(Encoder<W>);
    impl<W: io::Write> GenericEncoder<W> {
        pub fn new(w: W) -> Self {
            GenericEncoder(Encoder(w))
        }
        pub fn into_inner(self) -> Encoder<W> {
            self.0
        }
        pub fn borrow_mut(&mut self) -> &mut Encoder<W> {
            &mut self.0
        }
        pub fn value(&mut self, v: &Value) -> Result<(), EncodeError> {
            let e = &mut self.0;
            match v {
                Value::Array(a) => {
                    e.head(4, a.len() as u64)?;
                    for x in a {
                        self.value(x)?
                    }
                }
                Value::Bool(b) => e.0.write_all(&[if *b { 0xf5 } else { 0xf4 }])?,
                Value::Bytes(b) => self.bytes(b)?,
                Value::Text(t) => self.text(t)?,
                Value::F32(f) => {
                    e.0.write_all(&[0xfa])?;
                    e.0.write_all(&f.to_be_bytes())?
                }
                Value::F64(f) => {
                    e.0.write_all(&[0xfb])?;
                    e.0.write_all(&f.to_be_bytes())?
                }
                Value::Int(Int::Pos(x)) => e.head(0, *x)?,
                Value::Int(Int::Neg(x)) => e.head(1, *x)?,
                Value::I8(x) => e.int((*x).into())?,
                Value::I16(x) => e.int((*x).into())?,
                Value::I32(x) => e.int((*x).into())?,
                Value::I64(x) => e.int(*x)?,
                Value::U8(x) => e.head(0, (*x).into())?,
                Value::U16(x) => e.head(0, (*x).into())?,
                Value::U32(x) => e.head(0, (*x).into())?,
                Value::U64(x) => e.head(0, *x)?,
                Value::Map(m) => {
                    e.head(5, m.len() as u64)?;
                    for (k, v) in m {
                        self.key(k)?;
                        self.value(v)?
                    }
                }
                Value::Null => e.0.write_all(&[0xf6])?,
                Value::Undefined => e.0.write_all(&[0xf7])?,
                Value::Simple(Simple::Unassigned(x)) | Value::Simple(Simple::Reserved(x)) => e.head(7, (*x).into())?,
                Value::Tagged(t, b) => {
                    e.head(6, t.to())?;
                    self.value(b)?
                }
                Value::Break => return Err(EncodeError::InvalidValue(v.clone())),
            }
            Ok(())
        }
        fn bytes(&mut self, b: &Bytes) -> Result<(), EncodeError> {
            match b {
                Bytes::Bytes(b) => {
                    self.0.head(2, b.len() as u64)?;
                    self.0.0.write_all(b)?
                }
                Bytes::Chunks(c) => {
                    self.0.0.write_all(&[0x5f])?;
                    for b in c {
                        self.0.head(2, b.len() as u64)?;
                        self.0.0.write_all(b)?
                    }
                    self.0.0.write_all(&[0xff])?
                }
            }
            Ok(())
        }
        fn text(&mut self, t: &Text) -> Result<(), EncodeError> {
            match t {
                Text::Text(b) => {
                    self.0.head(3, b.len() as u64)?;
                    self.0.0.write_all(b.as_bytes())?
                }
                Text::Chunks(c) => {
                    self.0.0.write_all(&[0x7f])?;
                    for b in c {
                        self.0.head(3, b.len() as u64)?;
                        self.0.0.write_all(b.as_bytes())?
                    }
                    self.0.0.write_all(&[0xff])?
                }
            }
            Ok(())
        }
        fn key(&mut self, k: &Key) -> Result<(), EncodeError> {
            match k {
                Key::Bool(b) => self.value(&Value::Bool(*b)),
                Key::Bytes(b) => self.bytes(b),
                Key::Text(t) => self.text(t),
                Key::Int(x) => self.value(&Value::Int(*x)),
                Key::U8(x) => self.value(&Value::U8(*x)),
                Key::U16(x) => self.value(&Value::U16(*x)),
                Key::U32(x) => self.value(&Value::U32(*x)),
                Key::U64(x) => self.value(&Value::U64(*x)),
                Key::I8(x) => self.value(&Value::I8(*x)),
                Key::I16(x) => self.value(&Value::I16(*x)),
                Key::I32(x) => self.value(&Value::I32(*x)),
                Key::I64(x) => self.value(&Value::I64(*x)),
            }
        }
    }
}
pub mod decoder {
    use super::*;
    #[derive(Debug)]
    pub enum DecodeError {
        DuplicateKey(Key),
        IntOverflow(u64),
        InvalidKey(Value),
        InvalidUtf8(std::string::FromUtf8Error),
        InvalidTag(Value),
        IoError(io::Error),
        TooLong { max: usize, actual: u64 },
        TooNested,
        UnexpectedEOF,
        UnexpectedBreak,
        UnexpectedType { datatype: u8, info: u8 },
    }
    impl fmt::Display for DecodeError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "DecodeError: {self:?}")
        }
    }
    impl std::error::Error for DecodeError {}
    impl From<io::Error> for DecodeError {
        fn from(e: io::Error) -> Self {
            if e.kind() == io::ErrorKind::UnexpectedEof { DecodeError::UnexpectedEOF } else { DecodeError::IoError(e) }
        }
    }
    type R<T> = Result<T, DecodeError>;
    pub struct GenericDecoder<I> {
        cfg: Config,
        r: I,
    }
    impl<I: io::Read> GenericDecoder<I> {
        pub fn new(cfg: Config, r: I) -> Self {
            GenericDecoder { cfg, r }
        }
        pub fn value(&mut self) -> R<Value> {
            let n = self.cfg.max_nesting;
            self.dec(n)
        }
        fn exact<const N: usize>(&mut self) -> R<[u8; N]> {
            let mut b = [0; N];
            self.r.read_exact(&mut b)?;
            Ok(b)
        }
        fn len(&mut self, info: u8) -> R<u64> {
            Ok(match info {
                0..=23 => info.into(),
                24 => self.exact::<1>()?[0].into(),
                25 => u16::from_be_bytes(self.exact()?).into(),
                26 => u32::from_be_bytes(self.exact()?).into(),
                27 => u64::from_be_bytes(self.exact()?),
                _ => return Err(DecodeError::UnexpectedType { datatype: 0, info }),
            })
        }
        fn raw(&mut self, info: u8, max: usize) -> R<Vec<u8>> {
            let n = self.len(info)?;
            if n > max as u64 {
                return Err(DecodeError::TooLong { max, actual: n });
            }
            let mut v = vec![0; n as usize];
            self.r.read_exact(&mut v)?;
            Ok(v)
        }
        fn dec(&mut self, level: usize) -> R<Value> {
            if level == 0 {
                return Err(DecodeError::TooNested);
            }
            let b = self.exact::<1>()?[0];
            let (major, info) = (b >> 5, b & 31);
            Ok(match major {
                0 => {
                    let n = self.len(info)?;
                    match info {
                        0..=24 => Value::U8(n as u8),
                        25 => Value::U16(n as u16),
                        26 => Value::U32(n as u32),
                        _ => Value::U64(n),
                    }
                }
                1 => {
                    let n = self.len(info)?;
                    match n {
                        0..=0x7f => Value::I8(-1 - n as i8),
                        0x80..=0x7fff => Value::I16(-1 - n as i16),
                        0x8000..=0x7fff_ffff => Value::I32(-1 - n as i32),
                        0x8000_0000..=0x7fff_ffff_ffff_ffff => Value::I64(-1 - n as i64),
                        _ => Value::Int(Int::Neg(n)),
                    }
                }
                2 if info == 31 => {
                    let mut c = vec![];
                    loop {
                        let b = self.exact::<1>()?[0];
                        if b == 0xff {
                            break;
                        }
                        if b >> 5 != 2 || b & 31 == 31 {
                            return Err(DecodeError::UnexpectedType { datatype: b >> 5, info: b & 31 });
                        }
                        let m = self.cfg.max_len_bytes;
                        c.push(self.raw(b & 31, m)?);
                    }
                    Value::Bytes(Bytes::Chunks(c))
                }
                2 => {
                    let m = self.cfg.max_len_bytes;
                    Value::Bytes(Bytes::Bytes(self.raw(info, m)?))
                }
                3 if info == 31 => {
                    let mut c = vec![];
                    loop {
                        let b = self.exact::<1>()?[0];
                        if b == 0xff {
                            break;
                        }
                        if b >> 5 != 3 || b & 31 == 31 {
                            return Err(DecodeError::UnexpectedType { datatype: b >> 5, info: b & 31 });
                        }
                        let m = self.cfg.max_len_text;
                        c.push(String::from_utf8(self.raw(b & 31, m)?).map_err(DecodeError::InvalidUtf8)?);
                    }
                    Value::Text(Text::Chunks(c))
                }
                3 => {
                    let m = self.cfg.max_len_text;
                    Value::Text(Text::Text(String::from_utf8(self.raw(info, m)?).map_err(DecodeError::InvalidUtf8)?))
                }
                4 => {
                    let mut v = vec![];
                    if info == 31 {
                        loop {
                            match self.dec(level - 1)? {
                                Value::Break => break,
                                x => v.push(x),
                            }
                            if v.len() > self.cfg.max_len_array {
                                return Err(DecodeError::TooLong { max: self.cfg.max_len_array, actual: v.len() as u64 });
                            }
                        }
                    } else {
                        let n = self.len(info)?;
                        if n > self.cfg.max_len_array as u64 {
                            return Err(DecodeError::TooLong { max: self.cfg.max_len_array, actual: n });
                        }
                        for _ in 0..n {
                            match self.dec(level - 1)? {
                                Value::Break => return Err(DecodeError::UnexpectedBreak),
                                x => v.push(x),
                            }
                        }
                    }
                    Value::Array(v)
                }
                5 => {
                    let mut m = BTreeMap::new();
                    let n = if info == 31 { u64::MAX } else { self.len(info)? };
                    if info != 31 && n > self.cfg.max_size_map as u64 {
                        return Err(DecodeError::TooLong { max: self.cfg.max_size_map, actual: n });
                    }
                    let mut i = 0;
                    while i < n {
                        let k = match self.dec(level - 1)? {
                            Value::Break if info == 31 => break,
                            Value::Bool(x) => Key::Bool(x),
                            Value::Bytes(x) => Key::Bytes(x),
                            Value::Text(x) => Key::Text(x),
                            Value::Int(x) => Key::Int(x),
                            Value::U8(x) => Key::U8(x),
                            Value::U16(x) => Key::U16(x),
                            Value::U32(x) => Key::U32(x),
                            Value::U64(x) => Key::U64(x),
                            Value::I8(x) => Key::I8(x),
                            Value::I16(x) => Key::I16(x),
                            Value::I32(x) => Key::I32(x),
                            Value::I64(x) => Key::I64(x),
                            other => return Err(DecodeError::InvalidKey(other)),
                        };
                        if m.contains_key(&k) {
                            return Err(DecodeError::DuplicateKey(k));
                        }
                        let v = match self.dec(level - 1)? {
                            Value::Break => return Err(DecodeError::UnexpectedBreak),
                            x => x,
                        };
                        m.insert(k, v);
                        i += 1;
                    }
                    Value::Map(m)
                }
                6 => {
                    let t = Tag::of(self.len(info)?);
                    Value::Tagged(t, Box::new(self.dec(level - 1)?))
                }
                _ => match info {
                    0..=19 => Value::Simple(Simple::Unassigned(info)),
                    20 => Value::Bool(false),
                    21 => Value::Bool(true),
                    22 => Value::Null,
                    23 => Value::Undefined,
                    24 => match self.exact::<1>()?[0] {
                        x @ 0..=31 => Value::Simple(Simple::Reserved(x)),
                        x => Value::Simple(Simple::Unassigned(x)),
                    },
                    25 => Value::F32(half(u16::from_be_bytes(self.exact()?))),
                    26 => Value::F32(f32::from_be_bytes(self.exact()?)),
                    27 => Value::F64(f64::from_be_bytes(self.exact()?)),
                    31 => Value::Break,
                    _ => return Err(DecodeError::UnexpectedType { datatype: 7, info }),
                },
            })
        }
    }
    fn half(h: u16) -> f32 {
        let e = i32::from(h >> 10 & 31);
        let m = f32::from(h & 0x3ff);
        let v = match e {
            0 => m * 2f32.powi(-24),
            31 if m == 0.0 => f32::INFINITY,
            31 => f32::NAN,
            _ => (m + 1024.0) * 2f32.powi(e - 25),
        };
        if h >> 15 == 1 { -v } else { v }
    }
}
