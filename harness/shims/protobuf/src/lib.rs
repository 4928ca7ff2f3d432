//! Stand-in for the `protobuf` 2.28 runtime (not available offline): proto3 wire format, same
//! observable behaviour for the message kinds used by `schemas/witnet/witnet.proto`.
//! The message types themselves are generated by `shims/data_structures/build.rs`.
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ProtobufError {
    UnexpectedEof,
    IncorrectVarint,
    IncorrectTag(u32),
    UnexpectedWireType(u8),
    Utf8,
    OverRecursionLimit,
}
impl fmt::Display for ProtobufError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "protobuf error: {self:?}")
    }
}
impl std::error::Error for ProtobufError {}
pub type ProtobufResult<T> = Result<T, ProtobufError>;

/// Fields that the schema does not know: kept and written back, as the real runtime does.
#[derive(Clone, Default, Debug, PartialEq)]
pub struct UnknownFields(pub Vec<u8>);

pub trait Message: fmt::Debug + Send + Sync + 'static {
    fn new() -> Self
    where
        Self: Sized;
    fn encode_into(&self, out: &mut Vec<u8>);
    fn merge_limited(&mut self, input: &mut Input<'_>) -> ProtobufResult<()>;
    fn write_to_bytes(&self) -> ProtobufResult<Vec<u8>> {
        let mut v = Vec::new();
        self.encode_into(&mut v);
        Ok(v)
    }
    fn merge_from_bytes(&mut self, bytes: &[u8]) -> ProtobufResult<()> {
        let mut i = Input { b: bytes, depth: 0 };
        self.merge_limited(&mut i)
    }
    fn compute_size(&self) -> u32 {
        let mut v = Vec::new();
        self.encode_into(&mut v);
        v.len() as u32
    }
    fn get_cached_size(&self) -> u32 {
        self.compute_size()
    }
}

pub struct Input<'a> {
    b: &'a [u8],
    depth: u32,
}
impl<'a> Input<'a> {
    pub fn eof(&self) -> bool {
        self.b.is_empty()
    }
    fn byte(&mut self) -> ProtobufResult<u8> {
        let (x, r) = self.b.split_first().ok_or(ProtobufError::UnexpectedEof)?;
        self.b = r;
        Ok(*x)
    }
    pub fn take(&mut self, n: usize) -> ProtobufResult<&'a [u8]> {
        if n > self.b.len() {
            return Err(ProtobufError::UnexpectedEof);
        }
        let (x, r) = self.b.split_at(n);
        self.b = r;
        Ok(x)
    }
    pub fn varint(&mut self) -> ProtobufResult<u64> {
        let mut r = 0u64;
        for i in 0..10 {
            let b = self.byte()?;
            if i == 9 && b > 1 {
                return Err(ProtobufError::IncorrectVarint);
            }
            r |= u64::from(b & 0x7f) << (7 * i);
            if b & 0x80 == 0 {
                return Ok(r);
            }
        }
        Err(ProtobufError::IncorrectVarint)
    }
    pub fn tag(&mut self) -> ProtobufResult<(u32, u8)> {
        let t = self.varint()? as u32;
        if t >> 3 == 0 || t & 7 > 5 {
            return Err(ProtobufError::IncorrectTag(t));
        }
        Ok((t >> 3, (t & 7) as u8))
    }
    pub fn fixed32(&mut self) -> ProtobufResult<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn fixed64(&mut self) -> ProtobufResult<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn bytes(&mut self) -> ProtobufResult<Vec<u8>> {
        let n = self.varint()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    pub fn string(&mut self) -> ProtobufResult<String> {
        String::from_utf8(self.bytes()?).map_err(|_| ProtobufError::Utf8)
    }
    pub fn message<M: Message>(&mut self, m: &mut M) -> ProtobufResult<()> {
        if self.depth >= 100 {
            return Err(ProtobufError::OverRecursionLimit);
        }
        let n = self.varint()? as usize;
        let b = self.take(n)?;
        let mut i = Input { b, depth: self.depth + 1 };
        m.merge_limited(&mut i)
    }
    pub fn skip(&mut self, field: u32, wire: u8, unk: &mut UnknownFields) -> ProtobufResult<()> {
        put_tag(&mut unk.0, field, wire);
        match wire {
            0 => {
                let v = self.varint()?;
                put_varint(&mut unk.0, v);
            }
            1 => unk.0.extend_from_slice(self.take(8)?),
            2 => {
                let n = self.varint()?;
                put_varint(&mut unk.0, n);
                unk.0.extend_from_slice(self.take(n as usize)?);
            }
            5 => unk.0.extend_from_slice(self.take(4)?),
            w => return Err(ProtobufError::UnexpectedWireType(w)),
        }
        Ok(())
    }
}
pub fn expect(wire: u8, want: u8) -> ProtobufResult<()> {
    if wire == want { Ok(()) } else { Err(ProtobufError::UnexpectedWireType(wire)) }
}
pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8 & 0x7f) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
pub fn put_tag(out: &mut Vec<u8>, field: u32, wire: u8) {
    put_varint(out, u64::from(field << 3 | u32::from(wire)));
}
pub fn put_bytes(out: &mut Vec<u8>, field: u32, b: &[u8]) {
    put_tag(out, field, 2);
    put_varint(out, b.len() as u64);
    out.extend_from_slice(b);
}
pub fn put_message<M: Message>(out: &mut Vec<u8>, field: u32, m: &M) {
    let mut v = Vec::new();
    m.encode_into(&mut v);
    put_bytes(out, field, &v);
}
