//! Stand-in for `bech32` 0.11 (only 0.7 is available offline). `decode` accepts both bech32 and
//! bech32m checksums, as the original does.
use std::fmt;
const CHARSET: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
pub trait Checksum {
    const TARGET: u32;
}
pub enum Bech32 {}
pub enum Bech32m {}
impl Checksum for Bech32 {
    const TARGET: u32 = 1;
}
impl Checksum for Bech32m {
    const TARGET: u32 = 0x2bc8_30a3;
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Hrp(String);
impl Hrp {
    pub fn parse_unchecked(s: &str) -> Self {
        Hrp(s.to_lowercase())
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for Hrp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError {
    Parse,
    MixedCase,
    Checksum,
    Padding,
}
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DecodeError {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EncodeError;
impl fmt::Display for EncodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("too long")
    }
}
impl std::error::Error for EncodeError {}
fn polymod(v: impl Iterator<Item = u8>) -> u32 {
    const GEN: [u32; 5] = [0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3];
    let mut c = 1u32;
    for x in v {
        let b = c >> 25;
        c = (c & 0x1ff_ffff) << 5 ^ u32::from(x);
        for (i, g) in GEN.iter().enumerate() {
            if b >> i & 1 == 1 {
                c ^= g;
            }
        }
    }
    c
}
fn expand(h: &str) -> Vec<u8> {
    let mut v: Vec<u8> = h.bytes().map(|b| b >> 5).collect();
    v.push(0);
    v.extend(h.bytes().map(|b| b & 31));
    v
}
pub fn encode<C: Checksum>(hrp: Hrp, data: &[u8]) -> Result<String, EncodeError> {
    let mut five = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in data {
        acc = acc << 8 | u32::from(*b);
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            five.push((acc >> bits & 31) as u8);
        }
    }
    if bits > 0 {
        five.push((acc << (5 - bits) & 31) as u8);
    }
    let mut s = hrp.0.clone();
    s.push('1');
    for x in &five {
        s.push(CHARSET[*x as usize] as char);
    }
    let pm = polymod(expand(&hrp.0).into_iter().chain(five).chain([0; 6])) ^ C::TARGET;
    for i in 0..6 {
        s.push(CHARSET[(pm >> (5 * (5 - i)) & 31) as usize] as char);
    }
    Ok(s)
}
pub fn decode(s: &str) -> Result<(Hrp, Vec<u8>), DecodeError> {
    if s.bytes().any(|b| b.is_ascii_uppercase()) && s.bytes().any(|b| b.is_ascii_lowercase()) {
        return Err(DecodeError::MixedCase);
    }
    let low = s.to_ascii_lowercase();
    let pos = low.rfind('1').ok_or(DecodeError::Parse)?;
    let (h, d) = (&low[..pos], &low[pos + 1..]);
    if h.is_empty() || h.len() > 83 || h.bytes().any(|b| !(33..=126).contains(&b)) || d.len() < 6 {
        return Err(DecodeError::Parse);
    }
    let five: Vec<u8> = d
        .bytes()
        .map(|b| CHARSET.iter().position(|c| *c == b).map(|p| p as u8).ok_or(DecodeError::Parse))
        .collect::<Result<_, _>>()?;
    let pm = polymod(expand(h).into_iter().chain(five.iter().copied()));
    if pm != Bech32::TARGET && pm != Bech32m::TARGET {
        return Err(DecodeError::Checksum);
    }
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for x in &five[..five.len() - 6] {
        acc = acc << 5 | u32::from(*x);
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if bits >= 5 || acc != 0 {
        return Err(DecodeError::Padding);
    }
    Ok((Hrp(h.to_string()), out))
}
