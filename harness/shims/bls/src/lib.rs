//! Mock of the BLS library (not available offline): keyed hashes with the sizes of the real keys.
//! Nothing that depends on pairing arithmetic is checked through it.
use std::fmt;
use sha2::{Digest, Sha256};

fn h(parts: &[&[u8]]) -> [u8; 32] {
    let mut d = Sha256::new();
    for p in parts {
        d.update((p.len() as u64).to_be_bytes());
        d.update(p);
    }
    d.finalize().into()
}
pub trait MultiSignature<PublicKey, SecretKey, Sig> {
    type Error;
    fn derive_public_key(&mut self, s: SecretKey) -> Result<Vec<u8>, Self::Error>;
    fn sign(&mut self, s: SecretKey, m: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn verify(&mut self, sig: Sig, m: &[u8], p: PublicKey) -> Result<(), Self::Error>;
    fn aggregate_signatures(&mut self, sigs: &[Sig]) -> Result<Vec<u8>, Self::Error>;
    fn aggregate_public_keys(&mut self, ps: &[PublicKey]) -> Result<Vec<u8>, Self::Error>;
}
pub mod bn256 {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error {
        InvalidLength,
        InvalidPoint,
        Verification,
        Unsupported,
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "bn256: {self:?}")
        }
    }
    impl std::error::Error for Error {}
    pub struct Bn256;
    pub struct PublicKey(Vec<u8>);
    pub struct PrivateKey(#[allow(dead_code)] Vec<u8>);
    impl PublicKey {
        pub fn from_compressed(b: impl AsRef<[u8]>) -> Result<Self, Error> {
            let b = b.as_ref();
            if b.len() != 65 {
                return Err(Error::InvalidLength);
            }
            if b[0] != 0x0a && b[0] != 0x0b {
                return Err(Error::InvalidPoint);
            }
            Ok(PublicKey(b.to_vec()))
        }
        pub fn to_uncompressed(&self) -> Result<Vec<u8>, Error> {
            let mut v = vec![4u8];
            v.extend_from_slice(&self.0[1..]);
            v.extend_from_slice(&h(&[b"y0", &self.0]));
            v.extend_from_slice(&h(&[b"y1", &self.0]));
            Ok(v)
        }
        pub fn to_compressed(&self) -> Result<Vec<u8>, Error> {
            Ok(self.0.clone())
        }
    }
    impl PrivateKey {
        pub fn new(b: impl AsRef<[u8]>) -> Result<Self, Error> {
            let b = b.as_ref();
            if b.len() != 32 { Err(Error::InvalidLength) } else { Ok(PrivateKey(b.to_vec())) }
        }
    }
    impl MultiSignature<&[u8], &[u8], &[u8]> for Bn256 {
        type Error = Error;
        fn derive_public_key(&mut self, s: &[u8]) -> Result<Vec<u8>, Error> {
            PrivateKey::new(s)?;
            let mut v = vec![0x0a];
            v.extend_from_slice(&h(&[b"x0", s]));
            v.extend_from_slice(&h(&[b"x1", s]));
            Ok(v)
        }
        fn sign(&mut self, s: &[u8], m: &[u8]) -> Result<Vec<u8>, Error> {
            let p = self.derive_public_key(s)?;
            let mut v = vec![0x02];
            v.extend_from_slice(&h(&[b"sig", &p, m]));
            Ok(v)
        }
        fn verify(&mut self, sig: &[u8], m: &[u8], p: &[u8]) -> Result<(), Error> {
            PublicKey::from_compressed(p)?;
            let mut v = vec![0x02];
            v.extend_from_slice(&h(&[b"sig", p, m]));
            if v == sig { Ok(()) } else { Err(Error::Verification) }
        }
        fn aggregate_signatures(&mut self, _: &[&[u8]]) -> Result<Vec<u8>, Error> {
            Err(Error::Unsupported)
        }
        fn aggregate_public_keys(&mut self, _: &[&[u8]]) -> Result<Vec<u8>, Error> {
            Err(Error::Unsupported)
        }
    }
}
