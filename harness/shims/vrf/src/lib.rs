//! ECVRF-SECP256K1-SHA256-TAI over libsecp256k1 (the `vrf` crate needs OpenSSL bindings that are
//! not available offline). Same construction, so uniqueness and pseudorandomness carry over.
pub trait VRF<PublicKey, SecretKey> {
    type Error;
    fn prove(&mut self, x: SecretKey, alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn verify(&mut self, y: PublicKey, pi: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
}
pub mod openssl {
    use super::VRF;
    use secp256k1::{PublicKey, Scalar, Secp256k1, SecretKey};
    use sha2::{Digest, Sha256};
    const SUITE: u8 = 0xfe;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CipherSuite {
        P256_SHA256_TAI,
        K163_SHA256_TAI,
        SECP256K1_SHA256_TAI,
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error {
        HashToPointError,
        InvalidPiLength,
        InvalidProof,
        Curve(secp256k1::Error),
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "vrf: {self:?}")
        }
    }
    impl std::error::Error for Error {}
    impl From<secp256k1::Error> for Error {
        fn from(e: secp256k1::Error) -> Self {
            Error::Curve(e)
        }
    }
    #[derive(Debug)]
    pub struct ECVRF(Secp256k1<secp256k1::All>);

    fn sha(parts: &[&[u8]]) -> [u8; 32] {
        let mut d = Sha256::new();
        for p in parts {
            d.update(p);
        }
        d.finalize().into()
    }
    fn hash_to_point(pk: &[u8], alpha: &[u8]) -> Result<PublicKey, Error> {
        for ctr in 0..=255u8 {
            let h = sha(&[&[SUITE, 1], pk, alpha, &[ctr]]);
            let mut b = vec![2];
            b.extend_from_slice(&h);
            if let Ok(p) = PublicKey::from_slice(&b) {
                return Ok(p);
            }
        }
        Err(Error::HashToPointError)
    }
    fn challenge(points: [&PublicKey; 4]) -> [u8; 16] {
        let mut d = Sha256::new();
        d.update([SUITE, 2]);
        for p in points {
            d.update(p.serialize());
        }
        let h: [u8; 32] = d.finalize().into();
        h[..16].try_into().unwrap()
    }
    fn scalar(b: &[u8]) -> Result<Scalar, Error> {
        let mut x = [0u8; 32];
        x[32 - b.len()..].copy_from_slice(b);
        Scalar::from_be_bytes(x).map_err(|_| Error::InvalidProof)
    }
    impl ECVRF {
        pub fn from_suite(_: CipherSuite) -> Result<Self, Error> {
            Ok(ECVRF(Secp256k1::new()))
        }
        pub fn derive_public_key(&mut self, sk: &[u8]) -> Result<Vec<u8>, Error> {
            Ok(SecretKey::from_slice(sk)?.public_key(&self.0).serialize().to_vec())
        }
        fn parse<'a>(&self, pi: &'a [u8]) -> Result<(PublicKey, &'a [u8], &'a [u8]), Error> {
            if pi.len() != 81 {
                return Err(Error::InvalidPiLength);
            }
            Ok((PublicKey::from_slice(&pi[..33])?, &pi[33..49], &pi[49..]))
        }
        pub fn proof_to_hash(&mut self, pi: &[u8]) -> Result<Vec<u8>, Error> {
            let (g, _, _) = self.parse(pi)?;
            Ok(sha(&[&[SUITE, 3], &g.serialize()]).to_vec())
        }
    }
    impl VRF<&[u8], &[u8]> for ECVRF {
        type Error = Error;
        fn prove(&mut self, x: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Error> {
            let sk = SecretKey::from_slice(x)?;
            let y = sk.public_key(&self.0).serialize();
            let h = hash_to_point(&y, alpha)?;
            let gamma = h.mul_tweak(&self.0, &Scalar::from(sk))?;
            let mut k = sha(&[b"nonce", x, &h.serialize()]);
            let ks = loop {
                match SecretKey::from_slice(&k) {
                    Ok(s) => break s,
                    Err(_) => k = sha(&[&k]),
                }
            };
            let kb = ks.public_key(&self.0);
            let kh = h.mul_tweak(&self.0, &Scalar::from(ks))?;
            let c = challenge([&h, &gamma, &kb, &kh]);
            let s = sk.mul_tweak(&scalar(&c)?)?.add_tweak(&Scalar::from(ks))?;
            let mut pi = gamma.serialize().to_vec();
            pi.extend_from_slice(&c);
            pi.extend_from_slice(&s.secret_bytes());
            Ok(pi)
        }
        fn verify(&mut self, y: &[u8], pi: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Error> {
            let (gamma, c, s) = self.parse(pi)?;
            let pk = PublicKey::from_slice(y)?;
            let h = hash_to_point(y, alpha)?;
            let (cs, ss) = (scalar(c)?, scalar(s)?);
            let sb = SecretKey::from_slice(s)?.public_key(&self.0);
            let u = sb.combine(&pk.mul_tweak(&self.0, &cs)?.negate(&self.0))?;
            let v = h.mul_tweak(&self.0, &ss)?.combine(&gamma.mul_tweak(&self.0, &cs)?.negate(&self.0))?;
            if challenge([&h, &gamma, &u, &v])[..] != *c {
                return Err(Error::InvalidProof);
            }
            self.proof_to_hash(pi)
        }
    }
}
