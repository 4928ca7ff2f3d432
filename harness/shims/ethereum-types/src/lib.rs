//! Stand-in for `ethereum_types::U256` (not available offline).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct U256(pub [u64; 4]);
impl U256 {
    pub fn from_big_endian(b: &[u8]) -> Self {
        let mut buf = [0u8; 32];
        assert!(b.len() <= 32);
        buf[32 - b.len()..].copy_from_slice(b);
        let mut w = [0u64; 4];
        for (i, c) in buf.chunks(8).enumerate() {
            w[3 - i] = u64::from_be_bytes(c.try_into().unwrap());
        }
        U256(w)
    }
    pub fn to_big_endian(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for i in 0..4 {
            o[i * 8..i * 8 + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        o
    }
    pub fn low_u64(&self) -> u64 {
        self.0[0]
    }
    pub fn div_mod(self, d: U256) -> (U256, U256) {
        assert!(d != U256::default(), "division by zero");
        let (mut q, mut r) = (U256::default(), U256::default());
        for i in (0..256).rev() {
            let carry = r.0[3] >> 63;
            for k in (1..4).rev() {
                r.0[k] = r.0[k] << 1 | r.0[k - 1] >> 63;
            }
            r.0[0] = r.0[0] << 1 | (self.0[i / 64] >> (i % 64) & 1);
            if carry == 1 || r >= d {
                let mut b = false;
                for k in 0..4 {
                    let (x, b1) = r.0[k].overflowing_sub(d.0[k]);
                    let (x, b2) = x.overflowing_sub(b as u64);
                    r.0[k] = x;
                    b = b1 || b2;
                }
                q.0[i / 64] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
}
impl From<u64> for U256 {
    fn from(x: u64) -> Self {
        U256([x, 0, 0, 0])
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
