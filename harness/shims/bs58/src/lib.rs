const A: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error;
pub struct Enc(Vec<u8>);
pub struct Dec(String);
pub fn encode(b: impl AsRef<[u8]>) -> Enc {
    Enc(b.as_ref().to_vec())
}
pub fn decode(s: impl AsRef<str>) -> Dec {
    Dec(s.as_ref().to_string())
}
impl Enc {
    pub fn into_string(self) -> String {
        let z = self.0.iter().take_while(|b| **b == 0).count();
        let mut d: Vec<u8> = vec![];
        for b in &self.0 {
            let mut c = *b as u32;
            for x in d.iter_mut() {
                c += (*x as u32) << 8;
                *x = (c % 58) as u8;
                c /= 58;
            }
            while c > 0 {
                d.push((c % 58) as u8);
                c /= 58;
            }
        }
        let mut s = "1".repeat(z);
        s.extend(d.iter().rev().map(|x| A[*x as usize] as char));
        s
    }
}
impl Dec {
    pub fn into_vec(self) -> Result<Vec<u8>, Error> {
        let z = self.0.bytes().take_while(|b| *b == b'1').count();
        let mut d: Vec<u8> = vec![];
        for b in self.0.bytes() {
            let mut c = A.iter().position(|x| *x == b).ok_or(Error)? as u32;
            for x in d.iter_mut() {
                c += *x as u32 * 58;
                *x = c as u8;
                c >>= 8;
            }
            while c > 0 {
                d.push(c as u8);
                c >>= 8;
            }
        }
        let mut v = vec![0; z];
        v.extend(d.iter().rev());
        Ok(v)
    }
}
