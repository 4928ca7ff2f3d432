use crate::util::*;
use crate::Sut;
use serde_json::{json, Value};
use std::collections::HashMap;
use witnet_crypto::cipher::{decrypt_aes_cbc, encrypt_aes_cbc, generate_random};
use witnet_crypto::key::{PK, SK};
use witnet_crypto::mnemonic::{Length, Mnemonic, MnemonicGenerator};
use witnet_crypto::pbkdf2::pbkdf2_sha256;
use witnet_crypto::signature::{sign, verify, Signature};

fn un(x: &str) -> Vec<u8> {
    hex::decode(x).unwrap_or_else(|_| tool_error("hex"))
}

#[derive(Default)]
pub struct SigSut {
    sigs: HashMap<String, [u8; 64]>,
}

impl Sut for SigSut {
    fn step(&mut self, op: &Value) -> Value {
        let sk = || SK::from_slice(&un(&s(op, "k"))).unwrap_or_else(|_| tool_error("key"));
        let show = |ok: bool, x: &[u8]| json!({"ok": ok, "sig": hex::encode(x)});
        match op["op"].as_str().unwrap() {
            "sign" => match sign(sk(), &un(&s(op, "m"))) {
                Ok(x) => {
                    let c = x.serialize_compact();
                    self.sigs.insert(s(op, "s"), c);
                    show(true, &c)
                }
                Err(_) => show(false, &[]),
            },
            "verify" => {
                let c = self.sigs[&s(op, "s")];
                // bytes that are not a signature at all do not verify either
                let ok = match Signature::from_compact(&c) {
                    Ok(x) => verify(&PK::from_secret_key_global(&sk()), &un(&s(op, "m")), &x).is_ok(),
                    Err(_) => false,
                };
                show(ok, &c)
            }
            "tamper" => {
                let mut c = self.sigs[&s(op, "from")];
                let t = n(op, "t") as usize;
                if t == 512 {
                    // the other signature with the same r: s negated modulo the group order
                    let order = un("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
                    let mut borrow = 0i32;
                    for i in (0..32).rev() {
                        let d = order[i] as i32 - c[32 + i] as i32 - borrow;
                        borrow = (d < 0) as i32;
                        c[32 + i] = (d & 255) as u8;
                    }
                } else {
                    c[(t / 8) % 64] ^= 1 << (t % 8);
                }
                self.sigs.insert(s(op, "s"), c);
                show(true, &c)
            }
            "recode" => {
                let c = self.sigs[&s(op, "s")];
                let d = match Signature::from_compact(&c) {
                    Ok(x) => Signature::from_der(&x.serialize_der()).map(|y| y.serialize_compact()).unwrap_or([0; 64]),
                    Err(_) => c,
                };
                self.sigs.insert(s(op, "s"), d);
                show(true, &d)
            }
            x => tool_error(&format!("unknown op {x}")),
        }
    }
}

#[derive(Default)]
pub struct VaultSut {
    cts: HashMap<String, Vec<u8>>,
}

impl Sut for VaultSut {
    fn step(&mut self, op: &Value) -> Value {
        let show = |ok: bool, x: &[u8]| json!({"ok": ok, "bytes": hex::encode(x), "len": x.len()});
        match op["op"].as_str().unwrap() {
            "enc" => match encrypt_aes_cbc(&un(&s(op, "k")), &un(&s(op, "pt")), &un(&s(op, "iv"))) {
                Ok(x) => {
                    let v = show(true, &x);
                    self.cts.insert(s(op, "c"), x);
                    v
                }
                Err(_) => show(false, &[]),
            },
            "dec" => match decrypt_aes_cbc(&un(&s(op, "k")), &self.cts[&s(op, "c")], &un(&s(op, "iv"))) {
                Ok(x) => show(true, &x),
                Err(_) => show(false, &[]),
            },
            "alter" => {
                let mut x = self.cts[&s(op, "from")].clone();
                let cut = n(op, "cut") as usize;
                if cut == 0 {
                    let t = n(op, "t") as usize;
                    let k = (t / 8) % x.len();
                    x[k] ^= 1 << (t % 8);
                } else {
                    x.truncate(x.len().saturating_sub(cut));
                }
                let v = show(true, &x);
                self.cts.insert(s(op, "c"), x);
                v
            }
            "stretch" => {
                let x = pbkdf2_sha256(&un(&s(op, "pw")), &un(&s(op, "salt")), n(op, "n") as u32);
                show(true, &x)
            }
            "random" => match generate_random(n(op, "n") as usize) {
                Ok(x) => show(true, &x),
                Err(_) => show(false, &[]),
            },
            x => tool_error(&format!("unknown op {x}")),
        }
    }
}

pub struct MnemonicSut;

impl Sut for MnemonicSut {
    fn step(&mut self, op: &Value) -> Value {
        let show = |m: Result<Mnemonic, String>, pass: &str| match m {
            Ok(m) => {
                let seed = m.seed(&pass.into());
                let same = m.seed_ref(pass).as_bytes() == seed.as_bytes() && seed.as_ref() == seed.as_bytes();
                json!({"ok": same, "n": m.words().split(' ').count(), "seed": hex::encode(seed.as_bytes()), "phrase": m.words()})
            }
            Err(_) => json!({"ok": false, "n": 0, "seed": "", "phrase": ""}),
        };
        match op["op"].as_str().unwrap() {
            "seed" => {
                let p = s(op, "phrase");
                let a = Mnemonic::from_phrase(p.as_str().into()).map_err(|e| e.to_string());
                let b = Mnemonic::from_phrase_ref(&p);
                if a.is_ok() != b.is_ok() {
                    return json!({"ok": "from_phrase and from_phrase_ref disagree"});
                }
                show(a, &s(op, "pass"))
            }
            "generate" => {
                let l = match n(op, "n") {
                    12 => Length::Words12,
                    15 => Length::Words15,
                    18 => Length::Words18,
                    21 => Length::Words21,
                    _ => Length::Words24,
                };
                let g = if l == Length::Words12 { MnemonicGenerator::new() } else { Mnemonic::build().with_len(l) };
                let m = g.generate();
                // it is one of the phrases that can be restored
                show(Mnemonic::from_phrase_ref(m.words()).map_err(|e| e.to_string()), "")
            }
            x => tool_error(&format!("unknown op {x}")),
        }
    }
}
