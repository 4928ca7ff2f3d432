use crate::util::*;
use crate::Sut;
use bech32::ToBase32;
use serde_json::{json, Value};
use std::collections::HashMap;
use witnet_crypto::key::{ExtendedPK, ExtendedSK, KeyPath, MasterKeyGen, PK, SK};

#[derive(Default)]
pub struct KeySut {
    regs: HashMap<String, ExtendedSK>,
    slips: HashMap<String, String>,
}

fn path(op: &Value, k: &str) -> KeyPath {
    let mut p = KeyPath::default();
    let mut raw: Vec<u32> = vec![];
    for x in arr(op, k) {
        let x = x.as_str().unwrap();
        if let Some(h) = x.strip_suffix('\'') {
            let i: u32 = h.parse().unwrap();
            p = p.hardened(i);
            raw.push(i | 0x8000_0000);
        } else {
            let i: u32 = x.parse().unwrap();
            p = p.index(i);
            raw.push(i);
        }
    }
    // the two ways to make a path agree
    if KeyPath::from(raw.clone()) != p || p.depth() != raw.len() || p.is_master() != raw.is_empty() {
        return KeyPath::from(vec![0xdead]);
    }
    for (i, r) in p.iter().zip(raw) {
        if i.is_hardened() != (r >> 31 == 1) || *i.as_ref() != r {
            return KeyPath::from(vec![0xdead]);
        }
    }
    p
}

fn h(x: impl AsRef<[u8]>) -> String {
    hex::encode(x.as_ref())
}

fn shown(k: &ExtendedSK, path: String) -> Value {
    json!({"ok": true, "path": path, "bytes": {"sk": h(k.secret()), "cc": h(k.chain_code())}})
}

fn refused() -> Value {
    json!({"ok": false, "path": "", "bytes": {}})
}

impl Sut for KeySut {
    fn step(&mut self, op: &Value) -> Value {
        let reg = |k: &str| -> ExtendedSK { self.regs[&s(op, k)].clone() };
        match op["op"].as_str().unwrap() {
            "gen" => {
                let seed = hex::decode(s(op, "seed")).unwrap();
                let mac = hex::decode(s(op, "mac")).unwrap();
                let g = MasterKeyGen::new(seed);
                let r = if mac == b"Bitcoin seed" { g.generate() } else { g.with_key(&mac).generate() };
                match r {
                    Ok(k) => {
                        let v = shown(&k, String::new());
                        self.regs.insert(s(op, "r"), k);
                        v
                    }
                    Err(_) => refused(),
                }
            }
            "derive" => {
                let p = path(op, "p");
                let k = reg("from");
                let r = if p.depth() == 1 { k.child(p.iter().next().unwrap()) } else { k.derive(&p) };
                match r {
                    Ok(k) => {
                        let v = shown(&k, p.to_string());
                        self.regs.insert(s(op, "r"), k);
                        v
                    }
                    Err(_) => refused(),
                }
            }
            "pub" => {
                let k = reg("r");
                let p = ExtendedPK::from_secret_key(&k);
                let pk: PK = p.clone().into();
                let mut v = shown(&k, String::new());
                v["bytes"]["pk"] = json!(h(pk.serialize()));
                v["bytes"]["cc"] = json!(h(p.chain_code));
                v
            }
            "parts" => {
                let k = reg("r");
                let mut v = shown(&k, String::new());
                let sk: SK = k.clone().into();
                v["bytes"]["both"] = json!(h(k.concat()));
                v["bytes"]["sk"] = json!(h(&sk[..]));
                // what is logged about a key does not show it
                let d = format!("{k:?}");
                let secret = h(k.secret());
                let cc = h(k.chain_code());
                v["ok"] = json!(!d.contains(&secret[..16]) && !d.contains(&cc[..16]) && ExtendedSK::new(sk, k.chain_code()) == k);
                v
            }
            "reload" => {
                let k = reg("r");
                let k2: ExtendedSK = bincode::deserialize(&bincode::serialize(&k).unwrap()).unwrap();
                let k3: ExtendedSK = serde_json::from_str(&serde_json::to_string(&k2).unwrap()).unwrap();
                let v = shown(&k3, String::new());
                self.regs.insert(s(op, "r"), k3);
                v
            }
            "export" => {
                let p = path(op, "p");
                let k = reg("r");
                match k.to_slip32(&p) {
                    Ok(t) => {
                        let mut v = shown(&k, p.to_string());
                        v["bytes"][format!("slip:{p}")] = json!(t);
                        self.slips.insert(s(op, "s"), t);
                        v
                    }
                    Err(_) => refused(),
                }
            }
            "import" => match ExtendedSK::from_slip32(&self.slips[&s(op, "s")]) {
                Ok((k, p)) => {
                    let v = shown(&k, p.to_string());
                    self.regs.insert(s(op, "r"), k);
                    v
                }
                Err(_) => refused(),
            },
            "craft" => {
                let c = &op["c"];
                let mut b = vec![n(c, "depth") as u8];
                for i in path(c, "path").iter() {
                    b.extend(i.as_ref().to_be_bytes());
                }
                b.extend(hex::decode(s(c, "cc")).unwrap());
                b.push(n(c, "prefix") as u8);
                b.extend(hex::decode(s(c, "secret")).unwrap());
                let e = n(c, "extra");
                if e < 0 {
                    b.truncate(b.len() - (-e) as usize);
                } else {
                    b.extend(vec![7u8; e as usize]);
                }
                let mut t = bech32::encode(&s(c, "hrp"), b.to_base32()).unwrap();
                if c["flip"].as_bool().unwrap() {
                    let at = 5 + c["at"].as_u64().unwrap_or(20) as usize % (t.len() - 5);
                    let x = if &t[at..at + 1] == "q" { "p" } else { "q" };
                    t.replace_range(at..at + 1, x);
                }
                match ExtendedSK::from_slip32(&t) {
                    Ok((k, p)) => {
                        let v = shown(&k, p.to_string());
                        self.regs.insert(s(op, "r"), k);
                        v
                    }
                    Err(_) => refused(),
                }
            }
            x => tool_error(&format!("unknown op {x}")),
        }
    }
}
