use crate::util::*;
use crate::Sut;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use witnet_reputation::TotalReputationSet;

type T = TotalReputationSet<String, u32, u32>;

pub struct TrsSut {
    t: T,
}

impl TrsSut {
    pub fn new(_cfg: &Value) -> Self {
        TrsSut { t: T::new() }
    }

    fn obs(&self, ok: bool, val: u32) -> Value {
        let mut q: Vec<Value> = vec![];
        for (e, pk) in self.t.queue() {
            let m: Map<String, Value> = pk.map(|(k, v)| (k.clone(), json!(v))).collect();
            if !m.is_empty() {
                q.push(json!({"exp": e, "pk": m}));
            }
        }
        let mut bal = BTreeMap::new();
        for (k, v) in self.t.identities() {
            bal.insert(k.clone(), *v);
        }
        // `get' has to agree with the iterator, for identities with and without reputation
        for k in ["a", "b", "c", "d", "e", "f", "g", "h"] {
            let k = k.to_string();
            let v = self.t.get(&k);
            if v != bal.get(&k).copied().unwrap_or(0) {
                bal.insert(format!("get({k})"), v);
            }
        }
        let ids: Vec<String> = bal.keys().cloned().collect();
        if self.t.get_sum(ids.iter()) != self.t.get_total_sum() || self.t.get_sum(ids.iter().chain(ids.iter())) != 2 * self.t.get_total_sum() {
            bal.insert("get_sum".into(), self.t.get_sum(ids.iter()));
        }
        json!({"res": {"ok": ok, "val": val}, "queue": q, "bal": bal,
               "total": self.t.get_total_sum(), "n": self.t.num_identities()})
    }
}

fn next_v(f: &Value) -> impl FnMut(u32) -> u32 {
    let kind = s(f, "kind");
    let n = n(f, "n") as u32;
    let d = f["d"].as_u64().unwrap_or(1) as u32;
    move |old| match kind.as_str() {
        "frac" => old * n / d,
        "min" => old.min(n),
        "sub" => old.saturating_sub(n),
        "grow" => old + n,
        _ => tool_error("next_v"),
    }
}

impl Sut for TrsSut {
    fn step(&mut self, op: &Value) -> Value {
        match op["op"].as_str().unwrap() {
            "gain" => {
                let d: Vec<(String, u32)> = arr(op, "d").iter().map(|x| (s(x, "id"), n(x, "v") as u32)).collect();
                let r = self.t.gain(n(op, "e") as u32, d);
                self.obs(r.is_ok(), 0)
            }
            "expire" => {
                let v = self.t.expire(&(n(op, "a") as u32));
                self.obs(true, v)
            }
            "penalize" => {
                let ids: Vec<String> = arr(op, "p").iter().map(|x| s(x, "id")).collect();
                let fs: Vec<_> = arr(op, "p").iter().map(next_v).collect();
                let r = if ids.len() == 1 {
                    self.t.penalize(&ids[0], fs.into_iter().next().unwrap())
                } else {
                    self.t.penalize_many(ids.iter().zip(fs))
                };
                match r {
                    Ok(v) => self.obs(true, v),
                    Err(_) => self.obs(false, 0),
                }
            }
            "clear" => {
                self.t.clear();
                self.obs(true, 0)
            }
            "reload" => {
                let b = bincode::serialize(&self.t).unwrap();
                let t2: T = bincode::deserialize(&b).unwrap();
                let mut other = self.t.clone();
                let differs = other.gain(u32::MAX, vec![("zz".to_string(), 1)]).is_ok() && other != self.t;
                let same = t2 == self.t && differs;
                self.t = t2;
                self.obs(same, 0)
            }
            "backwards" => {
                let mut q: Vec<(u32, Vec<(String, u32)>)> = self
                    .t
                    .queue()
                    .map(|(a, pk)| (*a, pk.map(|(k, v)| (k.clone(), *v)).collect()))
                    .collect();
                q.reverse();
                let r = T::from_queue(q);
                self.obs(r.is_ok(), 0)
            }
            "rebuild" => {
                let q: Vec<(u32, Vec<(String, u32)>)> = self
                    .t
                    .queue()
                    .map(|(a, pk)| (*a, pk.map(|(k, v)| (k.clone(), *v)).collect()))
                    .collect();
                match T::from_queue(q) {
                    Ok(t2) => {
                        let same = t2 == self.t;
                        self.t = t2;
                        self.obs(same, 0)
                    }
                    Err(_) => self.obs(false, 0),
                }
            }
            x => tool_error(&format!("unknown op {x}")),
        }
    }
}
