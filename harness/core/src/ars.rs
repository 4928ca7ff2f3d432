use crate::util::*;
use crate::Sut;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use witnet_reputation::ActiveReputationSet;

pub struct ArsSut {
    a: ActiveReputationSet<String>,
}

impl ArsSut {
    pub fn new(cfg: &Value) -> Self {
        ArsSut { a: ActiveReputationSet::new(n(cfg, "cap") as usize) }
    }

    fn obs(&self, ok: bool) -> Value {
        let mut active: BTreeMap<String, bool> = self.a.active_identities().map(|k| (k.clone(), true)).collect();
        for k in ["a", "b", "c", "d", "e", "f", "g", "h"] {
            if self.a.contains(&k.to_string()) != active.contains_key(k) {
                active.insert(format!("contains({k})"), true);
            }
        }
        if self.a.buffer_size() > self.a.buffer_capacity() {
            active.insert("buffer over capacity".into(), true);
        }
        json!({"ok": ok, "active": active, "n": self.a.active_identities_number()})
    }
}

impl Sut for ArsSut {
    fn step(&mut self, op: &Value) -> Value {
        let ids = || -> Vec<String> { arr(op, "ids").iter().map(|x| x.as_str().unwrap().to_string()).collect() };
        match op["op"].as_str().unwrap() {
            "push" => {
                self.a.push_activity(ids());
                self.obs(true)
            }
            "update" => {
                let r = self.a.update(ids(), n(op, "e") as u32);
                self.obs(r.is_ok())
            }
            "clear" => {
                self.a.clear();
                self.obs(true)
            }
            "reload" => {
                let b = bincode::serialize(&self.a).unwrap();
                let a2: ActiveReputationSet<String> = bincode::deserialize(&b).unwrap();
                let mut other = self.a.clone();
                other.push_activity(["zz".to_string()]);
                let cap = self.a.buffer_capacity();
                let same = a2 == self.a && (cap == 0 || other != self.a) && ActiveReputationSet::<String>::new(cap) != ActiveReputationSet::new(cap + 1);
                self.a = a2;
                self.obs(same)
            }
            x => tool_error(&format!("unknown op {x}")),
        }
    }
}
