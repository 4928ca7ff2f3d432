use crate::util::*;
use crate::Sut;
use serde_json::{json, Map, Value};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};
use witnet_storage::backends::{hashmap, nobackend, rocks};
use witnet_storage::storage::{Storage, WriteBatch};

pub struct KvSut {
    db: Box<dyn Storage>,
}

fn b(x: &str) -> Vec<u8> {
    hex::decode(&x[1..]).unwrap_or_else(|_| tool_error("key"))
}

fn k(x: &[u8]) -> String {
    format!("k{}", hex::encode(x))
}

fn scan(db: &dyn Storage, p: &str) -> Option<(Map<String, Value>, usize)> {
    let p = b(p);
    let mut m = Map::new();
    let mut c = 0;
    for (kk, v) in db.prefix_iterator(&p).ok()? {
        m.insert(k(&kk), json!(k(&v)));
        c += 1;
    }
    Some((m, c))
}

/// what the operation answers: (ok, val)
fn apply(db: &dyn Storage, op: &Value) -> (bool, Value) {
    match op["op"].as_str().unwrap() {
        "get" => match db.get(&b(&s(op, "k"))) {
            Ok(Some(v)) => (true, json!([k(&v)])),
            Ok(None) => (true, json!([])),
            Err(_) => (false, json!([])),
        },
        "put" => (db.put(b(&s(op, "k")), b(&s(op, "v"))).is_ok(), json!([])),
        "delete" => (db.delete(&b(&s(op, "k"))).is_ok(), json!([])),
        "write" => {
            let mut w = WriteBatch::default();
            for x in arr(op, "b") {
                if x["put"].as_bool().unwrap() {
                    w.put(b(&s(x, "k")), b(&s(x, "v")));
                } else {
                    w.delete(b(&s(x, "k")));
                }
            }
            (db.write(w).is_ok(), json!([]))
        }
        "scan" => match scan(db, &s(op, "p")) {
            Some((m, c)) => (true, json!([m, c])),
            None => (false, json!([])),
        },
        x => tool_error(&format!("unknown op {x}")),
    }
}

impl KvSut {
    pub fn new(cfg: &Value) -> Self {
        rocksdb::fail_in(0);
        let db: Box<dyn Storage> = match s(cfg, "backend").as_str() {
            "map" => Box::<hashmap::Backend>::default(),
            "rocks" => Box::<rocks::Backend>::default(),
            "none" => Box::new(nobackend::Backend),
            x => tool_error(x),
        };
        KvSut { db }
    }
}

impl Sut for KvSut {
    fn step(&mut self, op: &Value) -> Value {
        let fault = op["f"].as_bool().unwrap_or(false);
        if fault {
            // the first database call of this operation fails, or a later one if it makes several
            rocksdb::fail_in(1 + op["at"].as_u64().unwrap_or(0) as u32);
        }
        let (ok, val) = apply(&*self.db, op);
        let missed = fault && rocksdb::fail_pending();
        rocksdb::fail_in(0);
        let (all, n) = scan(&*self.db, "k").unwrap_or_default();
        json!({"ok": ok, "val": val, "all": all, "n": n, "f": fault && !missed})
    }
}

/// One concurrent run: every entry of "ops" is the program of a thread; the observation is the whole history.
pub struct KvConcSut;

impl Sut for KvConcSut {
    fn step(&mut self, op: &Value) -> Value {
        let db: Arc<hashmap::Backend> = Arc::default();
        let progs = arr(op, "threads").to_vec();
        let clock = Arc::new(AtomicUsize::new(0));
        let barrier = Arc::new(Barrier::new(progs.len()));
        let handles: Vec<_> = progs
            .into_iter()
            .map(|p| {
                let (db, clock, barrier) = (db.clone(), clock.clone(), barrier.clone());
                std::thread::spawn(move || {
                    let mut out = vec![];
                    barrier.wait();
                    for o in p.as_array().unwrap() {
                        let t0 = clock.fetch_add(1, Ordering::SeqCst);
                        let (ok, val) = apply(&*db, o);
                        let t1 = clock.fetch_add(1, Ordering::SeqCst);
                        let mut r = o.clone();
                        let m = r.as_object_mut().unwrap();
                        m.insert("t0".into(), json!(t0));
                        m.insert("t1".into(), json!(t1));
                        m.insert("obs".into(), json!({"ok": ok, "val": val}));
                        out.push(r);
                    }
                    out
                })
            })
            .collect();
        let mut all = vec![];
        for h in handles {
            match h.join() {
                Ok(v) => all.extend(v),
                Err(e) => std::panic::resume_unwind(e),
            }
        }
        json!({ "history": all })
    }
}

/// Many keys: numbers of three bytes behind a common beginning.
pub struct KvBigSut {
    db: Box<dyn Storage>,
    pad: usize,
}

fn kind(v: u64) -> Vec<u8> {
    let n = [0, 0, 1, 255, 256, 65535, 65536, 1 << 20, 3][v as usize];
    vec![v as u8; n]
}

impl KvBigSut {
    pub fn new(cfg: &Value) -> Self {
        KvBigSut { db: KvSut::new(cfg).db, pad: cfg["pad"].as_u64().unwrap() as usize }
    }
    fn key(&self, i: u64) -> Vec<u8> {
        let mut key = vec![7; self.pad];
        key.extend_from_slice(&(i as u32).to_be_bytes()[1..]);
        key
    }
}

impl Sut for KvBigSut {
    fn step(&mut self, op: &Value) -> Value {
        let n = |f: &str| op[f].as_u64().unwrap();
        match op["op"].as_str().unwrap() {
            "fill" => {
                let all = (n("lo")..=n("hi")).step_by(n("step") as usize);
                let ok = if op["at_once"].as_bool().unwrap() {
                    let mut w = WriteBatch::default();
                    for i in all {
                        if n("v") == 0 {
                            w.delete(self.key(i));
                        } else {
                            w.put(self.key(i), kind(n("v")));
                        }
                    }
                    self.db.write(w).is_ok()
                } else {
                    all.map(|i| if n("v") == 0 { self.db.delete(&self.key(i)) } else { self.db.put(self.key(i), kind(n("v"))) }).all(|r| r.is_ok())
                };
                json!({ "ok": ok })
            }
            "get" => match self.db.get(&self.key(n("i"))) {
                Ok(None) => json!({"val": 0}),
                Ok(Some(v)) => json!({"val": (1..9).find(|x| kind(*x) == v).unwrap_or(99)}),
                Err(_) => json!({"val": 98}),
            },
            "scan" => {
                let d = op["d"].as_i64().unwrap();
                let mut p = self.key(n("i"));
                p.truncate((self.pad as i64 + d).max(0) as usize);
                let (mut c, mut kinds, mut low, mut odd) = (0, [0u64; 9], 0, 0);
                let mut seen = std::collections::HashSet::new();
                for (k, v) in self.db.prefix_iterator(&p).unwrap() {
                    c += 1;
                    if k.len() != self.pad + 3 || !seen.insert(k.clone()) {
                        return json!({"strange": true});
                    }
                    let last = k[k.len() - 1];
                    low += u64::from(last < 128);
                    odd += u64::from(last % 2 == 1);
                    kinds[(1..9).find(|x| kind(*x) == v).unwrap_or(0) as usize] += 1;
                }
                json!({"n": c, "kinds": kinds[1..], "low": low, "odd": odd})
            }
            x => tool_error(&format!("unknown op {x}")),
        }
    }
}
