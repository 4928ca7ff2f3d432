use crate::util::*;
use crate::Sut;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use witnet_protected::{Protected, ProtectedString};

const MARK: &[u8] = b"S3cR3tM4rKer";
static WATCH: AtomicBool = AtomicBool::new(false);
static FREED: AtomicUsize = AtomicUsize::new(0);

/// The system allocator, which while watching looks for the secret in every block that is given back.
pub struct Watching;

fn look(p: *const u8, n: usize) {
    if WATCH.load(Ordering::Relaxed) && n >= MARK.len() {
        for i in 0..=(n - MARK.len()) {
            // volatile: parts of a block may never have been written
            let hit = (0..MARK.len()).all(|j| unsafe { std::ptr::read_volatile(p.add(i + j)) } == MARK[j]);
            if hit {
                FREED.fetch_add(1, Ordering::Relaxed);
                return;
            }
        }
    }
}

unsafe impl GlobalAlloc for Watching {
    // Blocks start out zeroed, so that what is found in one was written since it was allocated.
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        look(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // moving a block leaves its old contents behind
        look(p, l.size());
        let q = System.realloc(p, l, n);
        if n > l.size() && !q.is_null() {
            std::ptr::write_bytes(q.add(l.size()), 0, n - l.size());
        }
        q
    }
}

#[derive(Clone)]
enum Reg {
    B(Protected),
    S(ProtectedString),
}

#[derive(Default)]
pub struct ProtectedSut {
    regs: HashMap<String, Reg>,
}

fn watched<T>(f: impl FnOnce() -> T) -> (T, usize) {
    FREED.store(0, Ordering::SeqCst);
    WATCH.store(true, Ordering::SeqCst);
    let r = f();
    WATCH.store(false, Ordering::SeqCst);
    (r, FREED.load(Ordering::SeqCst))
}

fn show(r: &Reg, freed: usize) -> Value {
    let (v, dbg, alt) = match r {
        Reg::B(p) => (String::from_utf8_lossy(p.as_ref()).to_string(), format!("{p:?}"), format!("{p:#?}")),
        Reg::S(p) => (AsRef::<str>::as_ref(p).to_string(), format!("{p:?}"), format!("{p:#?}")),
    };
    let same = match r {
        Reg::B(p) => p[..] == *v.as_bytes(),
        Reg::S(p) => AsRef::<[u8]>::as_ref(p) == v.as_bytes(),
    };
    json!({"val": v, "dbg": if dbg == alt { dbg } else { alt }, "eq": same, "freed": freed})
}

impl ProtectedSut {
    /// Replace (and so drop) what the register holds, under watch.
    fn put(&mut self, r: String, v: Reg) -> usize {
        let regs = &mut self.regs;
        let (_, freed) = watched(|| {
            drop(regs.insert(r, v));
        });
        freed
    }
}

impl Sut for ProtectedSut {
    fn step(&mut self, op: &Value) -> Value {
        let r = s(op, "r");
        match op["op"].as_str().unwrap() {
            "new" => {
                let v = s(op, "v");
                let (reg, f) = match (op["kind"].as_str().unwrap(), op["how"].as_str().unwrap()) {
                    ("bytes", "new") => {
                        let b = v.into_bytes();
                        watched(|| Reg::B(Protected::new(b)))
                    }
                    ("bytes", "from") => {
                        let b = v.into_bytes();
                        watched(|| Reg::B(Protected::from(b)))
                    }
                    ("bytes", _) => watched(|| Reg::B(v.as_bytes().into())),
                    (_, "new") => watched(|| Reg::S(ProtectedString::new(v))),
                    (_, "from") => watched(|| Reg::S(ProtectedString::from(v.as_str()))),
                    _ => watched(|| Reg::S(v.as_str().into())),
                };
                let o = reg.clone();
                let f2 = self.put(r, reg);
                show(&o, f + f2)
            }
            "clone" => {
                let from = &self.regs[&s(op, "from")];
                let (c, f) = watched(|| from.clone());
                let o = c.clone();
                let f2 = self.put(r, c);
                show(&o, f + f2)
            }
            "tobytes" => {
                let x = self.regs.remove(&r).unwrap();
                let (b, f) = watched(|| match x {
                    Reg::S(p) => Reg::B(Protected::from(p)),
                    b => b,
                });
                let o = b.clone();
                let f2 = self.put(r, b);
                show(&o, f + f2)
            }
            "reload" => {
                let x = self.regs[&r].clone();
                let (y, f) = match &x {
                    Reg::B(p) => {
                        let bytes = bincode::serialize(p).unwrap();
                        // as bytes, and as plain old vectors were stored before
                        let old = bincode::serialize(&p.to_vec()).unwrap();
                        if old != bytes {
                            return json!({"val": "stored differently from a vector of bytes"});
                        }
                        let z = watched(|| Reg::B(bincode::deserialize(&bytes).unwrap()));
                        let js: Protected = serde_json::from_str(&serde_json::to_string(p).unwrap()).unwrap();
                        let tree: Protected = serde_json::from_value(serde_json::to_value(p).unwrap()).unwrap();
                        let read: Protected = bincode::deserialize_from(&bytes[..]).unwrap();
                        if js != *p || tree != *p || read != *p {
                            return json!({"val": "JSON"});
                        }
                        z
                    }
                    Reg::S(p) => {
                        let bytes = bincode::serialize(p).unwrap();
                        let js: ProtectedString = serde_json::from_str(&serde_json::to_string(AsRef::<str>::as_ref(p)).unwrap()).unwrap();
                        let tree: ProtectedString = serde_json::from_value(json!(AsRef::<str>::as_ref(p))).unwrap();
                        let read: ProtectedString = bincode::deserialize_from(&bytes[..]).unwrap();
                        if js != *p || tree != *p || read != *p {
                            return json!({"val": "JSON"});
                        }
                        watched(|| Reg::S(bincode::deserialize(&bytes).unwrap()))
                    }
                };
                let o = y.clone();
                let f2 = self.put(r, y);
                show(&o, f + f2)
            }
            "overwrite" => {
                let v = s(op, "v");
                let x = self.regs.get_mut(&r).unwrap();
                let (_, f) = watched(|| match x {
                    Reg::B(p) => p.as_mut().copy_from_slice(v.as_bytes()),
                    _ => tool_error("overwrite"),
                });
                show(&self.regs[&r], f)
            }
            "drop" => {
                let x = self.regs.remove(&r).unwrap();
                let (_, f) = watched(|| drop(x));
                json!({"val": "", "dbg": "", "eq": false, "freed": f})
            }
            "cmp" => {
                let q = s(op, "q");
                let (eq, ord) = match (&self.regs[&r], &self.regs[&q]) {
                    (Reg::B(a), Reg::B(b)) => (a == b, a.cmp(b) == a.to_vec().cmp(&b.to_vec())),
                    (Reg::S(a), Reg::S(b)) => (a == b, a.cmp(b) == AsRef::<str>::as_ref(a).cmp(AsRef::<str>::as_ref(b))),
                    _ => tool_error("cmp"),
                };
                if !ord {
                    return json!({"val": "order"});
                }
                json!({"val": "", "dbg": "", "eq": eq, "freed": 0})
            }
            x => tool_error(&format!("unknown op {x}")),
        }
    }
}
