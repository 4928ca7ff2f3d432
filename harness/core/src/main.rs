//! Executes scripts of abstract operations on the real code and records what is observed.
//!
//! stdin: one script per line {"id":.., "cfg":.., "ops":[{"op":..,..},..]}
//! stdout: one trace per line {"id":.., "cfg":.., "steps":[{"op":..,.., "obs":..},..]}
//! A panic of the code under test is an observation ("panic": message), and ends that script.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod ars;
mod keys;
mod kv;
mod merkle;
mod flatten;
mod protected;
mod secrets;
mod trs;
mod util;

#[global_allocator]
static ALLOC: protected::Watching = protected::Watching;

pub trait Sut {
    /// Execute one operation and return what can be observed afterwards.
    fn step(&mut self, op: &Value) -> Value;
}

fn make(component: &str, cfg: &Value) -> Box<dyn Sut> {
    match component {
        "trs" => Box::new(trs::TrsSut::new(cfg)),
        "ars" => Box::new(ars::ArsSut::new(cfg)),
        "merkle" => Box::new(merkle::MerkleSut::new(cfg)),
        "kv" => Box::new(kv::KvSut::new(cfg)),
        "kvbig" => Box::new(kv::KvBigSut::new(cfg)),
        "kvconc" => Box::new(kv::KvConcSut),
        "keys" => Box::<keys::KeySut>::default(),
        "sig" => Box::<secrets::SigSut>::default(),
        "vault" => Box::<secrets::VaultSut>::default(),
        "mnemonic" => Box::new(secrets::MnemonicSut),
        "protected" => Box::<protected::ProtectedSut>::default(),
        "flatten" => Box::new(flatten::FlattenSut::new(cfg)),
        _ => panic!("unknown component {component}"),
    }
}

fn main() {
    let component = std::env::args().nth(1).expect("component");
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let script: Value = serde_json::from_str(&line).expect("script");
        let cfg = script.get("cfg").cloned().unwrap_or(json!({}));
        let mut steps = vec![];
        let sut = catch_unwind(AssertUnwindSafe(|| make(&component, &cfg)));
        let mut panicked = None;
        match sut {
            Err(e) => panicked = Some(util::panic_msg(e)),
            Ok(mut sut) => {
                for op in script["ops"].as_array().expect("ops") {
                    let r = catch_unwind(AssertUnwindSafe(|| sut.step(op)));
                    let mut rec = op.clone();
                    let m = rec.as_object_mut().expect("op object");
                    match r {
                        Ok(obs) => {
                            m.insert("obs".into(), obs);
                            steps.push(rec);
                        }
                        Err(e) => {
                            m.insert("panic".into(), json!(util::panic_msg(e)));
                            steps.push(rec);
                            panicked = Some(String::new());
                            std::mem::forget(sut);
                            break;
                        }
                    }
                }
            }
        }
        let trace = json!({"id": script["id"], "cfg": cfg, "steps": steps, "panicked": panicked.is_some()});
        serde_json::to_writer(&mut out, &trace).unwrap();
        out.write_all(b"\n").unwrap();
    }
    out.flush().unwrap();
}
