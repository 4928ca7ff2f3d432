//! Executes scripts of abstract operations on the real code and records what is observed.
//!
//! stdin: one script per line {"id":.., "cfg":.., "ops":[{"op":..,..},..]}
//! stdout: one trace per line {"id":.., "cfg":.., "steps":[{"op":..,.., "obs":..},..]}
//! With the argument "live", a script comes line by line, first {"cfg":..}, then each operation, and is answered
//! line by line, so that what comes next can depend on what was observed.
//! A panic of the code under test is an observation ("panic": message), and ends that script.
use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub trait Sut {
    /// Execute one operation and return what can be observed afterwards.
    fn step(&mut self, op: &Value) -> Value;
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else {
        "panic".into()
    }
}

pub fn u(v: &Value, k: &str) -> u64 {
    v[k].as_u64().unwrap_or_else(|| {
        eprintln!("TOOL-ERROR: no number {k} in {v}");
        std::process::exit(3)
    })
}
#[allow(dead_code)]
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| {
        eprintln!("TOOL-ERROR: no string {k} in {v}");
        std::process::exit(3)
    })
}
#[allow(dead_code)]
pub fn b(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or_else(|| {
        eprintln!("TOOL-ERROR: no boolean {k} in {v}");
        std::process::exit(3)
    })
}
#[allow(dead_code)]
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a Vec<Value> {
    v[k].as_array().unwrap_or_else(|| {
        eprintln!("TOOL-ERROR: no array {k} in {v}");
        std::process::exit(3)
    })
}
pub fn bad_op(op: &Value) -> ! {
    eprintln!("TOOL-ERROR: unknown operation {op}");
    std::process::exit(3)
}

pub fn run(make: impl Fn(&str, &Value) -> Box<dyn Sut>) {
    let component = std::env::args().nth(1).expect("component");
    std::panic::set_hook(Box::new(|_| {}));
    if std::env::args().nth(2).as_deref() == Some("live") {
        return live(&component, make);
    }
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let script: Value = serde_json::from_str(&line).expect("script");
        let cfg = script.get("cfg").cloned().unwrap_or(json!({}));
        let mut steps = vec![];
        let sut = catch_unwind(AssertUnwindSafe(|| make(&component, &cfg)));
        let mut panicked = None;
        match sut {
            Err(e) => panicked = Some(panic_msg(e)),
            Ok(mut sut) => {
                for op in script["ops"].as_array().expect("ops") {
                    let r = catch_unwind(AssertUnwindSafe(|| sut.step(op)));
                    let mut rec = op.clone();
                    let m = rec.as_object_mut().expect("op object");
                    match r {
                        Ok(obs) => {
                            m.insert("obs".into(), obs);
                            steps.push(rec);
                        }
                        Err(e) => {
                            m.insert("panic".into(), json!(panic_msg(e)));
                            steps.push(rec);
                            panicked = Some(String::new());
                            std::mem::forget(sut);
                            break;
                        }
                    }
                }
            }
        }
        let trace = json!({"id": script["id"], "cfg": cfg, "steps": steps, "panicked": panicked.is_some(), "msg": panicked});
        serde_json::to_writer(&mut out, &trace).unwrap();
        out.write_all(b"\n").unwrap();
    }
    out.flush().unwrap();
}

fn live(component: &str, make: impl Fn(&str, &Value) -> Box<dyn Sut>) {
    let mut sut = None;
    for line in std::io::stdin().lock().lines() {
        let op: Value = serde_json::from_str(&line.expect("stdin")).expect("operation");
        let r = catch_unwind(AssertUnwindSafe(|| match op.get("cfg") {
            Some(cfg) => {
                sut = Some(make(component, cfg));
                Value::Null
            }
            None => sut.as_mut().expect("cfg first").step(&op),
        }));
        let answer = match r {
            Ok(obs) => json!({ "obs": obs }),
            Err(e) => {
                // it is not to be used any more, not even to be dropped
                std::mem::forget(sut.take());
                json!({"panic": panic_msg(e)})
            }
        };
        let mut out = std::io::stdout().lock();
        writeln!(out, "{answer}").unwrap();
        out.flush().unwrap();
    }
}
