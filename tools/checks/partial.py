"""Partial structs: the derive runs at compile time, so the real code runs while a generated program is compiled."""
import json
import os
import subprocess

from vlib import BUILD, Violation, VERIF

HEAD = r'''
#![allow(dead_code, unused_imports)]
use partial_struct::PartialStruct;
use pbconvert::ProtobufConvert;
use serde::Deserialize;
use serde_json::{json, Value};
use std::io::BufRead;

#[derive(PartialStruct, Deserialize, Default, Debug, Clone)]
#[partial_struct(derive(Deserialize, Default, Debug, Clone))]
pub struct Inner {
    pub x: u32,
    pub y: u32,
}
pub trait Show {
    fn show(&self) -> String;
}
impl Show for u32 {
    fn show(&self) -> String {
        self.to_string()
    }
}
impl Show for bool {
    fn show(&self) -> String {
        self.to_string()
    }
}
impl Show for String {
    fn show(&self) -> String {
        self.clone()
    }
}
impl Show for Vec<u8> {
    fn show(&self) -> String {
        format!("[{}]", self.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
    }
}
impl<T: Show> Show for Option<T> {
    fn show(&self) -> String {
        match self {
            None => "None".into(),
            Some(x) => format!("Some({})", x.show()),
        }
    }
}
impl Show for Inner {
    fn show(&self) -> String {
        format!("Inner{{{},{}}}", self.x.show(), self.y.show())
    }
}
impl Show for PartialInner {
    fn show(&self) -> String {
        format!("PartialInner{{{},{}}}", self.x.show(), self.y.show())
    }
}
fn ty<S, T>(_: fn(&S) -> &T) -> String {
    let n = std::any::type_name::<T>();
    // without the paths: alloc::string::String is String
    let mut out = String::new();
    let mut word = String::new();
    for c in n.chars() {
        if c.is_alphanumeric() || c == '_' || c == ':' {
            word.push(c);
        } else {
            out.push_str(word.rsplit("::").next().unwrap());
            word.clear();
            out.push(c);
        }
    }
    out.push_str(word.rsplit("::").next().unwrap());
    out
}
type F = (fn() -> Vec<String>, fn() -> Vec<String>, fn(&str) -> Option<Vec<String>>);
'''
MAIN = r'''
fn main() {
    for line in std::io::stdin().lock().lines() {
        let mut t: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let (types, dflt, load) = SHAPES[t["cfg"]["shape"].as_u64().unwrap() as usize];
        let mut steps = vec![];
        for op in t["ops"].as_array().unwrap() {
            let obs = match op["op"].as_str().unwrap() {
                "types" => json!({"types": types()}),
                "default" => json!({"ok": true, "vals": dflt()}),
                _ => {
                    let r = load(op["json"].as_str().unwrap());
                    json!({"ok": r.is_some(), "vals": r.unwrap_or_default()})
                }
            };
            let mut s = op.clone();
            s["obs"] = obs;
            steps.push(s);
        }
        t["steps"] = Value::Array(steps);
        t.as_object_mut().unwrap().remove("ops");
        println!("{t}");
    }
}
'''
VAL = {"u32": 7, "String": "s", "bool": True, "Option<u32>": 7, "Vec<u8>": [1, 2], "Inner": {"x": 1, "y": 2}}


def field_src(i, f, style):
    marks = {"plain": [], "skip": ["skip"], "ty": ['ty = "PartialInner"']}[f["mark"]]
    tuple_ = style == "tuple"
    pas = {"none": [], "default": ["serde(default)"], "rename": [f'serde(rename = "renamed{i}")']}[f["pass"]]
    out = {"none": "", "doc": "    /// what it is for\n", "conv": "    #[protobuf_convert(skip)]\n"}[f["also"]]
    if style == "split":  # one attribute per option
        for a in (marks + pas)[:: 1 if i % 2 else -1]:
            out += f"    #[partial_struct({a})]\n"
    elif marks + pas:
        out += f"    #[partial_struct({', '.join(marks + pas)})]\n"
    return out + (f"    pub {f['ty']},\n" if tuple_ else f"    pub f{i}: {f['ty']},\n")


def shape_src(n, sh):
    st = sh["style"]
    derive = "PartialStruct, ProtobufConvert, Deserialize, Default, Debug, Clone"
    opts = ["derive(Deserialize, Default, Debug, Clone)"]
    if sh["cdef"]:
        opts.append("serde(default)")
    if sh["deny"]:
        opts.append("serde(deny_unknown_fields)")
    src = f"mod s{n} {{\nuse super::*;\n#[derive({derive})]\n"
    if sh["conv"]:
        src += '#[protobuf_convert(pb = "Nothing")]\n'
    src += "".join(f"#[partial_struct({o})]\n" for o in opts) if st == "split" else f"#[partial_struct({', '.join(opts)})]\n"
    fs = sh["fields"]
    body = "".join(field_src(i + 1, f, st) for i, f in enumerate(fs))
    src += f"pub struct S(\n{body});\n" if st == "tuple" else f"pub struct S {{\n{body}}}\n"
    src += "}\n"
    acc = [f"p.{i}" if st == "tuple" else f"p.f{i + 1}" for i in range(len(fs))]
    p = f"s{n}::PartialS"
    src += f"fn types{n}() -> Vec<String> {{ vec![" + ", ".join(f"ty(|p: &{p}| &{a})" for a in acc) + "] }\n"
    shows = ", ".join(f"{a}.show()" for a in acc)
    src += f"fn dflt{n}() -> Vec<String> {{ let p = {p}::default(); let _ = &p; vec![{shows}] }}\n"
    src += f"fn load{n}(j: &str) -> Option<Vec<String>> {{ let p: {p} = serde_json::from_str(j).ok()?; let _ = &p; Some(vec![{shows}]) }}\n"
    return src


def document(sh, op):
    doc = {}
    for i, (f, d) in enumerate(zip(sh["fields"], op["doc"])):
        key = f"renamed{i + 1}" if f["pass"] == "rename" else f"f{i + 1}"
        if d == "null":
            doc[key] = None
        elif d == "part":
            doc[key] = {"x": 1}
        elif d == "full":
            doc[key] = VAL[f["ty"]]
    if op["extra"]:
        doc["nobody"] = 1
    return json.dumps(doc)


def rand_shape(rng):
    def field():
        ty = rng.choice(list(VAL))
        return dict(ty=ty, mark=rng.choice(["plain", "skip"] + ["ty"] * 2 * (ty == "Inner")), pass_=rng.choice(["none", "default", "rename"]),
                    also=rng.choice(["none", "doc", "conv"]))
    st = rng.choice(["named", "named", "split", "tuple"])
    fs = [field() for _ in range(rng.randint(0, 8))]
    for f in fs:
        f["pass"] = f.pop("pass_") if st != "tuple" else (f.pop("pass_") and "none")
    named = st == "named"
    return dict(style=st, conv=rng.random() < 0.3, cdef=named and rng.random() < 0.3, deny=named and rng.random() < 0.3, fields=fs)


def partial(c):
    scripts, exps, shapes, index = [], [], [], {}

    def shape_no(sh):
        k = json.dumps(sh, sort_keys=True)
        if k not in index:
            index[k] = len(shapes)
            shapes.append(sh)
        return index[k]

    emitted = []
    c.design("MC_Partial", emit=emitted.append)
    by = {}
    for h in emitted:
        sh = {k: v for k, v in h[0].items() if k != "op"}
        sh["fields"] = sh["fields"] or []
        by.setdefault(json.dumps(sh, sort_keys=True), []).append(h)
    keys = sorted(by)
    if not c.thorough:
        keys = sorted(c.rng.sample(keys, min(len(keys), 250)))
    for k in keys:
        sh = json.loads(k)
        n = shape_no(sh)
        for h in by[k]:
            op = {a: b for a, b in h[1].items() if a != "exp"}
            if op["op"] == "load":
                op["doc"] = op["doc"] or []
                op["json"] = document(sh, op)
            scripts.append(dict(id=len(scripts), cfg=dict(sh, shape=n), ops=[op]))
            exps.append([h[1]["exp"]])
    rnd = []
    for i in range(300 if c.thorough else 60):
        sh = rand_shape(c.rng)
        n = shape_no(sh)
        ops = [dict(op="types"), dict(op="default")]
        if sh["style"] != "tuple":
            for _ in range(20):
                op = dict(op="load", doc=[c.rng.choice(["missing", "missing", "null", "part", "full", "full", "full"]) for _ in sh["fields"]], extra=c.rng.random() < 0.15)
                ops.append(dict(op, json=document(sh, op)))
        rnd.append(dict(id=i, cfg=dict(sh, shape=n), ops=ops))
    src = HEAD + "".join(shape_src(i, s) for i, s in enumerate(shapes))
    src += "static SHAPES: &[F] = &[" + ", ".join(f"(types{i}, dflt{i}, load{i})" for i in range(len(shapes))) + "];\n" + MAIN
    gen = f"{BUILD}/gen_partial"
    os.makedirs(gen, exist_ok=True)
    # what holds without the derive has to be there: the crate itself, and a program that does not use it
    write(gen, "fn main() {}\n")
    c.build("partial")
    write(gen, src)
    try:
        c.build("partial")
    except Exception as e:
        raise Violation("the generated partial structs do not compile: " + str(e)[-1500:],
                        c.save_replay("partial", dict(source=src, error=str(e)[-6000:])))
    c.cov["models"].append(dict(module="generated structs", shapes=len(shapes), lines=src.count("\n")))
    traces = c.run("partial", scripts)
    for t, e in zip(traces, exps):
        c.compare("partial", t, e)
    c.count_ops(traces)
    c.cov["spec_scripts_replayed"] += len(traces)
    c.cov["traces_validated_against_impl"] += len(traces)
    c.validate("partial", "Trace_Partial", rnd)
    c.assumptions += ["loading is seen through serde_json; the container's own serde rules are serde's"]


def write(gen, src):
    with open(f"{gen}/main.rs", "w") as f:
        f.write(src)
