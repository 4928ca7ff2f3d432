//! Generates the message types of `schemas/witnet/witnet.proto` (stand-in for exonum-build/protoc).
use std::{collections::BTreeMap, env, fmt::Write as _, fs, path::Path};

const PROTO: &str = "/repo/schemas/witnet/witnet.proto";

#[derive(Clone, Debug)]
struct Field { label: bool, ty: String, name: String, num: u32 }
#[derive(Clone, Debug, Default)]
struct Msg { name: String, fields: Vec<Field>, oneof: Option<(String, Vec<Field>)> }
#[derive(Default)]
struct Parsed { msgs: Vec<Msg>, enums: BTreeMap<String, Vec<(String, i32)>> }

fn parse_block(t: &[String], i: &mut usize, prefix: &str, out: &mut Parsed) {
    // t[*i] == "message"
    let name = if prefix.is_empty() { t[*i + 1].clone() } else { format!("{}_{}", prefix, t[*i + 1]) };
    *i += 3;
    let mut m = Msg { name: name.clone(), ..Default::default() };
    while t[*i] != "}" {
        match t[*i].as_str() {
            "message" => parse_block(t, i, &name, out),
            "enum" => {
                let en = format!("{}_{}", name, t[*i + 1]);
                *i += 3;
                let mut vs = vec![];
                while t[*i] != "}" {
                    vs.push((t[*i].clone(), t[*i + 2].parse().unwrap()));
                    *i += 4;
                }
                *i += 1;
                out.enums.insert(en, vs);
            }
            "oneof" => {
                let on = t[*i + 1].clone();
                *i += 3;
                let mut fs = vec![];
                while t[*i] != "}" {
                    fs.push(field(t, i));
                }
                *i += 1;
                m.oneof = Some((on, fs));
            }
            _ => m.fields.push(field(t, i)),
        }
    }
    *i += 1;
    out.msgs.push(m);
}
fn field(t: &[String], i: &mut usize) -> Field {
    let label = t[*i] == "repeated";
    if label { *i += 1 }
    let f = Field { label, ty: t[*i].clone(), name: t[*i + 1].clone(), num: t[*i + 3].parse().unwrap() };
    assert_eq!(t[*i + 2], "=");
    assert_eq!(t[*i + 4], ";");
    *i += 5;
    f
}

enum Kind { Scalar(&'static str, u8, &'static str, &'static str), Bytes, Str, Enum(String), Msg(String) }

fn main() {
    println!("cargo:rerun-if-changed={PROTO}");
    println!("cargo:rerun-if-changed=build.rs");
    let src = fs::read_to_string(PROTO).unwrap();
    let src: String = src.lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join("\n");
    let mut toks = vec![];
    let mut cur = String::new();
    for c in src.chars() {
        if c.is_alphanumeric() || c == '_' || c == '.' || c == '"' { cur.push(c) } else {
            if !cur.is_empty() { toks.push(std::mem::take(&mut cur)) }
            if "{}=;".contains(c) { toks.push(c.to_string()) }
        }
    }
    let mut p = Parsed::default();
    let mut i = 0;
    while i < toks.len() {
        if toks[i] == "message" { parse_block(&toks, &mut i, "", &mut p) } else { i += 1 }
    }
    let kind = |scope: &str, ty: &str| -> Kind {
        match ty {
            "uint32" => Kind::Scalar("u32", 0, "varint", "v"),
            "uint64" => Kind::Scalar("u64", 0, "varint", "v"),
            "int64" => Kind::Scalar("i64", 0, "varint", "v"),
            "fixed32" => Kind::Scalar("u32", 5, "fixed32", "f32"),
            "fixed64" => Kind::Scalar("u64", 1, "fixed64", "f64"),
            "double" => Kind::Scalar("f64", 1, "fixed64", "d"),
            "bytes" => Kind::Bytes,
            "string" => Kind::Str,
            other => {
                let mut sc = scope.to_string();
                loop {
                    let full = if sc.is_empty() { other.to_string() } else { format!("{sc}_{other}") };
                    if p.enums.contains_key(&full) { return Kind::Enum(full) }
                    if p.msgs.iter().any(|m| m.name == full) { return Kind::Msg(full) }
                    if sc.is_empty() { panic!("unknown type {other} in {scope}") }
                    sc = sc.rsplit_once('_').map(|x| x.0.to_string()).unwrap_or_default();
                }
            }
        }
    };
    let base = |k: &Kind| match k {
        Kind::Scalar(r, ..) => r.to_string(), Kind::Bytes => "Vec<u8>".into(), Kind::Str => "String".into(),
        Kind::Enum(n) | Kind::Msg(n) => n.clone() };
    let read = |k: &Kind| match k {
        Kind::Scalar(r, _, f, "d") => format!("{r}::from_bits(i.{f}()?)"),
        Kind::Scalar(r, _, f, _) => format!("i.{f}()? as {r}"),
        Kind::Bytes => "i.bytes()?".into(), Kind::Str => "i.string()?".into(),
        Kind::Enum(n) => format!("{n}::from_i32(i.varint()? as i32).unwrap_or_default()"),
        Kind::Msg(n) => format!("{{ let mut m = {n}::default(); i.message(&mut m)?; m }}") };
    let wire = |k: &Kind| match k { Kind::Scalar(_, w, ..) => *w, Kind::Enum(_) => 0, _ => 2 };
    let write = |k: &Kind, num: u32, e: &str| match k {
        Kind::Scalar(_, w, _, how) => {
            let body = match *how { "v" => format!("::protobuf::put_varint(o, *{e} as u64);"),
                "d" => format!("o.extend_from_slice(&{e}.to_bits().to_le_bytes());"),
                _ => format!("o.extend_from_slice(&{e}.to_le_bytes());") };
            format!("::protobuf::put_tag(o, {num}, {w}); {body}") }
        Kind::Bytes => format!("::protobuf::put_bytes(o, {num}, {e});"),
        Kind::Str => format!("::protobuf::put_bytes(o, {num}, {e}.as_bytes());"),
        Kind::Enum(_) => format!("::protobuf::put_tag(o, {num}, 0); ::protobuf::put_varint(o, *{e} as i32 as u64);"),
        Kind::Msg(_) => format!("::protobuf::put_message(o, {num}, {e});") };
    let nondefault = |k: &Kind, e: &str| match k {
        Kind::Scalar("f64", ..) => format!("*{e} != 0.0"),
        Kind::Scalar(..) => format!("*{e} != 0"),
        Kind::Bytes | Kind::Str => format!("!{e}.is_empty()"),
        Kind::Enum(n) => format!("*{e} != {n}::default()"),
        Kind::Msg(_) => unreachable!() };
    let mut s = String::from("pub mod witnet {\n#![allow(non_camel_case_types, non_snake_case, dead_code, unused_mut, unused_variables, clippy::all)]\n");
    for (n, vs) in &p.enums {
        writeln!(s, "#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)] pub enum {n} {{ {} }}",
            vs.iter().map(|(v, x)| format!("{}{v} = {x},", if *x == 0 { "#[default] " } else { "" })).collect::<String>()).unwrap();
        writeln!(s, "impl {n} {{ pub fn from_i32(x: i32) -> Option<Self> {{ match x {{ {} _ => None }} }} }}",
            vs.iter().map(|(v, x)| format!("{x} => Some({n}::{v}), ")).collect::<String>()).unwrap();
    }
    for m in &p.msgs {
        let n = &m.name;
        let (mut fields, mut meths, mut dec, mut enc) = (String::new(), String::new(), String::new(), String::new());
        for f in &m.fields {
            let k = kind(n, &f.ty);
            let (b, nm, num) = (base(&k), &f.name, f.num);
            if f.label {
                write!(fields, "pub {nm}: Vec<{b}>,").unwrap();
                write!(meths, "pub fn set_{nm}(&mut self, v: Vec<{b}>) {{ self.{nm} = v }} pub fn get_{nm}(&self) -> &[{b}] {{ &self.{nm} }} pub fn mut_{nm}(&mut self) -> &mut Vec<{b}> {{ &mut self.{nm} }} pub fn take_{nm}(&mut self) -> Vec<{b}> {{ std::mem::take(&mut self.{nm}) }} pub fn clear_{nm}(&mut self) {{ self.{nm}.clear() }}\n").unwrap();
                write!(dec, "{num} => {{ ::protobuf::expect(w, {})?; let x = {}; self.{nm}.push(x); }}\n", wire(&k), read(&k)).unwrap();
                write!(enc, "for x in &self.{nm} {{ {} }}\n", write(&k, num, "x")).unwrap();
            } else if let Kind::Msg(_) = k {
                write!(fields, "pub {nm}: Option<{b}>,").unwrap();
                write!(meths, "pub fn set_{nm}(&mut self, v: {b}) {{ self.{nm} = Some(v) }} pub fn get_{nm}(&self) -> {b} {{ self.{nm}.clone().unwrap_or_default() }} pub fn mut_{nm}(&mut self) -> &mut {b} {{ self.{nm}.get_or_insert_with(Default::default) }} pub fn take_{nm}(&mut self) -> {b} {{ self.{nm}.take().unwrap_or_default() }} pub fn has_{nm}(&self) -> bool {{ self.{nm}.is_some() }} pub fn clear_{nm}(&mut self) {{ self.{nm} = None }}\n").unwrap();
                write!(dec, "{num} => {{ ::protobuf::expect(w, 2)?; let m = self.{nm}.get_or_insert_with(Default::default); i.message(m)?; }}\n").unwrap();
                write!(enc, "if let Some(x) = &self.{nm} {{ {} }}\n", write(&k, num, "x")).unwrap();
            } else {
                let get = match k { Kind::Bytes => format!("&[u8] {{ &self.{nm} }}"), Kind::Str => format!("&str {{ &self.{nm} }}"), _ => format!("{b} {{ self.{nm} }}") };
                write!(fields, "pub {nm}: {b},").unwrap();
                write!(meths, "pub fn set_{nm}(&mut self, v: {b}) {{ self.{nm} = v }} pub fn get_{nm}(&self) -> {get} pub fn take_{nm}(&mut self) -> {b} {{ std::mem::take(&mut self.{nm}) }} pub fn clear_{nm}(&mut self) {{ self.{nm} = Default::default() }}\n").unwrap();
                write!(dec, "{num} => {{ ::protobuf::expect(w, {})?; self.{nm} = {}; }}\n", wire(&k), read(&k)).unwrap();
                write!(enc, "{{ let x = &self.{nm}; if {} {{ {} }} }}\n", nondefault(&k, "x"), write(&k, num, "x")).unwrap();
            }
        }
        if let Some((on, fs)) = &m.oneof {
            let en = format!("{n}_oneof_{on}");
            write!(fields, "pub {on}: Option<{en}>,").unwrap();
            let mut vars = String::new();
            let mut arms = String::new();
            for f in fs {
                let k = kind(n, &f.ty);
                let (b, nm, num) = (base(&k), &f.name, f.num);
                write!(vars, "{nm}({b}),").unwrap();
                let cl = match k { Kind::Msg(_) | Kind::Bytes | Kind::Str => ".clone()", _ => "" };
                let star = if cl.is_empty() { "*" } else { "" };
                write!(meths, "pub fn set_{nm}(&mut self, v: {b}) {{ self.{on} = Some({en}::{nm}(v)) }} pub fn has_{nm}(&self) -> bool {{ matches!(self.{on}, Some({en}::{nm}(_))) }} pub fn get_{nm}(&self) -> {b} {{ match &self.{on} {{ Some({en}::{nm}(x)) => {star}x{cl}, _ => Default::default() }} }} pub fn take_{nm}(&mut self) -> {b} {{ match self.{on}.take() {{ Some({en}::{nm}(x)) => x, o => {{ self.{on} = o; Default::default() }} }} }}\n").unwrap();
                write!(dec, "{num} => {{ ::protobuf::expect(w, {})?; let x = {}; self.{on} = Some({en}::{nm}(x)); }}\n", wire(&k), read(&k)).unwrap();
                write!(arms, "{en}::{nm}(x) => {{ {} }}\n", write(&k, num, "x")).unwrap();
            }
            writeln!(s, "#[derive(Clone, Debug, PartialEq)] pub enum {en} {{ {vars} }}").unwrap();
            write!(enc, "if let Some(k) = &self.{on} {{ match k {{ {arms} }} }}\n").unwrap();
        }
        writeln!(s, "#[derive(Clone, Debug, Default, PartialEq)] pub struct {n} {{ {fields} pub unknown_fields: ::protobuf::UnknownFields }}").unwrap();
        writeln!(s, "impl {n} {{ pub fn new() -> Self {{ Self::default() }} {meths} }}").unwrap();
        writeln!(s, "impl ::protobuf::Message for {n} {{ fn new() -> Self {{ Self::default() }} fn encode_into(&self, o: &mut Vec<u8>) {{ {enc} o.extend_from_slice(&self.unknown_fields.0); }} fn merge_limited(&mut self, i: &mut ::protobuf::Input<'_>) -> ::protobuf::ProtobufResult<()> {{ while !i.eof() {{ let (f, w) = i.tag()?; match f {{ {dec} _ => i.skip(f, w, &mut self.unknown_fields)?, }} }} Ok(()) }} }}").unwrap();
    }
    s.push_str("}\n");
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("witnet_proto_mod.rs"), s).unwrap();
}
