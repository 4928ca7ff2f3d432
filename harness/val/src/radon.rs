//! Values of requests: what reveals come to.
use crate::{run::*, world::*};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use witnet_crypto::hash::calculate_sha256;
use witnet_data_structures::{
    chain::{tapi::ActiveWips, *},
    radon_error::RadonError,
    proto::versioning::ProtocolVersion,
    radon_report::{ReportContext, RetrievalMetadata, Stage, TypeLike},
    transaction::*,
};
use witnet_rad::{
    error::RadError,
    script::{RadonScriptExecutionSettings, execute_radon_script, unpack_radon_script},
    types::{array::RadonArray, boolean::RadonBoolean, bytes::RadonBytes, float::RadonFloat, integer::RadonInteger, map::RadonMap, string::RadonString, *},
};
use witnet_validations::validations::run_tally_panic_safe;

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect()
}
fn error(v: &Value) -> RadError {
    match v[1].as_str().unwrap() {
        "HttpStatus" => RadError::HttpStatus { status_code: v[2].as_u64().unwrap() as u16 },
        "ArrayIndexOutOfBounds" => RadError::ArrayIndexOutOfBounds { index: v[2].as_i64().unwrap() as i32 },
        "RetrieveTimeout" => RadError::RetrieveTimeout,
        "Overflow" => RadError::Overflow,
        "MalformedReveal" => RadError::MalformedReveal,
        "EncodeReveal" => RadError::EncodeReveal,
        "Unknown" => RadError::Unknown,
        "UnhandledIntercept" if v[2] == json!(0) => RadError::UnhandledInterceptV2 { inner: None },
        "UnhandledIntercept" => RadError::UnhandledIntercept { inner: None, message: Some("it".into()) },
        x => panic!("no error {x}"),
    }
}
pub fn value(v: &Value) -> RadonTypes {
    match v[0].as_str().unwrap() {
        "i" => RadonInteger::from(v[1].as_i64().unwrap() as i128).into(),
        "f" => RadonFloat::from(v[1].as_i64().unwrap() as f64 / 16.0).into(),
        "b" => RadonBoolean::from(v[1].as_bool().unwrap()).into(),
        "s" => RadonString::from(text(&v[1])).into(),
        "y" => RadonBytes::from(bytes(&v[1])).into(),
        "a" => RadonArray::from(v[1].as_array().unwrap().iter().map(value).collect::<Vec<_>>()).into(),
        "m" => RadonMap::from(v[1].as_array().unwrap().iter().map(|p| (text(&p[0]), value(&p[1]))).collect::<BTreeMap<_, _>>()).into(),
        "e" => RadonTypes::from(RadonError::new(error(v))),
        x => panic!("no value {x}"),
    }
}
fn points(s: &str) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
/// The name of what went wrong, and what of it is of consequence
fn told(e: &RadError) -> Value {
    let text = format!("{e:?}");
    let name: String = text.chars().take_while(|c| c.is_alphanumeric()).collect();
    match e {
        RadError::HttpStatus { status_code } => json!(["e", name, status_code]),
        RadError::ArrayIndexOutOfBounds { index } => json!(["e", name, index]),
        RadError::InsufficientConsensus { achieved, required } => json!(["e", name, [(achieved * 1e6).round() as i64, (required * 100.0).round() as i64]]),
        RadError::UnhandledIntercept { .. } => json!(["e", name, 1]),
        RadError::UnhandledInterceptV2 { .. } => json!(["e", "UnhandledIntercept", 0]),
        _ => json!(["e", name, 0]),
    }
}
/// As it is reported, digests by what they are of
fn seen(v: &RadonTypes, names: &[Value]) -> Value {
    match v {
        RadonTypes::Integer(x) => json!(["i", i64::try_from(x.value()).unwrap()]),
        RadonTypes::Float(x) if x.value().is_nan() => json!(["nan", 0]),
        RadonTypes::Float(x) => {
            let k = x.value() * 80640.0;
            assert!((k - k.round()).abs() < 1e-6, "not a whole number of parts: {k}");
            json!(["F", k.round() as i64])
        }
        RadonTypes::Boolean(x) => json!(["b", x.value()]),
        RadonTypes::String(x) => json!(["s", points(&x.value())]),
        RadonTypes::Bytes(x) => match names.iter().find(|n| calculate_sha256(&bytes(n)).as_ref() == x.value().as_slice()) {
            Some(n) => json!(["h", n]),
            None => json!(["y", x.value()]),
        },
        RadonTypes::Array(x) => json!(["a", x.value().iter().map(|y| seen(y, names)).collect::<Vec<_>>()]),
        RadonTypes::Map(x) => json!(["m", x.value().iter().map(|(k, y)| json!([points(k), seen(y, names)])).collect::<Vec<_>>()]),
        RadonTypes::RadonError(x) => told(x.inner()),
    }
}
/// The last rules, except those switched off
fn rules(w: &Value) -> ActiveWips {
    let mut a = wips();
    for (k, name) in [("w9", "WIP0009-0011-0012"), ("w17", "WIP0017-0018-0019"), ("w18", "WIP0017-0018-0019"), ("w19", "WIP0017-0018-0019"), ("w26", "WIP0026"), ("w24", "WIP0024")] {
        if w[k] == json!(false) {
            a.active_wips.remove(name);
        }
    }
    a
}
fn filter(f: &Value) -> RADFilter {
    RADFilter {
        op: u(f, "op") as u32,
        args: match s(f, "arg") {
            "none" => vec![],
            "number" => {
                let k = f["s"].as_i64().unwrap();
                // whole ones can be given as integers
                if k % 4 == 0 { serde_cbor::to_vec(&serde_cbor::Value::Integer((k / 4) as i128)).unwrap() } else { serde_cbor::to_vec(&serde_cbor::Value::Float(k as f64 / 4.0)).unwrap() }
            }
            "text" => serde_cbor::to_vec(&serde_cbor::Value::Text("1".into())).unwrap(),
            _ => vec![0xff],
        },
    }
}

pub struct TallySut;
impl Sut for TallySut {
    fn step(&mut self, op: &Value) -> Value {
        let reveals: Vec<RevealTransaction> = arr(op, "reveals")
            .iter()
            .enumerate()
            .map(|(i, v)| {
                let reveal = if v[0] == json!("x") { [vec![0xff], vec![0x82, 0x01], vec![0xf6], vec![]][v[1].as_u64().unwrap() as usize].clone() } else { value(v).encode().unwrap() };
                RevealTransaction::new(RevealTransactionBody::new(Hash::default(), reveal, pkh(i as u64)), vec![])
            })
            .collect();
        let t = &op["t"];
        let tally = RADTally { filters: arr(t, "filters").iter().map(filter).collect(), reducer: u(t, "reducer") as u32 };
        let refs: Vec<&RevealTransaction> = reveals.iter().collect();
        let r = run_tally_panic_safe(&refs, &tally, f64::from(u(op, "min") as u32) / 100.0, u(op, "commits") as usize, &rules(&op["w"]), b(op, "many"));
        let names = op["names"].as_array().cloned().unwrap_or_default();
        let (liars, errors) = match &r.context.stage {
            Stage::Tally(m) => (json!(m.liars), json!(m.errors)),
            _ => (json!("none"), json!("none")),
        };
        // what is told to the chain is what was found
        let again = r.result.encode().ok().and_then(|x| RadonTypes::try_from(x.as_slice()).ok()).map(|x| seen(&x, &names));
        let v = seen(&r.result, &names);
        json!({"v": v, "again": again == Some(v.clone()) , "liars": liars, "errors": errors})
    }
}

/// Integers with their digits from the units up
fn whole(v: &Value) -> i128 {
    let digits: String = v[2].as_array().unwrap().iter().rev().map(|d| char::from(b'0' + d.as_u64().unwrap() as u8)).collect();
    let sign = if v[1].as_bool().unwrap() { "-" } else { "" };
    format!("{sign}{}", if digits.is_empty() { "0" } else { &digits }).parse().unwrap()
}
fn digits(n: i128) -> Value {
    json!(["i", n < 0, n.unsigned_abs().to_string().bytes().rev().map(|c| c - b'0').skip_while(|_| n == 0).collect::<Vec<_>>()])
}
fn json_text(j: &Value, ws: &str) -> String {
    let quoted = |v: &Value| serde_json::to_string(&text(v)).unwrap();
    match j[0].as_str().unwrap() {
        "n" => "null".into(),
        "b" => j[1].to_string(),
        "s" => quoted(&j[1]),
        "i" => whole(j).to_string(),
        "d" => format!("{:?}", j[1].as_i64().unwrap() as f64 / 16.0),
        "a" => format!("[{ws}{}]", j[1].as_array().unwrap().iter().map(|x| json_text(x, ws)).collect::<Vec<_>>().join(&format!(",{ws}"))),
        _ => format!("{{{ws}{}}}", j[1].as_array().unwrap().iter().map(|p| format!("{}{ws}:{ws}{}{ws}", quoted(&p[0]), json_text(&p[1], ws))).collect::<Vec<_>>().join(",")),
    }
}
fn xml_text(x: &Value, ws: &str) -> String {
    let safe = |v: &Value| text(v).replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;");
    if x[0] == json!("t") {
        return format!("{ws}{}{ws}", safe(&x[1]));
    }
    let name = text(&x[1]);
    let attrs: String = x[2].as_array().unwrap().iter().map(|p| format!(" {}=\"{}\"", text(&p[0]), safe(&p[1]))).collect();
    let inner: String = x[3].as_array().unwrap().iter().map(|c| xml_text(c, ws)).collect();
    format!("<{name}{attrs}>{inner}</{name}>")
}
fn input(v: &Value, ws: &str) -> RadonTypes {
    match v[0].as_str().unwrap() {
        "i" => RadonInteger::from(whole(v)).into(),
        "a" => RadonArray::from(v[1].as_array().unwrap().iter().map(|x| input(x, ws)).collect::<Vec<_>>()).into(),
        "m" => RadonMap::from(v[1].as_array().unwrap().iter().map(|p| (text(&p[0]), input(&p[1], ws))).collect::<BTreeMap<_, _>>()).into(),
        "json" => RadonString::from(json_text(&v[1], ws)).into(),
        "xml" => RadonString::from(xml_text(&v[1], ws)).into(),
        _ => value(v),
    }
}
fn path(p: &Value) -> serde_cbor::Value {
    let steps = p.as_array().unwrap().iter();
    serde_cbor::Value::Text(steps.fold("$".to_string(), |a, s| if s[0] == json!("k") { format!("{a}.{}", text(&s[1])) } else if s[0] == json!("w") { format!("{a}[0:]") } else { format!("{a}[{}]", s[1]) }))
}
fn argument(v: &Value) -> serde_cbor::Value {
    use serde_cbor::Value as C;
    match v[0].as_str().unwrap() {
        "p" => C::Array(v[1].as_array().unwrap().iter().map(call).collect()),
        "path" => path(&v[1]),
        "paths" => C::Array(v[1].as_array().unwrap().iter().map(|p| path(&p[1])).collect()),
        "null" => C::Null,
        _ => C::try_from(input(v, "")).unwrap(),
    }
}
fn call(c: &Value) -> serde_cbor::Value {
    use serde_cbor::Value as C;
    match c[0].as_str().unwrap() {
        "c" => C::Integer(c[1].as_i64().unwrap() as i128),
        "k" => C::Array(std::iter::once(C::Integer(c[1].as_i64().unwrap() as i128)).chain(c[2].as_array().unwrap().iter().map(argument)).collect()),
        "none" => C::Array(vec![]),
        "neg" => C::Integer(-1),
        _ => C::Text("0".into()),
    }
}
fn trouble(e: &RadError) -> Value {
    match e {
        RadError::ArrayIndexOutOfBounds { index } => json!(["e", "ArrayIndexOutOfBounds", digits(*index as i128)]),
        RadError::MapKeyNotFound { key } => json!(["e", "MapKeyNotFound", points(key)]),
        RadError::UnhandledIntercept { inner: Some(inner), .. } => trouble(inner),
        RadError::Subscript { inner, .. } => json!(["e", "Subscript", trouble(inner)[1]]),
        _ => json!(["e", told(e)[1], 0]),
    }
}
fn preimages(v: &RadonTypes, out: &mut Vec<Vec<u8>>) {
    match v {
        RadonTypes::Bytes(x) => out.push(x.value()),
        RadonTypes::Array(x) => {
            let parts: Option<Vec<Vec<u8>>> = x
                .value()
                .iter()
                .map(|y| match y {
                    RadonTypes::Bytes(z) => Some(z.value()),
                    RadonTypes::String(z) => z.value().is_ascii().then(|| z.value().as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).ok()).collect()).flatten(),
                    _ => None,
                })
                .collect();
            if let Some(parts) = parts {
                out.push(parts.iter().flat_map(|z| vec![0; 32usize.saturating_sub(z.len())].into_iter().chain(z[..z.len().min(32)].to_vec())).collect());
            }
            x.value().iter().for_each(|y| preimages(y, out))
        }
        RadonTypes::Map(x) => x.value().values().for_each(|y| preimages(y, out)),
        _ => {}
    }
}
fn shown(v: &RadonTypes, known: &[Vec<u8>]) -> Value {
    match v {
        RadonTypes::Integer(x) => digits(x.value()),
        RadonTypes::Float(x) if x.value().is_nan() => json!(["nan", 0]),
        RadonTypes::Float(x) if (x.value() * 16.0).fract() == 0.0 && x.value().abs() < 1e8 => json!(["f", (x.value() * 16.0) as i64]),
        RadonTypes::Float(x) => json!(["other", x.value().to_string()]),
        RadonTypes::Boolean(x) => json!(["b", x.value()]),
        RadonTypes::String(x) => json!(["s", points(&x.value())]),
        RadonTypes::Bytes(x) => match known.iter().find(|n| calculate_sha256(n).as_ref() == x.value().as_slice()) {
            Some(n) => json!(["h", n]),
            None => json!(["y", x.value()]),
        },
        RadonTypes::Array(x) => json!(["a", x.value().iter().map(|y| shown(y, known)).collect::<Vec<_>>()]),
        RadonTypes::Map(x) => json!(["m", x.value().iter().map(|(k, y)| json!([points(k), shown(y, known)])).collect::<Vec<_>>()]),
        RadonTypes::RadonError(x) => trouble(x.inner()),
    }
}
pub struct ScriptSut;
impl Sut for ScriptSut {
    fn step(&mut self, op: &Value) -> Value {
        let ws = ["", " ", "\n "][op["ws"].as_u64().unwrap_or(0) as usize];
        let v = input(&op["v"], ws);
        let packed = serde_cbor::to_vec(&serde_cbor::Value::Array(arr(op, "script").iter().map(call).collect())).unwrap();
        let script = match unpack_radon_script(&packed) {
            Ok(x) => x,
            Err(e) => return json!({"v": trouble(&e), "again": true, "back": "none"}),
        };
        let context = |stage| {
            let mut c = ReportContext::from_stage(stage);
            c.set_active_wips(rules(&op["w"]));
            c.set_protocol_version(if b(&op["w"], "new") { ProtocolVersion::V2_1 } else { ProtocolVersion::V2_0 });
            c
        };
        let retrieving = Stage::Retrieval(RetrievalMetadata::default());
        let mut watched = context(retrieving);
        let full = execute_radon_script(v.clone(), &script, &mut watched, RadonScriptExecutionSettings::enable_all()).unwrap();
        // however closely it is watched, it comes to the same
        let bare = execute_radon_script(v.clone(), &script, &mut context(Stage::Contextless), RadonScriptExecutionSettings::disable_all()).unwrap();
        let steps = full.partial_results.clone().unwrap();
        let mut known = vec![vec![]];
        steps.iter().for_each(|x| preimages(x, &mut known));
        if let Stage::Retrieval(m) = &watched.stage {
            m.subscript_partial_results.iter().flatten().flatten().for_each(|x| preimages(x, &mut known));
        }
        let failed = |x: &RadonTypes| matches!(x, RadonTypes::RadonError(_));
        let same = format!("{:?}", full.result) == format!("{:?}", bare.result)
            && steps[0] == v
            && format!("{:?}", steps.last().unwrap()) == format!("{:?}", full.result)
            && steps[..steps.len() - 1].iter().all(|x| !failed(x))
            && (failed(&full.result) || steps.len() == script.len() + 1);
        let back = match full.result.encode() {
            _ if failed(&full.result) => "none",
            Err(_) => "none",
            Ok(x) => match RadonTypes::try_from(x.as_slice()) {
                Ok(y) if shown(&y, &known) == shown(&full.result, &known) => "same",
                _ => "other",
            },
        };
        json!({"v": shown(&full.result, &known), "again": same, "back": back})
    }
}
