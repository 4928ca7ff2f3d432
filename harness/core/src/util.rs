use serde_json::Value;

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

pub fn s(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap_or_else(|| panic!("missing string {k} in {v}")).to_string()
}

pub fn n(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("missing int {k} in {v}"))
}

pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    match &v[k] {
        Value::Array(a) => a,
        // an empty TLA+ function and an empty sequence are printed alike
        Value::Object(o) if o.is_empty() => &[],
        Value::Null => &[],
        x => panic!("missing array {k} in {x}"),
    }
}

/// Arguments that the harness could not build are errors of the harness, not of the code under test.
pub fn tool_error(msg: &str) -> ! {
    eprintln!("TOOL-ERROR {msg}");
    std::process::exit(3)
}
