//! Stand-in for the `jsonpath` crate: child, wildcard, recursive descent, index, slice and union.
use serde_json::Value;
#[derive(Debug, Clone)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
#[derive(Debug, Clone)]
enum Step {
    Child(String),
    Wild,
    Desc,
    Keys(Vec<String>),
    Idx(Vec<i64>),
    Slice(Option<i64>, Option<i64>),
}
#[derive(Debug, Clone)]
pub struct Selector(Vec<Step>);
fn ident(c: &[char], i: &mut usize) -> String {
    let s = *i;
    while *i < c.len() && !".[]".contains(c[*i]) {
        *i += 1;
    }
    c[s..*i].iter().collect()
}
impl Selector {
    pub fn new(e: &str) -> Result<Selector, Error> {
        let err = |m: &str| Error(format!("failed to parse {e:?}: {m}"));
        let c: Vec<char> = e.chars().collect();
        if c.first() != Some(&'$') {
            return Err(err("expected root"));
        }
        let mut i = 1;
        let mut st = vec![];
        while i < c.len() {
            match c[i] {
                '.' => {
                    i += 1;
                    if c.get(i) == Some(&'.') {
                        i += 1;
                        st.push(Step::Desc);
                        if c.get(i) == Some(&'[') {
                            continue;
                        }
                    }
                    if c.get(i) == Some(&'*') {
                        i += 1;
                        st.push(Step::Wild);
                    } else {
                        let n = ident(&c, &mut i);
                        if n.is_empty() || !n.chars().all(|x| x.is_alphanumeric() || x == '_' || x == '-') {
                            return Err(err("expected child"));
                        }
                        st.push(Step::Child(n));
                    }
                }
                '[' => {
                    let mut j = i + 1;
                    let mut q = None;
                    while j < c.len() && (q.is_some() || c[j] != ']') {
                        match q {
                            Some(x) if x == c[j] => q = None,
                            None if c[j] == '\'' || c[j] == '"' => q = Some(c[j]),
                            _ => {}
                        }
                        j += 1;
                    }
                    if j >= c.len() {
                        return Err(err("unterminated"));
                    }
                    let b: String = c[i + 1..j].iter().collect::<String>().trim().to_string();
                    i = j + 1;
                    if b == "*" {
                        st.push(Step::Wild);
                    } else if b.starts_with(['\'', '"']) {
                        let ks: Option<Vec<String>> = b.split(',').map(|k| {
                            let k = k.trim();
                            (k.len() >= 2 && k[..1] == k[k.len() - 1..]).then(|| k[1..k.len() - 1].to_string())
                        }).collect();
                        st.push(Step::Keys(ks.ok_or_else(|| err("keys"))?));
                    } else if let Some((x, y)) = b.split_once(':') {
                        let p = |s: &str| if s.trim().is_empty() { Ok(None) } else { s.trim().parse().map(Some).map_err(|_| err("slice")) };
                        st.push(Step::Slice(p(x)?, p(y)?));
                    } else {
                        let xs: Result<Vec<i64>, _> = b.split(',').map(|x| x.trim().parse()).collect();
                        st.push(Step::Idx(xs.map_err(|_| err("index"))?));
                    }
                }
                _ => return Err(err("unexpected")),
            }
        }
        Ok(Selector(st))
    }
    pub fn find<'a>(&self, v: &'a Value) -> std::vec::IntoIter<&'a Value> {
        let mut cur = vec![v];
        for s in &self.0 {
            let mut nx = vec![];
            for v in cur {
                match s {
                    Step::Child(k) => nx.extend(v.as_object().and_then(|o| o.get(k))),
                    Step::Keys(ks) => ks.iter().for_each(|k| nx.extend(v.as_object().and_then(|o| o.get(k)))),
                    Step::Wild => match v {
                        Value::Array(a) => nx.extend(a.iter()),
                        Value::Object(o) => nx.extend(o.values()),
                        _ => {}
                    },
                    Step::Desc => desc(v, &mut nx),
                    Step::Idx(xs) => {
                        if let Value::Array(a) = v {
                            for x in xs {
                                let k = if *x < 0 { a.len() as i64 + x } else { *x };
                                if k >= 0 {
                                    nx.extend(a.get(k as usize));
                                }
                            }
                        }
                    }
                    Step::Slice(x, y) => {
                        if let Value::Array(a) = v {
                            let n = a.len() as i64;
                            let f = |z: i64| (if z < 0 { n + z } else { z }).clamp(0, n);
                            let (x, y) = (f(x.unwrap_or(0)), f(y.unwrap_or(n)));
                            if x < y {
                                nx.extend(a[x as usize..y as usize].iter());
                            }
                        }
                    }
                }
            }
            cur = nx;
        }
        cur.into_iter()
    }
}
fn desc<'a>(v: &'a Value, o: &mut Vec<&'a Value>) {
    o.push(v);
    match v {
        Value::Array(a) => a.iter().for_each(|x| desc(x, o)),
        Value::Object(m) => m.values().for_each(|x| desc(x, o)),
        _ => {}
    }
}
