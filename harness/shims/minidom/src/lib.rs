//! Stand-in for witnet's fork of `minidom` (git dependency): elements, attributes, text, CDATA.
use std::{collections::BTreeMap, fmt, str::FromStr};
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    EndOfDocument,
    Malformed(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::EndOfDocument => f.write_str("the end of the document has been reached prematurely"),
            Error::Malformed(s) => f.write_str(s),
        }
    }
}
impl std::error::Error for Error {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Node {
    Element(Element),
    Text(String),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Element {
    name: String,
    attrs: BTreeMap<String, String>,
    nodes: Vec<Node>,
}
impl Element {
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn attrs(&self) -> impl Iterator<Item = (&str, &str)> {
        self.attrs.iter().map(|(k, v)| (k.as_str(), v.as_str()))
    }
    pub fn nodes(&self) -> std::slice::Iter<'_, Node> {
        self.nodes.iter()
    }
}
fn bad<T>(s: &str) -> Result<T, Error> {
    Err(Error::Malformed(s.to_string()))
}
fn unescape(s: &str) -> Result<String, Error> {
    let mut o = String::new();
    let mut r = s;
    while let Some(p) = r.find('&') {
        o.push_str(&r[..p]);
        let e = match r[p..].find(';') {
            Some(e) => p + e,
            None => return bad("unterminated entity"),
        };
        match &r[p + 1..e] {
            "lt" => o.push('<'),
            "gt" => o.push('>'),
            "amp" => o.push('&'),
            "quot" => o.push('"'),
            "apos" => o.push('\''),
            x if x.starts_with("#x") => o.push(u32::from_str_radix(&x[2..], 16).ok().and_then(char::from_u32).ok_or(Error::Malformed("entity".into()))?),
            x if x.starts_with('#') => o.push(x[1..].parse().ok().and_then(char::from_u32).ok_or(Error::Malformed("entity".into()))?),
            _ => return bad("unrecognized entity"),
        }
        r = &r[e + 1..];
    }
    o.push_str(r);
    Ok(o)
}
fn text(stack: &mut [Element], t: String) {
    if let Some(e) = stack.last_mut() {
        if let Some(Node::Text(x)) = e.nodes.last_mut() {
            x.push_str(&t);
        } else {
            e.nodes.push(Node::Text(t));
        }
    }
}
impl FromStr for Element {
    type Err = Error;
    fn from_str(s: &str) -> Result<Element, Error> {
        let mut r = s;
        let mut stack: Vec<Element> = vec![];
        loop {
            let p = match r.find('<') {
                Some(p) => p,
                None => return Err(Error::EndOfDocument),
            };
            if p > 0 {
                let t = unescape(&r[..p])?;
                text(&mut stack, t);
            }
            r = &r[p..];
            if let Some(x) = r.strip_prefix("<!--") {
                r = match x.find("-->") { Some(e) => &x[e + 3..], None => return Err(Error::EndOfDocument) };
            } else if let Some(x) = r.strip_prefix("<![CDATA[") {
                let e = match x.find("]]>") { Some(e) => e, None => return Err(Error::EndOfDocument) };
                text(&mut stack, x[..e].to_string());
                r = &x[e + 3..];
            } else if let Some(x) = r.strip_prefix("<?") {
                r = match x.find("?>") { Some(e) => &x[e + 2..], None => return Err(Error::EndOfDocument) };
            } else if let Some(x) = r.strip_prefix("<!") {
                r = match x.find('>') { Some(e) => &x[e + 1..], None => return Err(Error::EndOfDocument) };
            } else if let Some(x) = r.strip_prefix("</") {
                let e = match x.find('>') { Some(e) => e, None => return Err(Error::EndOfDocument) };
                let el = match stack.pop() { Some(el) => el, None => return bad("unexpected closing tag") };
                let n = x[..e].trim();
                if n.rsplit(':').next() != Some(el.name.as_str()) {
                    return bad("mismatched closing tag");
                }
                r = &x[e + 1..];
                match stack.last_mut() {
                    Some(p) => p.nodes.push(Node::Element(el)),
                    None => return Ok(el),
                }
            } else {
                // opening tag: find its end outside quotes
                let mut q = None;
                let mut end = None;
                for (i, c) in r.char_indices().skip(1) {
                    match (q, c) {
                        (Some(x), c) if x == c => q = None,
                        (None, '"' | '\'') => q = Some(c),
                        (None, '>') => {
                            end = Some(i);
                            break;
                        }
                        _ => {}
                    }
                }
                let end = match end { Some(e) => e, None => return Err(Error::EndOfDocument) };
                let mut inner = &r[1..end];
                r = &r[end + 1..];
                let empty = inner.ends_with('/');
                if empty {
                    inner = &inner[..inner.len() - 1];
                }
                let np = inner.find(char::is_whitespace).unwrap_or(inner.len());
                let name = &inner[..np];
                if name.is_empty() || !name.chars().next().unwrap().is_alphabetic() && !name.starts_with('_') {
                    return bad("invalid element name");
                }
                let mut el = Element { name: name.rsplit(':').next().unwrap().to_string(), attrs: BTreeMap::new(), nodes: vec![] };
                let mut a = inner[np..].trim_start();
                while !a.is_empty() {
                    let e = match a.find('=') { Some(e) => e, None => return bad("attribute without value") };
                    let k = a[..e].trim();
                    let v = a[e + 1..].trim_start();
                    let qc = match v.chars().next() { Some(c @ ('"' | '\'')) => c, _ => return bad("unquoted attribute") };
                    let ve = match v[1..].find(qc) { Some(x) => x + 1, None => return bad("attribute") };
                    if el.attrs.insert(k.to_string(), unescape(&v[1..ve])?).is_some() {
                        return bad("duplicate attribute");
                    }
                    a = v[ve + 1..].trim_start();
                }
                if empty {
                    match stack.last_mut() {
                        Some(p) => p.nodes.push(Node::Element(el)),
                        None => return Ok(el),
                    }
                } else {
                    stack.push(el);
                }
            }
        }
    }
}
