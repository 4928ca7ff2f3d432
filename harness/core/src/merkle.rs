use crate::util::*;
use crate::Sut;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use witnet_crypto::hash::{calculate_sha256, Sha256};
use witnet_crypto::merkle::*;

/// A term of the free algebra, interned.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Term(u32);

#[derive(Default)]
struct Table {
    names: Vec<String>,
    ids: HashMap<String, u32>,
}

thread_local! { static TABLE: RefCell<Table> = RefCell::new(Table::default()); }

fn term(name: &str) -> Term {
    TABLE.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(i) = t.ids.get(name) {
            return Term(*i);
        }
        let i = t.names.len() as u32;
        t.names.push(name.to_string());
        t.ids.insert(name.to_string(), i);
        Term(i)
    })
}

fn name(x: Term) -> String {
    TABLE.with(|t| t.borrow().names[x.0 as usize].clone())
}

fn cat(a: Term, b: Term) -> Term {
    term(&format!("({}{})", name(a), name(b)))
}

fn hexs(x: &Sha256) -> String {
    format!("#{}", hex::encode(x.0))
}

fn parse(x: &str) -> Sha256 {
    let mut a = [0; 32];
    a.copy_from_slice(&hex::decode(x).unwrap());
    Sha256(a)
}

pub struct MerkleSut {
    names: Vec<String>,
    prog: ProgressiveMerkleTree<Sha256>,
}

/// the value of a leaf: the hash of its name
fn leaf(n: &str) -> Sha256 {
    calculate_sha256(n.as_bytes())
}

impl MerkleSut {
    pub fn new(_cfg: &Value) -> Self {
        TABLE.with(|t| *t.borrow_mut() = Table::default());
        term("empty");
        MerkleSut { names: vec![], prog: ProgressiveMerkleTree::sha256() }
    }

    fn shas(&self) -> Vec<Sha256> {
        self.names.iter().map(|x| leaf(x)).collect()
    }

    fn sym(&self) -> FullMerkleTree<Term> {
        static EMPTY: Term = Term(0);
        FullMerkleTree::new(self.names.iter().map(|x| term(x)).collect(), cat, &EMPTY)
    }

    fn roots(&self) -> Value {
        let l = self.shas();
        json!({"prog": hexs(&self.prog.root()), "fn": hexs(&merkle_tree_root(&l)),
               "full": hexs(&FullMerkleTree::sha256(l).root()), "sym": name(self.sym().root())})
    }
}

impl Sut for MerkleSut {
    fn step(&mut self, op: &Value) -> Value {
        match op["op"].as_str().unwrap() {
            "build" => {
                self.names = arr(op, "s").iter().map(|x| x.as_str().unwrap().to_string()).collect();
                self.prog = ProgressiveMerkleTree::sha256();
                for x in &self.names {
                    self.prog.push(leaf(x));
                }
                self.roots()
            }
            "push" => {
                let x = s(op, "x");
                self.prog.push(leaf(&x));
                self.names.push(x);
                self.roots()
            }
            "proof" => {
                let i = n(op, "i") as usize;
                let sym = self.sym();
                let full = FullMerkleTree::sha256(self.shas());
                let (p, q) = match (sym.inclusion_proof(i), full.inclusion_proof(i)) {
                    (None, None) => return json!({"some": false, "path": [], "root": "", "ok": false, "bad": 0}),
                    (Some(p), Some(q)) => (p, q),
                    (p, q) => return json!({"some": format!("{} {}", p.is_some(), q.is_some())}),
                };
                let e = term(&self.names[i]);
                let eh = leaf(&self.names[i]);
                let path: Vec<Value> = p
                    .lemma()
                    .iter()
                    .enumerate()
                    .map(|(k, h)| json!({"bit": (p.proof_index() >> k) & 1, "h": name(*h)}))
                    .collect();
                let mut bad = 0;
                // the same proof, in the hands of somebody who only has its public data
                let q2 = InclusionProof::sha256(q.proof_index(), q.lemma().to_vec());
                let r = sym.root();
                let rh = full.root();
                for x in &self.names {
                    if *x != self.names[i] {
                        bad += p.verify(term(x), r) as u32 + q.verify(leaf(x), rh) as u32 + q2.verify(leaf(x), rh) as u32;
                        bad += q.verify(eh, leaf(x)) as u32 + p.verify(e, term(x)) as u32;
                    }
                }
                for h in p.lemma() {
                    if *h != e {
                        bad += p.verify(*h, r) as u32;
                    }
                }
                for h in q.lemma() {
                    if *h != eh {
                        bad += q2.verify(*h, rh) as u32;
                    }
                }
                // both instantiations are the same proof
                let same = q.proof_index() == p.proof_index()
                    && q.lemma().len() == p.lemma().len()
                    && q.root(eh) == rh
                    && q2.root(eh) == rh;
                json!({"some": true, "path": path, "root": name(p.root(e)),
                       "ok": same && p.verify(e, r) && q.verify(eh, rh) && q2.verify(eh, rh), "bad": bad})
            }
            "forge" => {
                // every hash is given by name (term) and by value (hex), so are element and claimed root
                let mut idx = 0usize;
                let path = arr(op, "path");
                for (k, x) in path.iter().enumerate() {
                    idx |= (n(x, "bit") as usize) << k;
                }
                idx |= (op["hi"].as_u64().unwrap_or(0) as usize) << path.len();
                let p = InclusionProof::new(idx, path.iter().map(|x| term(&s(x, "h"))).collect(), cat);
                let hx = |x: &str| parse(op["hex"][x].as_str().unwrap_or_else(|| tool_error("hex")));
                let q = InclusionProof::sha256(idx, path.iter().map(|x| hx(&s(x, "h"))).collect());
                let (e, r) = (s(op, "e"), s(op, "r"));
                let root = p.root(term(&e));
                let ok = p.verify(term(&e), term(&r));
                let rooth = q.root(hx(&e));
                let okh = q.verify(hx(&e), hx(&r));
                json!({"root": name(root), "rooth": hexs(&rooth), "ok": ok && okh, "okany": ok || okh})
            }
            x => tool_error(&format!("unknown op {x}")),
        }
    }
}
