//! The life of data requests.
use crate::run::*;
use crate::utxo::{pkh as upkh, pointer};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use witnet_data_structures::{
    chain::{tapi::ActiveWips, *},
    data_request::DataRequestPool,
    proto::versioning::{ProtocolVersion, VersionedHashable},
    transaction::*,
};

pub struct DataReqSut {
    pool: DataRequestPool,
    eps: Vec<u64>,
    mincol: u64,
    vals: usize,
    hashes: BTreeMap<u64, Hash>,
    blocks: u32,
    tallied: BTreeMap<u64, u32>,
    requested: BTreeMap<u64, u32>,
}

fn key(n: u64) -> PublicKey {
    PublicKey { compressed: 3, bytes: [n as u8; 32] }
}
fn sig(n: u64) -> KeyedSignature {
    KeyedSignature { public_key: key(n), ..KeyedSignature::default() }
}
fn block(n: u32) -> Hash {
    Hash::with_first_u32(n)
}
fn wips(wip19: bool) -> ActiveWips {
    let mut active_wips = std::collections::HashMap::new();
    if wip19 {
        active_wips.insert("WIP0017-0018-0019".to_string(), 0);
    }
    ActiveWips { active_wips, block_epoch: 100 }
}

impl DataReqSut {
    pub fn new(cfg: &Value) -> Self {
        let v2 = u(cfg, "v2at") as u32;
        witnet_data_structures::clear_protocol_info();
        witnet_data_structures::register_protocol_version(ProtocolVersion::V1_7, 0, 45);
        witnet_data_structures::register_protocol_version(ProtocolVersion::V1_8, v2 / 2, 45);
        witnet_data_structures::register_protocol_version(ProtocolVersion::V2_0, v2, 20);
        witnet_data_structures::set_environment(if u(cfg, "div") == 4 { Environment::Mainnet } else { Environment::Testnet });
        DataReqSut {
            pool: DataRequestPool::new(u(cfg, "extra") as u16),
            eps: arr(cfg, "eps").iter().map(|x| x.as_u64().unwrap()).collect(),
            mincol: u(cfg, "mincol"),
            vals: u(cfg, "vals") as usize,
            hashes: BTreeMap::new(),
            blocks: 0,
            tallied: BTreeMap::new(),
            requested: BTreeMap::new(),
        }
    }
    fn hash(&self, id: u64) -> Hash {
        self.hashes.get(&id).copied().unwrap_or_else(|| Hash::with_first_u32(0xdead_0000 + id as u32))
    }
    fn id(&self, h: &Hash) -> u64 {
        *self.hashes.iter().find(|(_, x)| *x == h).unwrap().0
    }
    fn reveal(&self, d: u64, who: u64) -> RevealTransaction {
        RevealTransaction::new(RevealTransactionBody::new(self.hash(d), vec![who as u8], key(who).pkh()), vec![sig(who)])
    }
    fn who(&self, p: &PublicKeyHash) -> u64 {
        (0..250).find(|n| key(*n).pkh() == *p).unwrap()
    }
    fn whos<'a>(&self, v: impl Iterator<Item = &'a PublicKeyHash>) -> Vec<u64> {
        let mut v: Vec<u64> = v.map(|p| self.who(p)).collect();
        v.sort_unstable();
        v
    }
}

impl Sut for DataReqSut {
    fn step(&mut self, op: &Value) -> Value {
        let r = |r: Result<(), anyhow::Error>| json!(if r.is_ok() { "ok" } else { "refused" });
        let mut done = None;
        let mut same = true;
        self.blocks += 1;
        let res = match s(op, "op") {
            "request" => {
                let (id, ep) = (u(op, "id"), u(op, "ep") as u32);
                let o = DataRequestOutput {
                    witnesses: u(op, "n") as u16,
                    witness_reward: u(op, "reward"),
                    commit_and_reveal_fee: u(op, "fee"),
                    collateral: u(op, "col"),
                    ..DataRequestOutput::default()
                };
                let t = DRTransaction::new(DRTransactionBody::new(vec![Input::new(pointer(700 + id))], o, vec![]), vec![sig(200)]);
                self.hashes.insert(id, t.versioned_hash(ProtocolVersion::from_epoch(ep)));
                self.requested.insert(id, self.blocks);
                r(self.pool.process_data_request(&t, ep, Some(block(self.blocks))))
            }
            "commit" => {
                let b = CommitTransactionBody::without_collateral(self.hash(u(op, "id")), Hash::with_first_u32(9), Default::default());
                let t = CommitTransaction::new(b, vec![sig(u(op, "who"))]);
                r(self.pool.process_commit(&t, 7, &block(self.blocks)))
            }
            "reveal" => {
                let t = self.reveal(u(op, "id"), u(op, "who"));
                r(self.pool.process_reveal(&t, 7, &block(self.blocks)))
            }
            "tally" => {
                let t = TallyTransaction::new(self.hash(u(op, "id")), vec![1], vec![], vec![], vec![]);
                let x = self.pool.process_tally(&t, &block(self.blocks));
                if x.is_ok() {
                    self.tallied.insert(u(op, "id"), self.blocks);
                }
                r(x)
            }
            "keep" => {
                let h = self.hash(u(op, "id"));
                let t = self.reveal(u(op, "id"), u(op, "who"));
                self.pool.insert_reveal(h, t);
                json!("ok")
            }
            "epoch" => {
                let v = self.pool.update_data_request_stages(Some(self.vals), Some(u(op, "e") as u32));
                for t in &v {
                    let d = self.id(&t.body.dr_pointer);
                    same &= *t == self.reveal(d, self.who(&t.body.pkh));
                }
                let mut v: Vec<u64> = v.iter().map(|t| self.id(&t.body.dr_pointer)).collect();
                v.sort_unstable();
                json!(v)
            }
            "finished" => {
                let mut out = vec![];
                for i in self.pool.finished_data_requests() {
                    let id = self.id(&i.tally.as_ref().unwrap().dr_pointer);
                    same &= i.block_hash_tally_tx == Some(block(self.tallied[&id])) && i.block_hash_dr_tx == Some(block(self.requested[&id]));
                    same &= i.current_stage.is_none();
                    out.push(json!({"id": id, "cr": i.current_commit_round, "rr": i.current_reveal_round, "cms": self.whos(i.commits.keys()), "rvs": self.whos(i.reveals.keys())}));
                }
                done = Some(out);
                json!("ok")
            }
            "reload" => {
                let b = bincode::serialize(&self.pool).unwrap();
                let p: DataRequestPool = bincode::deserialize(&b).unwrap();
                same &= p == self.pool;
                self.pool = p;
                json!("ok")
            }
            _ => bad_op(op),
        };
        let p = &self.pool;
        let mut st = vec![];
        for (h, s) in &p.data_request_pool {
            let stage = match s.stage {
                DataRequestStage::COMMIT => "commit",
                DataRequestStage::REVEAL => "reveal",
                DataRequestStage::TALLY => "tally",
            };
            same &= s.info.current_stage == Some(s.stage) && p.get_dr_output(h) == Some(s.data_request.clone()) && p.data_request_state(h) == Some(s);
            same &= s.pkh == key(200).pkh();
            st.push(json!([self.id(h), stage, s.info.current_commit_round, s.info.current_reveal_round, self.whos(s.info.commits.keys()), self.whos(s.info.reveals.keys()), s.backup_witnesses()]));
        }
        let upto: Vec<Value> = self.eps.iter().map(|e| {
            let v = p.get_dr_output_pointers_by_epoch(*e as u32);
            json!([e, v.iter().map(|h| self.id(h)).collect::<Vec<_>>()])
        }).collect();
        let all = p.get_all_reveals(&wips(true), Some(self.vals), Some(1_000_000));
        let old = p.get_all_reveals(&wips(false), Some(self.vals), Some(1_000_000));
        let mut allv = vec![];
        for (h, v) in &all {
            // the order is that of a hash, or that of the identities: the same in every node
            let mut w = v.clone();
            w.sort_by_key(|t| {
                let mut b = t.body.pkh.as_ref().to_vec();
                b.extend(h.as_ref());
                witnet_crypto::hash::calculate_sha256(&b).0
            });
            same &= *v == w && p.get_reveals(h, &wips(true)).unwrap() == v.iter().collect::<Vec<_>>();
            w.sort_by_key(|t| t.body.pkh);
            same &= old.get(h) == Some(&w) && p.get_reveals(h, &wips(false)).unwrap() == w.iter().collect::<Vec<_>>();
            allv.push(json!([self.id(h), self.whos(v.iter().map(|t| &t.body.pkh))]));
        }
        same &= all.len() == old.len();
        let ready: Vec<u64> = p.get_tally_ready_drs().iter().map(|h| self.id(h)).collect();
        let _ = upkh(1);
        let mut o = json!({"res": res, "st": st, "upto": upto, "all": allv, "ready": ready, "locked": p.locked_wits_by_requests(self.mincol), "same": same});
        if let Some(d) = done {
            o["done"] = json!(d);
        }
        o
    }
}
