//! The pool of transactions waiting for a block.
use crate::run::*;
use crate::utxo::{pkh, pointer};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use witnet_data_structures::{
    chain::*,
    data_request::DataRequestPool,
    transaction::*,
    vrf::{DataRequestEligibilityClaim, VrfProof},
};

pub struct TxPoolSut {
    pool: TransactionsPool,
    drs: DataRequestPool,
    epoch: u32,
    ids: HashMap<Hash, u64>,
    txs: BTreeMap<u64, Transaction>,
}

fn inputs(op: &Value, k: &str) -> Vec<Input> {
    let mut v: Vec<u64> = arr(op, k).iter().map(|x| x.as_u64().unwrap()).collect();
    v.sort_unstable();
    v.into_iter().map(|i| Input::new(pointer(i))).collect()
}
fn out(v: u64) -> ValueTransferOutput {
    ValueTransferOutput { pkh: pkh(1), value: v, time_lock: 0 }
}
fn key(n: u64) -> PublicKey {
    PublicKey { compressed: 2, bytes: [n as u8; 32] }
}
fn sig(n: u64) -> KeyedSignature {
    KeyedSignature { public_key: key(n), ..KeyedSignature::default() }
}
/// A proof with nothing in it but whose it is.
pub fn vrf_of(n: u64) -> VrfProof {
    let mut v = serde_json::to_value(VrfProof::default()).unwrap();
    v["public_key"] = serde_json::to_value(key(n)).unwrap();
    serde_json::from_value(v).unwrap()
}
fn dr_hash(d: u64) -> Hash {
    dr_tx(d, 1, 0).hash()
}
fn dr_tx(d: u64, n: u64, f: u64) -> DRTransaction {
    let o = DataRequestOutput { witnesses: n as u16, commit_and_reveal_fee: f, ..DataRequestOutput::default() };
    DRTransaction::new(DRTransactionBody::new(vec![Input::new(pointer(5000 + d))], o, vec![]), vec![sig(1)])
}

impl TxPoolSut {
    pub fn new(cfg: &Value) -> Self {
        let mut pool = TransactionsPool::new();
        // a data request pays enough if collateral / reward <= 100
        pool.set_required_reward_collateral_ratio(100);
        pool.set_collateral_minimum(cfg["colmin"].as_u64().unwrap_or(1000));
        TxPoolSut { pool, drs: DataRequestPool::new(3), epoch: 0, ids: HashMap::new(), txs: BTreeMap::new() }
    }
    fn tx(&mut self, op: &Value) -> Transaction {
        let id = u(op, "id");
        if let Some(t) = self.txs.get(&id) {
            return t.clone();
        }
        let extra = |n: u64| (0..n).map(|_| out(3)).collect::<Vec<_>>();
        let ins = inputs(op, "ins");
        let t = match s(op, "k") {
            "vt" => {
                let mut outs = vec![out(id + 2)];
                outs.extend(extra(u(op, "o")));
                Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(ins, outs), vec![]))
            }
            "dr" => {
                // several ways to be above or below the ratio
                let (collateral, witness_reward) = match (b(op, "rich"), id % 3) {
                    (true, 0) => (0, 1_000_000 + id),
                    (true, 1) => (100 * (50 + id), 50 + id),
                    (true, _) => (1, 1 + id),
                    (false, 0) => (0, 10),
                    (false, 1) => (100 * (50 + id) + 1, 50 + id),
                    (false, _) => (1_000_000, 0),
                };
                let o = DataRequestOutput { witnesses: u(op, "n") as u16, commit_and_reveal_fee: id, collateral, witness_reward, ..DataRequestOutput::default() };
                Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(ins, o, extra(u(op, "o"))), vec![]))
            }
            "st" => {
                let o = StakeOutput { value: id, ..StakeOutput::default() };
                let change = if u(op, "o") == 1 { Some(out(9)) } else { None };
                Transaction::Stake(StakeTransaction::new(StakeTransactionBody::new(ins, o, change), vec![]))
            }
            "ut" => Transaction::Unstake(UnstakeTransaction::new(UnstakeTransactionBody::new(pkh(id % 50), out(7), 1, id), KeyedSignature::default())),
            _ => bad_op(op),
        };
        self.remember(id, t.clone());
        t
    }
    fn remember(&mut self, id: u64, t: Transaction) {
        self.ids.insert(t.hash(), id);
        self.txs.insert(id, t);
    }
    fn names(&self, v: &[Transaction]) -> Value {
        json!(v.iter().map(|t| self.ids[&t.hash()]).collect::<Vec<_>>())
    }
    fn arrive(&mut self, t: Transaction) -> Value {
        match self.pool.contains(&t) {
            Ok(false) => {
                self.pool.insert(t, 0);
                json!(["new"])
            }
            Ok(true) => json!(["known"]),
            Err(_) => json!(["duplicate"]),
        }
    }
}

impl Sut for TxPoolSut {
    fn step(&mut self, op: &Value) -> Value {
        let mut extra = Value::Null;
        let ret = match s(op, "op") {
            "minfee" => {
                self.pool.set_minimum_vtt_fee(u(op, "v"));
                json!([])
            }
            "add" => {
                let t = self.tx(op);
                match self.pool.contains(&t) {
                    Ok(false) => {
                        let e = self.pool.insert(t, u(op, "fee"));
                        self.names(&e)
                    }
                    Ok(true) => json!(["known"]),
                    Err(e) => panic!("{e}"),
                }
            }
            "limit" => {
                let e = self.pool.set_total_weight_limit(u(op, "max"), u(op, "num") as f64 / u(op, "den") as f64);
                self.names(&e)
            }
            "mined" => {
                let t = self.tx(op);
                let r = match &t {
                    Transaction::ValueTransfer(x) => self.pool.vt_remove(x).map(Transaction::ValueTransfer),
                    Transaction::DataRequest(x) => self.pool.dr_remove(x).map(Transaction::DataRequest),
                    Transaction::Stake(x) => self.pool.st_remove(x).map(Transaction::Stake),
                    Transaction::Unstake(x) => self.pool.ut_remove(x).map(Transaction::Unstake),
                    _ => unreachable!(),
                };
                self.names(&r.into_iter().collect::<Vec<_>>())
            }
            "spent" => {
                self.pool.remove_inputs(&inputs(op, "ins"));
                json!([])
            }
            "invalid" => {
                let h = arr(op, "ids").iter().filter_map(|i| self.txs.get(&i.as_u64().unwrap())).map(|t| t.hash()).collect();
                match s(op, "k") {
                    "st" => self.pool.remove_invalid_stake_transactions(h),
                    _ => self.pool.remove_invalid_unstake_transactions(h),
                }
                json!([])
            }
            "clearkind" => {
                match s(op, "k") {
                    "st" => self.pool.clear_stake_transactions(),
                    _ => self.pool.clear_unstake_transactions(),
                }
                json!([])
            }
            "clear" => {
                self.pool.clear();
                json!([])
            }
            "unconfirmed" => {
                let t = self.tx(op);
                self.pool.insert_unconfirmed_transactions(t.hash());
                json!([])
            }
            "epoch" => {
                self.pool.update_unconfirmed_transactions();
                json!([])
            }
            "reorg" => {
                let e = self.pool.remove_unconfirmed_transactions();
                self.names(&e)
            }
            "dr" => {
                self.epoch += 1;
                let t = dr_tx(u(op, "dr"), u(op, "n"), u(op, "f"));
                self.drs.add_data_request(self.epoch, t, None).unwrap();
                // the request is known by the name commits and reveals use
                let h = dr_tx(u(op, "dr"), u(op, "n"), u(op, "f")).hash();
                let st = self.drs.data_request_pool.remove(&h).unwrap();
                self.drs.data_request_pool.insert(dr_hash(u(op, "dr")), st);
                json!([])
            }
            "commit" => {
                let proof = DataRequestEligibilityClaim { proof: vrf_of(u(op, "who")) };
                let body = CommitTransactionBody::new(dr_hash(u(op, "dr")), Hash::with_first_u32(u(op, "id") as u32), proof, inputs(op, "ins"), vec![], None);
                let t = Transaction::Commit(CommitTransaction::new(body, vec![sig(u(op, "who"))]));
                self.remember(u(op, "id"), t.clone());
                self.arrive(t)
            }
            "reveal" => {
                let who = key(u(op, "who")).pkh();
                let body = RevealTransactionBody::new(dr_hash(u(op, "dr")), vec![(u(op, "id") % 256) as u8, (u(op, "id") / 256) as u8], who);
                let t = Transaction::Reveal(RevealTransaction::new(body, vec![sig(u(op, "who"))]));
                self.remember(u(op, "id"), t.clone());
                self.arrive(t)
            }
            "revealmined" => match self.txs.get(&u(op, "id")) {
                None => json!([]),
                Some(t) => {
                    let h = t.hash();
                    let r = self.pool.remove_one_reveal(&dr_hash(u(op, "dr")), &key(u(op, "who")).pkh(), &h);
                    json!(r.iter().map(|r| self.ids[&r.hash()]).collect::<Vec<_>>())
                }
            },
            "finish" => {
                self.pool.clear_reveals_from_finished_dr(&dr_hash(u(op, "dr")));
                json!([])
            }
            "clearcommits" => {
                self.pool.clear_commits();
                json!([])
            }
            "minecommits" => {
                let (txs, fee, solved) = self.pool.remove_commits(&self.drs);
                let mut drs: Vec<Hash> = txs.iter().map(|c| c.body.dr_pointer).collect();
                let mut solved2 = solved.clone();
                drs.sort();
                drs.dedup();
                solved2.sort();
                // data requests that want no witnesses can be solved by no commits
                solved2.retain(|h| drs.contains(h) || self.drs.get_dr_output(h).unwrap().witnesses > 0);
                extra = json!(drs == solved2);
                json!([txs.iter().map(|c| self.ids[&c.hash()]).collect::<Vec<_>>(), fee])
            }
            _ => bad_op(op),
        };
        let p = &self.pool;
        let order = |v: Vec<Hash>| v.iter().map(|h| self.ids[h]).collect::<Vec<_>>();
        let (vt, dr): (Vec<_>, Vec<_>) = (order(p.vt_iter().map(|t| t.hash()).collect()), order(p.dr_iter().map(|t| t.hash()).collect()));
        let (st, ut): (Vec<_>, Vec<_>) = (order(p.st_iter().map(|t| t.hash()).collect()), order(p.ut_iter().map(|t| t.hash()).collect()));
        // every way to ask has the same answer
        let mut same = extra != json!(false);
        same &= (p.vt_len(), p.dr_len(), p.st_len(), p.ut_len()) == (vt.len(), dr.len(), st.len(), ut.len());
        let (mut co, mut re) = (vec![], vec![]);
        for (id, t) in &self.txs {
            let there = p.get(&t.hash());
            if let Some(x) = &there {
                same &= x == t;
            }
            let (listed, asked) = match t {
                Transaction::ValueTransfer(_) => (vt.contains(id), p.vt_contains(&t.hash())),
                Transaction::DataRequest(_) => (dr.contains(id), p.dr_contains(&t.hash())),
                Transaction::Stake(_) => (st.contains(id), p.st_contains(&t.hash())),
                Transaction::Unstake(_) => (ut.contains(id), p.ut_contains(&t.hash())),
                Transaction::Commit(_) => {
                    if there.is_some() {
                        co.push(*id);
                    }
                    (there.is_some(), p.contains(t).ok() == Some(true))
                }
                Transaction::Reveal(_) => {
                    if there.is_some() {
                        re.push(*id);
                    }
                    (there.is_some(), p.contains(t).ok() == Some(true))
                }
                _ => unreachable!(),
            };
            same &= listed == asked && listed == there.is_some();
        }
        let (reveals, fee) = p.get_reveals(&self.drs);
        let mut block_re: Vec<u64> = reveals.iter().map(|r| self.ids[&r.hash()]).collect();
        block_re.sort_unstable();
        json!({"ret": ret, "vt": vt, "dr": dr, "st": st, "ut": ut, "co": co, "re": re, "block_re": block_re, "re_fee": fee,
               "total": p.total_transactions_weight(), "empty": p.is_empty(), "same": same})
    }
}
