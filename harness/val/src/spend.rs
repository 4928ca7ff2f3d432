//! What a node owns and spends: transactions made of its outputs.
use crate::{consolidate, run::*, rounds::block_proof, world::*};
use serde_json::{Value, json};
use std::{collections::HashMap, sync::Arc};
use witnet_data_structures::{
    chain::*,
    data_request::DataRequestPool,
    error::TransactionError,
    fee::*,
    transaction::*,
    transaction_factory::*,
    utxo_pool::*,
};
use witnet_storage::backends::hashmap::Backend;

const BIG: u64 = 2_147_483_647;

#[derive(Clone)]
struct Made {
    tx: Transaction,
    ins: Vec<u64>,
    outs: Vec<ValueTransferOutput>,
}

pub struct SpendSut {
    unit: u64,
    patience: u64,
    pool: UnspentOutputsPool,
    own: OwnUnspentOutputsPool,
    made: Vec<Made>,
    ids: Vec<OutputPointer>,
    by: HashMap<OutputPointer, u64>,
    height: u32,
}

impl SpendSut {
    pub fn new(cfg: &Value) -> Self {
        let db = UtxoDbWrapStorage(Backend::default());
        let db: Arc<dyn UtxoDb + Send + Sync> = if b(cfg, "cached") { Arc::new(CacheUtxosByPkh::new(db).unwrap()) } else { Arc::new(db) };
        Self {
            unit: u(cfg, "unit"),
            patience: u(cfg, "patience"),
            pool: UnspentOutputsPool { diff: Diff::new(), db: Some(db) },
            own: Default::default(),
            made: vec![],
            ids: vec![],
            by: HashMap::new(),
            height: 0,
        }
    }
    fn up(&self, n: u64) -> u64 {
        if n == BIG { u64::MAX } else { n * self.unit }
    }
    fn down(&self, n: u64) -> u64 {
        if n == u64::MAX {
            return BIG;
        }
        assert_eq!(n % self.unit, 0, "not of whole units");
        n / self.unit
    }
    fn vto(&self, o: &Value) -> ValueTransferOutput {
        ValueTransferOutput { pkh: pkh(o[0].as_u64().unwrap()), value: self.up(o[1].as_u64().unwrap()), time_lock: o[2].as_u64().unwrap() }
    }
    fn shown(&self, o: &ValueTransferOutput) -> Value {
        json!([who(&o.pkh), self.down(o.value), o.time_lock])
    }
    fn id(&mut self, p: OutputPointer) -> u64 {
        self.ids.push(p);
        let n = self.ids.len() as u64;
        assert!(self.by.insert(p, n).is_none());
        n
    }
    fn seen(&self, mut o: Value) -> Value {
        let mut own: Vec<_> = self.own.iter().map(|(p, t)| (self.by[p], *t)).collect();
        own.sort_unstable();
        o["own"] = json!(own);
        o["purse"] = json!(self.down(self.own.get_balance(&self.pool)));
        let bal = |a: u64| match (get_total_balance(&self.pool, pkh(a), false), get_total_balance(&self.pool, pkh(a), true)) {
            (NodeBalance::One { total, confirmed: Some(c) }, NodeBalance::One { total: again, confirmed: None }) if again == total => json!([self.down(total), self.down(c)]),
            _ => json!("?"),
        };
        o["balance"] = json!([bal(1), bal(2)]);
        o
    }
    fn build(&mut self, op: &Value) -> Value {
        let fee = u(op, "fee");
        let fee = if b(op, "rel") { Fee::relative_from_float(fee as f64 / 4.0) } else { Fee::absolute_from_nanowits(self.up(fee)) };
        let from = match u(op, "from") {
            0 => None,
            n => Some(pkh(n)),
        };
        let by = match s(op, "by") {
            "big" => UtxoSelectionStrategy::BigFirst { from },
            "small" => UtxoSelectionStrategy::SmallFirst { from },
            _ => UtxoSelectionStrategy::Random { from },
        };
        let (t, max, dry) = (u(op, "t"), u(op, "max") as u32, b(op, "dry"));
        let me = pkh(1);
        let limit = op["limit"].as_i64().unwrap();
        let r: Result<Made, TransactionError> = match s(op, "kind") {
            "vt" => {
                let outs = arr(op, "outs").iter().map(|o| self.vto(o)).collect();
                build_vtt(outs, fee, &mut self.own, me, &self.pool, t, self.patience, &by, max, dry)
                    .map(|x| Made { ins: self.ins(&x.inputs), outs: x.outputs.clone(), tx: Transaction::ValueTransfer(VTTransaction::new(x, vec![])) })
            }
            "dr" => {
                let d = &op["dr"];
                let dr = DataRequestOutput {
                    witness_reward: self.up(u(d, "reward")),
                    commit_and_reveal_fee: self.up(u(d, "fee")),
                    witnesses: u(d, "w") as u16,
                    ..Default::default()
                };
                assert_eq!(u64::from(dr.data_request.weight()), u(d, "rad"));
                build_drt(dr, fee, &mut self.own, me, &self.pool, t, self.patience, max, dry)
                    .map(|x| Made { ins: self.ins(&x.inputs), outs: x.outputs.clone(), tx: Transaction::DataRequest(DRTransaction::new(x, vec![])) })
            }
            "st" => {
                let out = StakeOutput { value: self.up(u(op, "stake")), ..Default::default() };
                build_st(out, fee, &mut self.own, me, &self.pool, t, self.patience, &by, max, dry)
                    .map(|x| Made { ins: self.ins(&x.inputs), outs: x.change.clone().into_iter().collect(), tx: Transaction::Stake(StakeTransaction::new(x, vec![])) })
            }
            _ => {
                let Fee::Absolute(a) = fee else { panic!("relative collateral") };
                let can = check_commit_collateral(a.into_inner(), &self.own, me, &self.pool, t, limit as u32);
                if dry {
                    return json!({"res": "could", "can": can});
                }
                build_commit_collateral(a.into_inner(), &mut self.own, me, &self.pool, t, self.patience, limit as u32)
                    .map(|(i, outs)| Made { ins: self.ins(&i), outs, tx: Transaction::ValueTransfer(VTTransaction::default()) })
            }
        };
        match r {
            Ok(m) => {
                let o = json!({"res": "ok", "ins": m.ins, "outs": m.outs.iter().map(|o| self.shown(o)).collect::<Vec<_>>()});
                if !dry && s(op, "kind") != "co" {
                    self.made.push(m);
                }
                o
            }
            Err(TransactionError::ZeroAmount) => json!({"res": "zero"}),
            Err(TransactionError::NoMoney { total_balance, available_balance, transaction_value }) => {
                json!({"res": "poor", "total": self.down(total_balance), "available": self.down(available_balance), "needed": self.down(transaction_value)})
            }
            Err(TransactionError::FeeOverflow) => json!({"res": "beyond"}),
            Err(
                TransactionError::ValueTransferWeightLimitExceeded { weight, max_weight }
                | TransactionError::StakeWeightLimitExceeded { weight, max_weight }
                | TransactionError::DataRequestWeightLimitExceeded { weight, max_weight, .. },
            ) => {
                assert_eq!(max_weight, max);
                json!({"res": "heavy", "weight": weight})
            }
            Err(e) => json!({"res": format!("{e:?}")}),
        }
    }
    fn ins(&self, i: &[Input]) -> Vec<u64> {
        i.iter().map(|x| self.by[x.output_pointer()]).collect()
    }
    fn mine(&mut self, op: &Value) -> Value {
        let mut diff = UtxoDiff::new(&self.pool, self.height);
        let mut txns = BlockTransactions::default();
        let mut new = vec![];
        let mut n = 0;
        for k in arr(op, "ks") {
            let Some(m) = self.made.get((k.as_u64().unwrap() as usize).wrapping_sub(1)) else { continue };
            if !m.ins.iter().all(|i| diff.get(&self.ids[*i as usize - 1]).is_some()) {
                continue;
            }
            n += 1;
            m.ins.iter().for_each(|i| diff.remove_utxo(self.ids[*i as usize - 1]));
            let h = m.tx.hash();
            for (i, o) in m.outs.iter().enumerate() {
                let p = OutputPointer { transaction_id: h, output_index: i as u32 };
                diff.insert_utxo(p, o.clone(), None);
                new.push(p);
            }
            match &m.tx {
                Transaction::ValueTransfer(x) => txns.value_transfer_txns.push(x.clone()),
                Transaction::DataRequest(x) => txns.data_request_txns.push(x.clone()),
                Transaction::Stake(x) => txns.stake_txns.push(x.clone()),
                _ => unreachable!(),
            }
        }
        let outs: Vec<_> = arr(op, "pays").iter().map(|o| self.vto(o)).collect();
        let mint = MintTransaction::new(self.height, outs.clone());
        for (i, o) in outs.into_iter().enumerate() {
            let p = OutputPointer { transaction_id: mint.hash(), output_index: i as u32 };
            diff.insert_utxo(p, o, None);
            new.push(p);
        }
        txns.mint = mint;
        let diff = diff.take_diff();
        self.consolidate(txns, diff);
        new.into_iter().for_each(|p| {
            self.id(p);
        });
        json!({"res": "mined", "n": n})
    }
    fn consolidate(&mut self, txns: BlockTransactions, diff: Diff) {
        let header = BlockHeader { proof: block_proof(1), ..Default::default() };
        let block = Block::new(header, KeyedSignature::default(), txns);
        consolidate::update_pools(
            &block,
            &mut self.pool,
            &mut DataRequestPool::default(),
            &mut TransactionsPool::default(),
            diff,
            pkh(1),
            &mut self.own,
            &mut NodeStats::default(),
            StateMachine::Synced,
        );
        self.height += 1;
    }
}

impl Sut for SpendSut {
    fn step(&mut self, op: &Value) -> Value {
        let o = match s(op, "op") {
            "make" => self.build(op),
            "mine" => self.mine(op),
            "leak" => {
                let mut diff = UtxoDiff::new(&self.pool, self.height);
                let mut n = 0;
                for i in arr(op, "is") {
                    let Some(p) = self.ids.get((i.as_u64().unwrap() as usize).wrapping_sub(1)) else { continue };
                    if diff.get(p).is_some_and(|o| o.pkh != pkh(1)) {
                        diff.remove_utxo(*p);
                        n += 1;
                    }
                }
                let diff = diff.take_diff();
                self.consolidate(BlockTransactions::default(), diff);
                json!({"res": "left", "n": n})
            }
            "persist" => {
                self.pool.persist();
                json!({"res": "kept"})
            }
            "again" => {
                // as the node does for another master key
                self.own.drain();
                for (p, o) in self.pool.iter() {
                    if o.0.pkh == pkh(1) {
                        self.own.insert(p, 0);
                    }
                }
                json!({"res": "again"})
            }
            "look" => {
                let a = u(op, "a");
                let NodeBalance2::One { locked, unlocked, .. } = get_utxos_balance(&self.pool, pkh(a), u(op, "t")) else { panic!() };
                let info = get_utxo_info(if a == 1 && b(op, "own") { None } else { Some(pkh(a)) }, &self.own, &self.pool, 5, u(op, "limit") as u32);
                assert_eq!(info.collateral_min, 5);
                let mut list: Vec<_> = info.utxos.iter().map(|x| (self.by[&x.output_pointer], self.down(x.value), x.timelock, x.utxo_mature)).collect();
                list.sort_unstable();
                json!({"res": "seen", "locked": self.down(locked), "unlocked": self.down(unlocked), "info": list})
            }
            x => panic!("{x}"),
        };
        self.seen(o)
    }
}
