//! Blocks of transactions over a ledger of outputs and stakes: validated, and applied when valid.
use crate::{run::*, world::*};
use serde_json::{Value, json};
use std::collections::BTreeMap;
pub use witnet_config::defaults::PSEUDO_CONSENSUS_CONSTANTS_WIP0022_REWARD_COLLATERAL_RATIO as RATIO;
use witnet_data_structures::{
    chain::*,
    data_request::DataRequestPool,
    get_protocol_version,
    proto::versioning::{ProtocolVersion, VersionedHashable},
    staking::prelude::*,
    transaction::*,
    utxo_pool::*,
    wit::Wit,
};
use witnet_rad::reducers::RadonReducers;
use witnet_validations::validations::*;

pub fn rad_request(filters: Vec<RADFilter>) -> RADRequest {
    RADRequest {
        time_lock: 0,
        retrieve: vec![RADRetrieve {
            kind: RADType::HttpGet,
            url: "https://blockchain.info/q/latesthash".to_string(),
            script: vec![128],
            body: vec![],
            headers: vec![],
        }],
        aggregate: RADAggregate { filters: vec![], reducer: RadonReducers::Mode as u32 },
        tally: RADTally { filters, reducer: RadonReducers::Mode as u32 },
    }
}

pub struct Ledger {
    pub pool: UnspentOutputsPool,
    pub stakes: StakesTracker,
    pub ids: BTreeMap<u64, OutputPointer>,
    pub next: u64,
    pub number: u32,
}

impl Ledger {
    pub fn new(cfg: &Value) -> Self {
        let mut l = Ledger { pool: UnspentOutputsPool::default(), stakes: StakesTracker::default(), ids: BTreeMap::new(), next: 1, number: u(cfg, "bn") as u32 };
        for x in arr(cfg, "utxo") {
            let n = |i: usize| x[i].as_u64().unwrap();
            let ptr = OutputPointer { transaction_id: Hash::with_first_u32(0xffff_0000 + l.next as u32), output_index: 0 };
            let out = ValueTransferOutput { pkh: pkh(n(0)), value: amount(n(1)), time_lock: n(2) };
            l.pool.insert(ptr, out, n(3) as u32);
            l.name(ptr);
        }
        for x in arr(cfg, "stakes") {
            let n = |i: usize| x[i].as_u64().unwrap();
            let key = StakeKey { validator: pkh(n(0)), withdrawer: pkh(n(1)) };
            l.stakes.add_stake(key, Wit::from(amount(n(2))), n(3) as u32, true, Wit::from(1)).unwrap();
        }
        l
    }
    pub fn name(&mut self, ptr: OutputPointer) {
        self.ids.insert(self.next, ptr);
        self.next += 1;
    }
    pub fn names(&mut self, tx: Hash, outputs: usize) {
        for i in 0..outputs {
            self.name(OutputPointer { transaction_id: tx, output_index: i as u32 });
        }
    }
    pub fn pointer(&self, id: u64) -> OutputPointer {
        self.ids.get(&id).copied().unwrap_or(OutputPointer { transaction_id: Hash::with_first_u32(0xdead_0000 + id as u32), output_index: 0 })
    }
    pub fn inputs(&self, v: &Value) -> Vec<Input> {
        v.as_array().unwrap().iter().map(|x| Input::new(self.pointer(x[0].as_u64().unwrap()))).collect()
    }
    /// One signature for each input, and `xs` more or less
    pub fn signatures(&self, v: &Value, hash: Hash, xs: u64) -> Vec<KeyedSignature> {
        let mut r: Vec<_> = v.as_array().unwrap().iter().map(|x| signed(x[1].as_u64().unwrap(), hash, x[2] == 1)).collect();
        match xs {
            1 => r.push(signed(1, hash, true)),
            2 => {
                r.pop();
            }
            _ => {}
        }
        r
    }
    pub fn observe(&self) -> (Value, Value) {
        let mut outs: Vec<_> = self
            .pool
            .iter()
            .map(|(k, (v, b))| {
                let id = self.ids.iter().find(|(_, p)| **p == k).map_or(0, |x| *x.0);
                (id, json!([id, who(&v.pkh), units(v.value), v.time_lock, b]))
            })
            .collect();
        outs.sort_by_key(|x| x.0);
        let mut stakes: Vec<_> = self
            .stakes
            .query_stakes(QueryStakesKey::All)
            .unwrap_or_default()
            .into_iter()
            .map(|e| {
                let (v, w) = (who(&e.key.validator), who(&e.key.withdrawer));
                ((v, w), json!([v, w, units(e.value.coins.nanowits()), e.value.nonce]))
            })
            .collect();
        stakes.sort_by_key(|x| x.0);
        (outs.into_iter().map(|x| x.1).collect(), stakes.into_iter().map(|x| x.1).collect())
    }
}

pub fn outputs(v: &Value) -> Vec<ValueTransferOutput> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| ValueTransferOutput { pkh: pkh(x[0].as_u64().unwrap()), value: amount(x[1].as_u64().unwrap()), time_lock: x[2].as_u64().unwrap() })
        .collect()
}

pub fn vt(l: &Ledger, t: &Value) -> VTTransaction {
    let body = VTTransactionBody::new(l.inputs(&t["ins"]), outputs(&t["outs"]));
    let h = body.hash();
    VTTransaction::new(body, l.signatures(&t["ins"], h, u(t, "xs")))
}
pub fn dr(l: &Ledger, t: &Value, filters: Vec<RADFilter>) -> DRTransaction {
    let out = DataRequestOutput {
        data_request: rad_request(filters),
        witness_reward: amount(u(t, "r")),
        witnesses: u(t, "w") as u16,
        commit_and_reveal_fee: amount(u(t, "f")),
        min_consensus_percentage: u(t, "q") as u32,
        collateral: amount(u(t, "c")),
    };
    let body = DRTransactionBody::new(l.inputs(&t["ins"]), out, outputs(&t["outs"]));
    let h = body.hash();
    DRTransaction::new(body, l.signatures(&t["ins"], h, u(t, "xs")))
}
pub fn st(l: &Ledger, t: &Value) -> StakeTransaction {
    let (v, w) = (u(t, "v"), u(t, "wd"));
    let authorization = match u(t, "auth") {
        1 => signed(v, Hash::SHA256(pkh(w).as_secp256k1_msg()), true),
        // of somebody else
        2 => signed(w + 1, Hash::SHA256(pkh(w).as_secp256k1_msg()), true),
        _ => signed(v, Hash::SHA256(pkh(w).as_secp256k1_msg()), false),
    };
    let out = StakeOutput { authorization, key: StakeKey { validator: pkh(v), withdrawer: pkh(w) }, value: amount(u(t, "val")) };
    let body = StakeTransactionBody::new(l.inputs(&t["ins"]), out, outputs(&t["chg"]).into_iter().next());
    let h = body.hash();
    StakeTransaction::new(body, l.signatures(&t["ins"], h, u(t, "xs")))
}
pub fn ut(t: &Value) -> UnstakeTransaction {
    let withdrawal = ValueTransferOutput { pkh: pkh(u(t, "to")), value: amount(u(t, "val")), time_lock: u(t, "l") };
    let body = UnstakeTransactionBody::new(pkh(u(t, "v")), withdrawal, amount(u(t, "fee")), u(t, "n"));
    let h = body.hash();
    UnstakeTransaction::new(body, signed(u(t, "k"), h, u(t, "good") == 1))
}

/// Merkle roots of the block, one of them wrong when asked to
pub fn roots(txns: &BlockTransactions, version: ProtocolVersion, which: u64) -> BlockMerkleRoots {
    let mut roots = BlockMerkleRoots::from_transactions(txns, version);
    let wrong = Hash::with_first_u32(0xbad);
    match which {
        1 => roots.mint_hash = wrong,
        2 => roots.vt_hash_merkle_root = wrong,
        3 => roots.dr_hash_merkle_root = wrong,
        4 => roots.commit_hash_merkle_root = wrong,
        5 => roots.reveal_hash_merkle_root = wrong,
        6 => roots.tally_hash_merkle_root = wrong,
        7 => roots.stake_hash_merkle_root = wrong,
        8 => roots.unstake_hash_merkle_root = wrong,
        _ => {}
    }
    roots
}

pub struct BlocksSut {
    l: Ledger,
    cc: ConsensusConstants,
    ec: EpochConstants,
}

pub fn rules(cfg: &Value) -> (EpochConstants, ConsensusConstants) {
    let ec = versions(cfg);
    let mut cc = constants();
    cc.max_vt_weight = u(cfg, "maxvt") as u32;
    cc.max_dr_weight = u(cfg, "maxdr") as u32;
    cc.collateral_minimum = amount(u(cfg, "cmin"));
    cc.initial_block_reward = amount(u(cfg, "reward"));
    cc.halving_period = u(cfg, "halv") as u32;
    (ec, cc)
}

impl BlocksSut {
    pub fn new(cfg: &Value) -> Self {
        set_scale(UNIT);
        let (ec, cc) = rules(cfg);
        BlocksSut { l: Ledger::new(cfg), cc, ec }
    }
    fn obs(&self, ok: bool) -> Value {
        let (utxo, stakes) = self.l.observe();
        json!({"ok": ok, "utxo": utxo, "stakes": stakes})
    }
    fn block(&mut self, op: &Value) -> bool {
        let epoch = u(op, "ep") as u32;
        let genesis = s(op, "op") == "genesis";
        let version = get_protocol_version(Some(epoch));
        let list = |k: &str| op[k].as_array().cloned().unwrap_or_default();
        let (ids, next) = (self.l.ids.clone(), self.l.next);
        let ok = self.block_of(op, epoch, genesis, version, list);
        if !ok {
            self.l.ids = ids;
            self.l.next = next;
        }
        ok
    }
    fn block_of(&mut self, op: &Value, epoch: u32, genesis: bool, version: ProtocolVersion, list: impl Fn(&str) -> Vec<Value>) -> bool {
        let mint = MintTransaction::new(u(&op["mint"], "ep") as u32, outputs(&op["mint"]["outs"]));
        let mut txns = BlockTransactions { mint, ..BlockTransactions::default() };
        // later transactions may spend what earlier ones create
        for t in list("vts") {
            let x = vt(&self.l, &t);
            self.l.names(x.versioned_hash(version), x.body.outputs.len());
            txns.value_transfer_txns.push(x);
        }
        for t in list("drs") {
            let x = dr(&self.l, &t, vec![]);
            self.l.names(x.versioned_hash(version), x.body.outputs.len());
            txns.data_request_txns.push(x);
        }
        for t in list("sts") {
            let x = st(&self.l, &t);
            self.l.names(x.versioned_hash(version), usize::from(x.body.change.is_some()));
            txns.stake_txns.push(x);
        }
        for t in list("uts") {
            let x = ut(&t);
            self.l.names(x.versioned_hash(version), 1);
            txns.unstake_txns.push(x);
        }
        if !genesis {
            self.l.names(txns.mint.versioned_hash(version), txns.mint.outputs.len());
        }
        let roots = roots(&txns, version, u(op, "root"));
        let header = BlockHeader {
            beacon: CheckpointBeacon { checkpoint: epoch, hash_prev_block: Hash::with_first_u32(77) },
            merkle_roots: roots,
            ..BlockHeader::default()
        };
        let block = Block::new(header, KeyedSignature::default(), txns);
        let mut cc = self.cc.clone();
        if genesis {
            cc.genesis_hash = block.hash();
        }
        let mut to_verify = vec![];
        let r = validate_block_transactions(
            &self.l.pool,
            &mut DataRequestPool::new(3),
            &block,
            CheckpointVRF::default(),
            &mut to_verify,
            &ReputationEngine::new(1000),
            self.ec,
            self.l.number,
            &cc,
            &ConsensusConstantsWit2::default(),
            &wips(),
            None,
            &self.l.stakes,
        );
        let diff = match r {
            Ok(x) => x,
            Err(e) => {
                why(&e);
                return false;
            }
        };
        if !verified(to_verify) {
            return false;
        }
        diff.apply(&mut self.l.pool);
        let t = &block.txns;
        let min = ConsensusConstantsWit2::default().get_validator_min_stake_nanowits(epoch);
        if version >= ProtocolVersion::V1_8 {
            process_stake_transactions(&mut self.l.stakes, t.stake_txns.iter(), epoch, min).expect("stakes of a valid block");
        }
        if version >= ProtocolVersion::V2_0 {
            process_unstake_transactions(&mut self.l.stakes, t.unstake_txns.iter(), epoch, min).expect("unstakes of a valid block");
        }
        self.l.number += 1;
        true
    }
    fn pooled(&self, op: &Value) -> bool {
        let epoch = u(op, "ep") as u32;
        let t = &op["tx"];
        let tx = match s(op, "kind") {
            "vt" => Transaction::ValueTransfer(vt(&self.l, t)),
            "dr" => Transaction::DataRequest(dr(&self.l, t, vec![])),
            "st" => Transaction::Stake(st(&self.l, t)),
            "ut" => Transaction::Unstake(ut(t)),
            _ => bad_op(op),
        };
        let mut to_verify = vec![];
        validate_new_transaction(
            &tx,
            (&ReputationEngine::new(1000), &self.l.pool, &DataRequestPool::new(3)),
            CheckpointVRF::default(),
            epoch,
            self.ec,
            self.l.number,
            &mut to_verify,
            self.cc.collateral_minimum,
            1000,
            self.cc.max_vt_weight,
            self.cc.max_dr_weight,
            2000,
            RATIO,
            &wips(),
            10,
            &self.l.stakes,
            get_protocol_version(Some(epoch)),
            4,
            &ConsensusConstantsWit2::default(),
        )
        .map_err(|e| why(&e))
        .is_ok()
            && verified(to_verify)
    }
}

impl Sut for BlocksSut {
    fn step(&mut self, op: &Value) -> Value {
        let ok = match s(op, "op") {
            "cfg" => true,
            "block" | "genesis" => self.block(op),
            "pooled" => self.pooled(op),
            _ => bad_op(op),
        };
        self.obs(ok)
    }
}
