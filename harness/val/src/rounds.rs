//! Whole blocks, with the rounds of data requests, as a node validates and consolidates them.
use crate::{blocks::*, consolidate, mining, run::*, world::*};
use serde_json::{Value, json};
use std::{cell::RefCell, collections::BTreeMap, collections::HashMap};
use witnet_data_structures::{
    chain::{tapi::ActiveWips, *},
    data_request::{DataRequestPool, create_tally, data_request_has_too_many_witnesses},
    get_protocol_version,
    proto::versioning::{ProtocolVersion, VersionedHashable},
    radon_report::{RadonReport, ReportContext, Stage, TallyMetaData},
    staking::prelude::*,
    transaction::*,
    utxo_pool::*,
    vrf::*,
};
use witnet_rad::{
    error::RadError,
    filters::RadonFilters,
    types::{RadonTypes, array::RadonArray, integer::RadonInteger, string::RadonString},
};
use witnet_validations::{
    eligibility::current::{Eligibility, Eligible},
    validations::*,
};

thread_local! {
    static VRF: RefCell<VrfCtx> = RefCell::new(VrfCtx::secp256k1().unwrap());
    static PROOFS: RefCell<HashMap<u64, BlockEligibilityClaim>> = Default::default();
}

/// A block proof by that identity. It is not checked here.
pub fn block_proof(n: u64) -> BlockEligibilityClaim {
    PROOFS.with(|p| {
        p.borrow_mut()
            .entry(n)
            .or_insert_with(|| VRF.with(|v| BlockEligibilityClaim::create(&mut v.borrow_mut(), &secret(n).into(), CheckpointVRF::default()).unwrap()))
            .clone()
    })
}

fn error_of(n: u64) -> RadError {
    match n {
        200 => RadError::RetrieveTimeout,
        201 => RadError::HttpStatus { status_code: 404 },
        202 => RadError::HttpStatus { status_code: 500 },
        203 => RadError::SourceScriptNotCBOR,
        _ => RadError::MalformedReveal,
    }
}
pub fn value_of(n: u64) -> RadonTypes {
    match n {
        0..=99 => RadonTypes::Integer(RadonInteger::from(i128::from(n))),
        100..=199 => RadonTypes::String(RadonString::from(format!("it's {n}"))),
        _ => witnet_rad::types::RadonTypes::RadonError(error_of(n).try_into().unwrap()),
    }
}
pub fn bytes_of(n: u64) -> Vec<u8> {
    if n == 300 { vec![0xff, 0x00, 0x13] } else { Vec::<u8>::try_from(&RadonReport::from_result(Ok(value_of(n)), &ReportContext::<RadonTypes>::default())).unwrap() }
}

pub struct RoundsSut {
    l: Ledger,
    cc: ConsensusConstants,
    ec: EpochConstants,
    wips: ActiveWips,
    requests: DataRequestPool,
    ids: BTreeMap<u64, Hash>,
    next: u64,
    filters: Vec<RADFilter>,
    own: OwnUnspentOutputsPool,
    stats: NodeStats,
    txpool: TransactionsPool,
    extra: u16,
    el: Vec<&'static str>,
    pure: bool,
    values: HashMap<Hash, u64>,
    /// how transactions came to be
    made: HashMap<Hash, (Value, &'static str)>,
    added: Vec<Hash>,
    extra_obs: serde_json::Map<String, Value>,
    outside: Option<(u64, u8)>,
    epoch: u64,
}

impl RoundsSut {
    pub fn new(cfg: &Value) -> Self {
        // before the second version nothing depends on what a unit is
        set_scale(if u(cfg, "nano") == 1 { 1 } else { WIT });
        let (ec, mut cc) = rules(cfg);
        let extra = u(cfg, "extra") as u16;
        cc.extra_rounds = extra;
        cc.minimum_difficulty = u(cfg, "dif") as u32;
        let mut w = wips();
        if u(cfg, "wip") < 2 {
            w.active_wips.remove("WIP0023");
            w.active_wips.remove("WIP0027");
        }
        let l = Ledger::new(cfg);
        let mut own = OwnUnspentOutputsPool::default();
        l.pool.iter().filter(|x| x.1.0.pkh == pkh(1)).for_each(|x| {
            own.insert(x.0, 0);
        });
        RoundsSut {
            l,
            cc,
            ec,
            wips: w,
            requests: DataRequestPool::new(extra),
            ids: BTreeMap::new(),
            next: 1,
            filters: if u(cfg, "fl") == 1 { vec![RADFilter { op: RadonFilters::Mode as u32, args: vec![] }] } else { vec![] },
            own,
            stats: NodeStats::default(),
            txpool: TransactionsPool::default(),
            extra,
            el: vec![],
            pure: true,
            values: HashMap::new(),
            epoch: 0,
            made: HashMap::new(),
            added: vec![],
            extra_obs: Default::default(),
            outside: cfg.get("out").map(|x| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap() as u8)),
        }
    }

    fn request(&self, d: u64) -> Hash {
        self.ids.get(&d).copied().unwrap_or(Hash::with_first_u32(0xd00d_0000 + d as u32))
    }
    fn number(&self, h: &Hash) -> u64 {
        self.ids.iter().find(|x| x.1 == h).map_or(0, |x| *x.0)
    }

    fn reveal(&self, t: &Value) -> RevealTransaction {
        let k = u(t, "k");
        let body = RevealTransactionBody::new(self.request(u(t, "d")), bytes_of(u(t, "val")), pkh(k));
        let h = body.hash();
        let (sg, good) = (t["sg"].as_u64().unwrap_or(k), t["good"].as_u64().unwrap_or(1));
        RevealTransaction::new(body, vec![signed(sg, h, good == 1)])
    }

    /// The commit, and whether the draw favours it
    fn commit(&mut self, t: &Value, epoch: u32, vrf_input: CheckpointVRF) -> (CommitTransaction, bool) {
        let (d, k) = (u(t, "d"), u(t, "k"));
        let commitment = self.reveal(&json!({"d": d, "k": k, "val": t["val"]})).signatures[0].signature.hash();
        self.values.insert(commitment, u(t, "val"));
        let dr = self.request(d);
        let state = self.requests.data_request_state(&dr);
        let v2 = state.is_some_and(|s| get_protocol_version(Some(s.epoch)) >= ProtocolVersion::V2_0);
        let withdrawer = self.l.stakes.query_stakes(QueryStakesKey::Validator(pkh(k))).ok().and_then(|s| s.first().map(|s| s.key.withdrawer));
        let about = if u(t, "prf") == 2 { Hash::with_first_u32(1) } else { dr };
        let message = if v2 { VrfMessage::data_request_v2(vrf_input, about, withdrawer) } else { VrfMessage::data_request_v1(vrf_input, about) };
        let by = if u(t, "prf") == 3 { k + 100 } else { k };
        let (proof, hash) = VRF.with(|v| VrfProof::create(&mut v.borrow_mut(), &secret(by).into(), &message)).unwrap();
        let lucky = match (v2, state) {
            (true, Some(s)) => {
                // what is checked here is not the eligibility itself
                matches!(
                    self.l.stakes.witnessing_eligibility(pkh(k), epoch, s.data_request.witnesses, s.info.current_commit_round, self.extra + 1),
                    Ok((Eligible::Yes, target, _)) if hash <= target
                )
            }
            (false, Some(s)) => {
                let rep = ReputationEngine::new(1000);
                let n = s.data_request.witnesses + s.backup_witnesses();
                hash <= witnet_validations::eligibility::legacy::calculate_reppoe_threshold(&rep, &pkh(k), n, self.cc.minimum_difficulty, &self.wips).0
            }
            _ => true,
        };
        let outs = outputs(&t["outs"]);
        let body = CommitTransactionBody::new(dr, commitment, DataRequestEligibilityClaim { proof }, self.l.inputs(&t["ins"]), outs, None);
        let h = body.hash();
        (CommitTransaction::new(body, vec![signed(k, h, u(t, "good") == 1)]), lucky)
    }

    fn result(&self, dr: &Hash, res: &Value) -> Vec<u8> {
        let n = |i: usize| res[i].as_u64().unwrap();
        let reveals: Vec<RadonTypes> = self
            .requests
            .get_reveals(dr, &self.wips)
            .unwrap_or_default()
            .iter()
            .map(|r| RadonTypes::try_from(r.body.reveal.as_slice()).unwrap_or_else(|_| value_of(300)))
            .collect();
        let tie = |v: Vec<RadonTypes>, max_count: u16| RadError::ModeTie { values: RadonArray::from(v), max_count };
        let e = match res[0].as_str().unwrap() {
            "val" => return bytes_of(n(1)),
            "err" => Ok(value_of(n(1))),
            "noc" => Err(RadError::InsufficientCommits),
            "nor" => Err(RadError::NoReveals),
            "many" => Err(RadError::TooManyWitnesses),
            "insuff" => {
                let q = self.requests.data_request_state(dr).map_or(51, |s| s.data_request.min_consensus_percentage);
                Err(RadError::InsufficientConsensus { achieved: n(1) as f64 / n(2) as f64, required: f64::from(q) / 100.0 })
            }
            "tie" => Err(tie(reveals, 1)),
            "texec" => {
                // the values of the most frequent type, and how often the most frequent of them appear
                let count = |f: &dyn Fn(&RadonTypes) -> bool| reveals.iter().filter(|x| f(x)).count();
                let most = reveals.iter().max_by_key(|r| count(&|x| x.discriminant() == r.discriminant())).cloned();
                let same: Vec<_> = reveals.iter().filter(|x| most.as_ref().is_some_and(|m| m.discriminant() == x.discriminant())).cloned().collect();
                let max = same.iter().map(|r| same.iter().filter(|x| *x == r).count()).max().unwrap_or(0);
                Err(tie(same, max as u16))
            }
            x => panic!("result {x}"),
        };
        let mut report: RadonReport<RadonTypes> = RadonReport::from_result(e, &ReportContext::from_stage(Stage::Tally(TallyMetaData::default())));
        report.result.remove_message_from_error_unhandled_intercept();
        Vec::try_from(&report).unwrap_or_else(|_| tally_bytes_on_encode_error())
    }

    fn tally(&self, t: &Value) -> TallyTransaction {
        let dr = self.request(u(t, "d"));
        let people = |k: &str| arr(t, k).iter().map(|x| pkh(x.as_u64().unwrap())).collect::<Vec<_>>();
        TallyTransaction::new(dr, self.result(&dr, &t["res"]), outputs(&t["outs"]), people("ooc"), people("err"))
    }

    fn block(&mut self, op: &Value) -> bool {
        let (ids, next, rids, rnext) = (self.l.ids.clone(), self.l.next, self.ids.clone(), self.next);
        let ok = self.block_of(op);
        if !ok {
            (self.l.ids, self.l.next, self.ids, self.next) = (ids, next, rids, rnext);
        }
        ok
    }

    fn block_of(&mut self, op: &Value) -> bool {
        let epoch = u(op, "ep") as u32;
        let version = get_protocol_version(Some(epoch));
        let vrf_input = CheckpointVRF { checkpoint: epoch, hash_prev_vrf: Hash::with_first_u32(epoch) };
        let list = |k: &str| op[k].as_array().cloned().unwrap_or_default();
        let mut txns = BlockTransactions { mint: MintTransaction::new(u(&op["mint"], "ep") as u32, outputs(&op["mint"]["outs"])), ..BlockTransactions::default() };
        self.el.clear();
        for t in list("vts") {
            let x = vt(&self.l, &t);
            self.l.names(x.versioned_hash(version), x.body.outputs.len());
            txns.value_transfer_txns.push(x);
        }
        for t in list("cms") {
            let (x, lucky) = self.commit(&t, epoch, vrf_input);
            self.el.push(if lucky { "y" } else { "n" });
            self.l.names(x.versioned_hash(version), x.body.outputs.len());
            txns.commit_txns.push(x);
        }
        for t in list("rvs") {
            txns.reveal_txns.push(self.reveal(&t));
        }
        for t in list("drs") {
            let x = dr(&self.l, &t, self.filters.clone());
            let h = x.versioned_hash(version);
            self.l.names(h, x.body.outputs.len());
            self.ids.insert(self.next, h);
            self.next += 1;
            txns.data_request_txns.push(x);
        }
        for t in list("tls") {
            let x = self.tally(&t);
            self.l.names(x.versioned_hash(version), x.outputs.len());
            txns.tally_txns.push(x);
        }
        for t in list("sts") {
            let x = st(&self.l, &t);
            self.l.names(x.versioned_hash(version), usize::from(x.body.change.is_some()));
            txns.stake_txns.push(x);
        }
        for t in list("uts") {
            let x = ut(&t);
            self.l.names(x.versioned_hash(version), 1);
            txns.unstake_txns.push(x);
        }
        self.l.names(txns.mint.versioned_hash(version), txns.mint.outputs.len());
        let header = BlockHeader {
            beacon: CheckpointBeacon { checkpoint: epoch, hash_prev_block: Hash::with_first_u32(77) },
            merkle_roots: roots(&txns, version, u(op, "root")),
            proof: block_proof(u(op, "miner")),
            ..BlockHeader::default()
        };
        let block = Block::new(header, KeyedSignature::default(), txns);
        self.apply(block, vrf_input, op.get("keep").is_some())
    }

    /// A transaction offered to the pool of the node
    fn add(&mut self, op: &Value) -> bool {
        let (epoch, t) = (u(op, "ep") as u32, &op["tx"]);
        let version = get_protocol_version(Some(epoch));
        let vrf_input = CheckpointVRF { checkpoint: epoch, hash_prev_vrf: Hash::with_first_u32(epoch) };
        self.el.clear();
        let (tx, kind) = match s(op, "kind") {
            "vts" => (Transaction::ValueTransfer(vt(&self.l, t)), "vts"),
            "drs" => (Transaction::DataRequest(dr(&self.l, t, self.filters.clone())), "drs"),
            "sts" => (Transaction::Stake(st(&self.l, t)), "sts"),
            "uts" => (Transaction::Unstake(ut(t)), "uts"),
            "rvs" => (Transaction::Reveal(self.reveal(t)), "rvs"),
            "cms" => {
                let (x, lucky) = self.commit(t, epoch, vrf_input);
                self.el.push(if lucky { "y" } else { "n" });
                (Transaction::Commit(x), "cms")
            }
            _ => bad_op(op),
        };
        // as the node does
        let of = match &tx {
            Transaction::Commit(c) => self.requests.data_request_state(&c.body.dr_pointer).map_or(version, |s| ProtocolVersion::from_epoch(s.epoch)),
            _ => version,
        };
        let mut to_verify = vec![];
        let cc2 = ConsensusConstantsWit2::default();
        let fee = validate_new_transaction(
            &tx,
            (&ReputationEngine::new(1000), &self.l.pool, &self.requests),
            vrf_input,
            epoch,
            self.ec,
            self.l.number,
            &mut to_verify,
            self.cc.collateral_minimum,
            cc2.get_collateral_age(&self.wips),
            self.cc.max_vt_weight,
            self.cc.max_dr_weight,
            self.cc.minimum_difficulty,
            RATIO,
            &self.wips,
            self.cc.superblock_period,
            &self.l.stakes,
            of,
            self.extra + 1,
            &cc2,
        )
        .map_err(|e| why(&e));
        let Some(fee) = fee.ok().filter(|_| verified(to_verify)) else { return false };
        let h = tx.hash();
        if let Ok(false) = self.txpool.contains(&tx) {
            self.made.insert(h, (t.clone(), kind));
            self.added.push(h);
            let _ = self.txpool.insert(tx, fee);
        }
        true
    }

    /// The tallies of a miner (ChainManager::create_tally_transactions)
    fn tallies(&self, epoch: u32) -> Vec<TallyTransaction> {
        let validators = self.l.stakes.validator_count();
        self.requests
            .get_all_reveals(&self.wips, Some(validators), Some(epoch))
            .into_iter()
            .map(|(dr, reveals)| {
                let state = &self.requests.data_request_pool[&dr];
                let reports = witnet_rad::types::serial_iter_decode(
                    &mut reveals.iter().map(|r| (r.body.reveal.as_slice(), r)),
                    |_: RadError, _: &[u8], _: &RevealTransaction| Some(RadonReport::from_result(Err(RadError::MalformedReveal), &ReportContext::default())),
                    &self.wips,
                );
                let committers: std::collections::HashSet<_> = state.info.commits.keys().copied().collect();
                let result = run_tally(
                    reports,
                    &state.data_request.data_request.tally,
                    f64::from(state.data_request.min_consensus_percentage) / 100.0,
                    committers.len(),
                    &self.wips,
                    data_request_has_too_many_witnesses(&state.data_request, validators, Some(state.epoch)),
                );
                create_tally(
                    dr,
                    &state.data_request,
                    state.pkh,
                    &result,
                    reveals.iter().map(|r| r.body.pkh).collect(),
                    committers,
                    self.cc.collateral_minimum,
                    tally_bytes_on_encode_error(),
                    &self.wips,
                    get_protocol_version(Some(state.epoch)),
                )
            })
            .collect()
    }

    fn mine(&mut self, op: &Value) -> bool {
        let (epoch, miner) = (u(op, "ep") as u32, u(op, "miner"));
        let version = get_protocol_version(Some(epoch));
        let vrf_input = CheckpointVRF { checkpoint: epoch, hash_prev_vrf: Hash::with_first_u32(epoch) };
        let beacon = CheckpointBeacon { checkpoint: epoch, hash_prev_block: Hash::with_first_u32(77) };
        let tallies = self.tallies(epoch);
        let pool: Vec<Value> = self.added.iter().filter(|h| self.txpool.get(h).is_some()).map(|h| json!({"kind": self.made[h].1, "t": self.made[h].0})).collect();
        let before = self.requests.clone();
        let cc2 = ConsensusConstantsWit2::default();
        let (header, txns) = mining::build_block(
            (&mut self.txpool, &self.l.pool, &mut self.requests),
            self.cc.max_vt_weight,
            self.cc.max_dr_weight,
            beacon,
            block_proof(miner),
            &tallies,
            pkh(miner),
            self.ec,
            self.l.number,
            self.cc.collateral_minimum,
            None,
            self.outside.map(|x| pkh(x.0)),
            self.outside.map_or(0, |x| x.1),
            self.cc.initial_block_reward,
            self.cc.checkpoint_zero_timestamp,
            self.cc.halving_period,
            0,
            &self.wips,
            Some(self.l.stakes.validator_count()),
            &self.l.stakes,
            &cc2,
        );
        let crowd = txns.data_request_txns.iter().any(|t| data_request_has_too_many(&t.body.dr_output, &self.l.stakes, epoch));
        if !crowd {
            self.pure &= self.requests.data_request_pool == before.data_request_pool;
        }
        // what is left behind by building it is recorded in known_findings.txt
        if op["keep"] != json!(1) {
            self.requests = before;
        }
        let taken = op["take"] == json!(1);
        let (ids, next, rids, rnext) = (self.l.ids.clone(), self.l.next, self.ids.clone(), self.next);
        let blk = self.abstracted(&header, &txns, op, version);
        let el = vec!["y"; txns.commit_txns.len()];
        let block = Block::new(header, KeyedSignature::default(), txns);
        let (l, requests, txpool, own) = (self.l.pool.clone(), self.requests.clone(), self.txpool.clone(), self.own.clone());
        let (stakes, number) = (self.l.stakes.clone(), self.l.number);
        let ok = self.apply(block, vrf_input, false);
        if !taken {
            // another block wins, or none
            (self.l.pool, self.requests, self.txpool, self.own) = (l, requests, txpool, own);
            (self.l.stakes, self.l.number) = (stakes, number);
        }
        if !ok || !taken {
            (self.l.ids, self.l.next, self.ids, self.next) = (ids, next, rids, rnext);
        }
        self.el = el;
        self.extra_obs.insert("blk".into(), blk);
        self.extra_obs.insert("pool".into(), json!(pool));
        ok
    }

    fn abstracted(&mut self, header: &BlockHeader, txns: &BlockTransactions, op: &Value, version: ProtocolVersion) -> Value {
        let made = |h: Hash| self.made.get(&h).map_or(json!(0), |x| x.0.clone());
        let outs = |o: &[ValueTransferOutput]| o.iter().map(|o| json!([who(&o.pkh), units(o.value), o.time_lock])).collect::<Vec<_>>();
        let vts: Vec<_> = txns.value_transfer_txns.iter().map(|t| made(t.hash())).collect();
        let cms: Vec<_> = txns.commit_txns.iter().map(|t| made(t.hash())).collect();
        let rvs: Vec<_> = txns.reveal_txns.iter().map(|t| made(t.hash())).collect();
        let drs: Vec<_> = txns.data_request_txns.iter().map(|t| made(t.hash())).collect();
        let sts: Vec<_> = txns.stake_txns.iter().map(|t| made(t.hash())).collect();
        let uts: Vec<_> = txns.unstake_txns.iter().map(|t| made(t.hash())).collect();
        // outputs and requests are numbered as they come
        for t in &txns.value_transfer_txns {
            self.l.names(t.versioned_hash(version), t.body.outputs.len());
        }
        for t in &txns.commit_txns {
            self.l.names(t.versioned_hash(version), t.body.outputs.len());
        }
        for t in &txns.data_request_txns {
            let h = t.versioned_hash(version);
            self.l.names(h, t.body.outputs.len());
            self.ids.insert(self.next, h);
            self.next += 1;
        }
        let tls: Vec<_> = txns
            .tally_txns
            .iter()
            .map(|t| {
                let people = |p: &[PublicKeyHash]| p.iter().map(who).collect::<Vec<_>>();
                json!({"d": self.number(&t.dr_pointer), "res": self.meaning(&t.dr_pointer, &t.tally), "outs": outs(&t.outputs), "ooc": people(&t.out_of_consensus), "err": people(&t.error_committers)})
            })
            .collect();
        for t in &txns.tally_txns {
            self.l.names(t.versioned_hash(version), t.outputs.len());
        }
        for t in &txns.stake_txns {
            self.l.names(t.versioned_hash(version), usize::from(t.body.change.is_some()));
        }
        for t in &txns.unstake_txns {
            self.l.names(t.versioned_hash(version), 1);
        }
        self.l.names(txns.mint.versioned_hash(version), txns.mint.outputs.len());
        let root = u64::from(header.merkle_roots != roots(txns, version, 0));
        json!({"ep": header.beacon.checkpoint, "miner": op["miner"], "vts": vts, "cms": cms, "rvs": rvs, "drs": drs, "tls": tls, "sts": sts, "uts": uts, "root": root,
               "mint": {"ep": txns.mint.epoch, "outs": outs(&txns.mint.outputs)}})
    }

    /// What the bytes of a tally say
    fn meaning(&self, dr: &Hash, tally: &[u8]) -> Value {
        let mut all: Vec<Value> = ["noc", "nor", "many", "texec", "tie"].iter().map(|x| json!([x])).collect();
        all.extend((0..=110u64).map(|v| json!(["val", v])));
        all.extend([200, 201, 202, 203, 300].iter().map(|v| json!(["err", v])));
        for d in 1..=12u64 {
            all.extend((0..=d).map(|n| json!(["insuff", n, d])));
        }
        let reveals = self.requests.data_request_state(dr).map_or(0, |s| s.info.reveals.len());
        all.into_iter().find(|x| (x[0] != "texec" || reveals > 0) && self.result(dr, x) == tally).unwrap_or(json!(["what"]))
    }

    fn apply(&mut self, block: Block, vrf_input: CheckpointVRF, keep: bool) -> bool {
        let epoch = block.block_header.beacon.checkpoint;
        let before = self.requests.clone();
        let mut to_verify = vec![];
        let rep = ReputationEngine::new(1000);
        let cc2 = ConsensusConstantsWit2::default();
        let r = validate_block_transactions(
            &self.l.pool,
            &mut self.requests,
            &block,
            vrf_input,
            &mut to_verify,
            &rep,
            self.ec,
            self.l.number,
            &self.cc,
            &cc2,
            &self.wips,
            None,
            &self.l.stakes,
        )
        .map_err(|e| why(&e));
        let diff = r.ok().filter(|_| verified(to_verify));
        let many = block.txns.data_request_txns.iter().any(|t| data_request_has_too_many(&t.body.dr_output, &self.l.stakes, epoch));
        if !many {
            // validation is not to change anything
            self.pure &= self.requests.data_request_pool == before.data_request_pool;
        }
        let Some(diff) = diff else {
            if !keep {
                // what is left behind by a refused block is recorded in known_findings.txt
                self.requests = before;
            }
            return false;
        };
        let validators = self.l.stakes.validator_count();
        consolidate::process_wit2_stakes_changes(
            &block,
            &cc2,
            &self.requests,
            &mut self.l.stakes,
            self.ec,
            &UtxoDiff::new(&self.l.pool, epoch),
        );
        consolidate::update_pools(
            &block,
            &mut self.l.pool,
            &mut self.requests,
            &mut self.txpool,
            diff,
            pkh(1),
            &mut self.own,
            &mut self.stats,
            StateMachine::Synced,
        );
        let t = &block.txns;
        let min = cc2.get_validator_min_stake_nanowits(epoch);
        if !t.stake_txns.is_empty() {
            let _ = process_stake_transactions(&mut self.l.stakes, t.stake_txns.iter(), epoch, min);
        }
        if !t.unstake_txns.is_empty() {
            let _ = process_unstake_transactions(&mut self.l.stakes, t.unstake_txns.iter(), epoch, 0);
        }
        self.l.number += 1;
        self.requests.update_data_request_stages(Some(validators), Some(epoch));
        true
    }

    fn obs(&self, ok: Value) -> Value {
        let (utxo, _) = self.l.observe();
        let mut stakes: Vec<_> = self
            .l
            .stakes
            .query_stakes(QueryStakesKey::All)
            .unwrap_or_default()
            .into_iter()
            .map(|e| {
                let (v, w) = (who(&e.key.validator), who(&e.key.withdrawer));
                let at = |c| e.value.epochs.get(c);
                ((v, w), json!([v, w, units(e.value.coins.nanowits()), e.value.nonce, at(Capability::Mining), at(Capability::Witnessing)]))
            })
            .collect();
        stakes.sort_by_key(|x| x.0);
        let stakes: Vec<_> = stakes.into_iter().map(|x| x.1).collect();
        // what was committed is known by its hash only
        let value = |h: &Hash| self.values.get(h);
        let mut drs: Vec<_> = self
            .requests
            .data_request_pool
            .iter()
            .map(|(h, s)| {
                let d = self.number(h);
                let stage = match s.stage {
                    DataRequestStage::COMMIT => "commit",
                    DataRequestStage::REVEAL => "reveal",
                    DataRequestStage::TALLY => "tally",
                };
                let mut cms: Vec<_> = s.info.commits.iter().map(|(p, c)| (who(p), value(&c.body.commitment))).collect();
                cms.sort();
                let mut rvs: Vec<_> = s
                    .info
                    .reveals
                    .iter()
                    .map(|(p, r)| (who(p), (0..=300u64).find(|v| (*v < 10 || (100..105).contains(v) || *v >= 200 && *v < 204 || *v == 300) && bytes_of(*v) == r.body.reveal)))
                    .collect();
                rvs.sort();
                (d, json!([d, who(&s.pkh), stage, s.info.current_commit_round, s.info.current_reveal_round, cms, rvs]))
            })
            .collect();
        drs.sort_by_key(|x| x.0);
        let drs: Vec<_> = drs.into_iter().map(|x| x.1).collect();
        let mut own: Vec<u64> = self.own.iter().map(|(p, _)| self.l.ids.iter().find(|x| x.1 == p).map_or(0, |x| *x.0)).collect();
        own.sort();
        let mut o = json!({"ok": ok, "utxo": utxo, "stakes": stakes, "drs": drs, "own": own, "el": self.el, "pure": self.pure});
        for (k, v) in &self.extra_obs {
            o[k] = v.clone();
        }
        o
    }
}

fn data_request_has_too_many(dro: &DataRequestOutput, stakes: &StakesTracker, epoch: u32) -> bool {
    witnet_data_structures::data_request::data_request_has_too_many_witnesses(dro, stakes.validator_count(), Some(epoch))
}

impl Sut for RoundsSut {
    fn step(&mut self, op: &Value) -> Value {
        self.extra_obs.clear();
        if self.epoch != op["ep"].as_u64().unwrap_or(0) {
            // as the node does: commits are for one epoch
            self.txpool.clear_commits();
            self.epoch = op["ep"].as_u64().unwrap_or(0);
        }
        let ok = match s(op, "op") {
            "cfg" => json!(true),
            "block" | "add" | "mine" => match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match s(op, "op") {
                "block" => self.block(op),
                "add" => self.add(op),
                _ => self.mine(op),
            })) {
                Ok(x) => json!(x),
                Err(e) => {
                    why(&panic_msg(e));
                    json!("panic")
                }
            },
            _ => bad_op(op),
        };
        self.obs(ok)
    }
}
