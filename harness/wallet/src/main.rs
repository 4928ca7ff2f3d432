//! The wallet's repository and what it stands on, without the actors that serve it.
#![allow(dead_code, unused_imports)]
#[path = "../../common/run.rs"]
mod run;
#[path = "/repo/wallet/src/account.rs"]
mod account;
#[path = "/repo/wallet/src/constants.rs"]
mod constants;
#[path = "/repo/wallet/src/crypto.rs"]
mod crypto;
#[path = "/repo/wallet/src/db/mod.rs"]
mod db;
#[path = "/repo/wallet/src/model.rs"]
mod model;
#[path = "/repo/wallet/src/params.rs"]
mod params;
#[path = "/repo/wallet/src/repository/mod.rs"]
mod repository;
#[path = "/repo/wallet/src/types.rs"]
mod types;
mod actors {
    pub mod app {
        pub struct NodeClient;
        #[derive(Clone, Debug)]
        pub struct VttOutputParams {
            pub address: String,
            pub amount: u64,
            pub time_lock: Option<u64>,
        }
        #[derive(Debug)]
        pub struct Error;
        pub mod error {
            pub fn internal_error<T>(_: T) -> super::Error {
                super::Error
            }
        }
    }
}
use actors::app;

use db::Database as _;
use run::{Sut, arr, b, bad_op, s, u};
use serde_json::{Value, json};
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, OnceLock};
use witnet_data_structures::chain::*;
use witnet_data_structures::fee::{AbsoluteFee, Fee};
use witnet_data_structures::proto::versioning::{ProtocolInfo, ProtocolVersion, VersionedHashable};
use witnet_data_structures::staking::prelude::StakeKey;
use witnet_data_structures::transaction::*;
use witnet_data_structures::utxo_pool::UtxoSelectionStrategy;
use witnet_data_structures::wit::Wit;
use witnet_crypto::hash::calculate_sha256;

const MANY: u32 = 24;
struct World {
    account: types::Account,
    master: witnet_crypto::key::ExtendedSK,
    pkh: HashMap<String, PublicKeyHash>,
    name: HashMap<PublicKeyHash, String>,
}
/// One seed, its account and the addresses of it, named E0, E1.. and I0, I1..; F0, F1.. are those of others
fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let words = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about";
        let mnemonic = witnet_crypto::mnemonic::Mnemonic::from_phrase_ref(words).unwrap();
        let master = crypto::gen_master_key("", b"Bitcoin seed", &types::SeedSource::Mnemonics(mnemonic)).unwrap();
        let account = account::gen_account(0, &master).unwrap();
        let mut pkh = HashMap::new();
        for (chain, key) in [("E", &account.external), ("I", &account.internal)] {
            for i in 0..MANY {
                let sk = key.derive(&witnet_crypto::key::KeyPath::default().index(i)).unwrap();
                let pk = witnet_crypto::key::ExtendedPK::from_secret_key(&sk).key;
                pkh.insert(format!("{chain}{i}"), witnet_data_structures::chain::PublicKey::from(pk).pkh());
            }
        }
        for i in 0..10u8 {
            pkh.insert(format!("F{i}"), PublicKeyHash::from_bytes(&[i + 1; 20]).unwrap());
        }
        let name = pkh.iter().map(|(a, b)| (*b, a.clone())).collect();
        World { account, master, pkh, name }
    })
}
fn addr(v: &Value) -> PublicKeyHash {
    world().pkh[v.as_str().unwrap()]
}
fn who(p: &PublicKeyHash) -> String {
    world().name.get(p).cloned().unwrap_or_else(|| "?".into())
}
fn hash_of(label: &str) -> Hash {
    Hash::from(calculate_sha256(label.as_bytes()))
}
const FAR: u64 = 4_102_444_800;
/// the last of the numbers of the script stands for a day that is far away
fn lock(v: &Value) -> u64 {
    let n = v.as_u64().unwrap();
    if n == 2_147_483_647 { FAR } else { n }
}
fn unlock(n: u64) -> u64 {
    if n == FAR { 2_147_483_647 } else { n }
}
fn vto(v: &Value) -> ValueTransferOutput {
    ValueTransferOutput { pkh: addr(&v[0]), value: v[1].as_u64().unwrap(), time_lock: lock(&v[2]) }
}

type Db = db::EncryptedDb;
struct WalletSut {
    store: Arc<rocksdb::DB>,
    params: params::Params,
    version: ProtocolVersion,
    wallet: repository::Wallet<Db>,
    hashes: HashMap<String, Hash>,
    labels: HashMap<String, String>,
    page: u32,
    made: HashMap<String, (Transaction, Option<model::TransactionMetadata>)>,
}
fn open(store: &Arc<rocksdb::DB>) -> Db {
    db::EncryptedDb::new(store.clone(), b"w".to_vec(), types::Secret::new(vec![7u8; 32]), vec![9u8; 16])
}

impl WalletSut {
    fn new(cfg: &Value) -> Self {
        rocksdb::fail_in(0);
        let w = world();
        let mut info = ProtocolInfo::default();
        let version = if b(cfg, "v2") { ProtocolVersion::V2_0 } else { ProtocolVersion::V1_7 };
        if b(cfg, "v2") {
            info.all_versions.register(0, ProtocolVersion::V2_0);
            info.current_version = ProtocolVersion::V2_0;
        }
        let params = params::Params {
            testnet: false,
            seed_password: "".into(),
            master_key_salt: b"Bitcoin seed".to_vec(),
            id_hash_iterations: 1,
            id_hash_function: witnet_crypto::hash::HashFunction::Sha256,
            db_hash_iterations: 1,
            db_iv_length: 16,
            db_salt_length: 32,
            epoch_constants: EpochConstants { checkpoint_zero_timestamp: 100, checkpoints_period: 10, ..EpochConstants::default() },
            node_sync_batch_size: 100,
            genesis_hash: self::hash_of("b0"),
            genesis_prev_hash: hash_of("g"),
            sync_address_batch_length: u(cfg, "batch") as u16,
            max_vt_weight: 20_000,
            max_dr_weight: 80_000,
            consensus_constants: consensus(),
            use_unconfirmed_utxos: b(cfg, "unc"),
            pending_transactions_timeout_seconds: u(cfg, "patience"),
            witnessing: Default::default(),
            protocol_info: info,
        };
        let store = Arc::new(rocksdb::DB::open_default("wallet").unwrap());
        let db = open(&store);
        let birth = CheckpointBeacon { checkpoint: 0, hash_prev_block: params.genesis_prev_hash };
        repository::Wallets::new(open(&store))
            .create(&db, types::CreateWalletData { iv: vec![9u8; 16], salt: vec![1u8; 32], id: "w", name: None, description: None, account: &w.account, master_key: Some(w.master.clone()), birth_date: birth })
            .unwrap();
        let wallet = repository::Wallet::unlock("w", types::SessionId::from("s".to_string()), db, params.clone()).unwrap();
        let mut labels = HashMap::new();
        labels.insert(hash_of("g").to_string(), "g".to_string());
        WalletSut { store, params, version, wallet, hashes: HashMap::new(), labels, page: u(cfg, "page") as u32, made: HashMap::new() }
    }
    fn hash(&self, label: &str) -> Hash {
        self.hashes.get(label).copied().unwrap_or_else(|| hash_of(label))
    }
    fn block(&mut self, label: &str) -> Hash {
        let h = hash_of(label);
        self.labels.insert(h.to_string(), label.to_string());
        h
    }
    fn label(&self, hash: &str) -> String {
        self.labels.get(hash).cloned().unwrap_or_else(|| "?".into())
    }
    fn know(&mut self, label: &str, tx: &Transaction) {
        let h = tx.versioned_hash(self.version);
        self.hashes.insert(label.to_string(), h);
        self.labels.insert(h.to_string(), label.to_string());
    }
    fn outptr(&self, v: &Value) -> OutputPointer {
        OutputPointer { transaction_id: self.hash(v[0].as_str().unwrap()), output_index: v[1].as_u64().unwrap() as u32 }
    }
    fn tx(&mut self, v: &Value) -> model::ExtendedTransaction {
        let k = s(v, "k");
        let ins: Vec<Input> = arr(v, "ins").iter().map(|i| Input::new(self.outptr(i))).collect();
        let outs: Vec<ValueTransferOutput> = arr(v, "outs").iter().map(vto).collect();
        let mut metadata = Some(model::TransactionMetadata::InputValues(
            arr(v, "meta").iter().map(|n| ValueTransferOutput { value: n.as_u64().unwrap(), ..Default::default() }).collect(),
        ));
        let n = u(v, "n");
        let transaction = match k {
            "vt" => Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(ins, outs), vec![])),
            "dr" => Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(ins, request(n, 0), outs), vec![])),
            "commit" => Transaction::Commit(CommitTransaction::new(
                CommitTransactionBody::new(hash_of("dr"), hash_of(&n.to_string()), Default::default(), ins, outs, Default::default()),
                vec![],
            )),
            "mint" => Transaction::Mint(MintTransaction::new(n as u32, outs)),
            "stake" => {
                let st = arr(v, "stk");
                let key = StakeKey { validator: addr(&st[0]), withdrawer: addr(&st[1]) };
                Transaction::Stake(StakeTransaction::new(
                    StakeTransactionBody::new(ins, StakeOutput { value: st[2].as_u64().unwrap(), key, authorization: KeyedSignature::default() }, outs.first().cloned()),
                    vec![],
                ))
            }
            "unstake" => Transaction::Unstake(UnstakeTransaction::new(
                UnstakeTransactionBody::new(addr(&arr(v, "stk")[0]), outs[0].clone(), arr(v, "stk")[2].as_u64().unwrap(), n),
                Default::default(),
            )),
            "tally" => {
                let cbor = |n: &Value| vec![n.as_u64().unwrap() as u8];
                let mut report = DataRequestInfo::default();
                for r in arr(v, "rev") {
                    let pkh = addr(&r[0]);
                    report.reveals.insert(pkh, RevealTransaction::new(RevealTransactionBody::new(hash_of("dr"), cbor(&r[1]), pkh), vec![]));
                }
                metadata = Some(model::TransactionMetadata::Tally(Box::new(report)));
                let mut t = TallyTransaction::new(self.hash(s(v, "dr")), cbor(&v["res"]), outs, vec![], vec![]);
                t.out_of_consensus = arr(v, "liars").iter().map(addr).collect();
                Transaction::Tally(t)
            }
            _ => bad_op(v),
        };
        self.know(s(v, "t"), &transaction);
        model::ExtendedTransaction { transaction, metadata }
    }
    /// a transaction described, or one that was made here before, if it was
    fn given(&mut self, v: &Value) -> Option<model::ExtendedTransaction> {
        match v.get("made") {
            Some(t) => self.made.get(t.as_str().unwrap()).map(|(t, m)| model::ExtendedTransaction { transaction: t.clone(), metadata: m.clone() }),
            None => Some(self.tx(v)),
        }
    }
    fn ptr(&self, text: &str) -> Value {
        let (h, i) = text.rsplit_once(':').unwrap_or((text, "-1"));
        json!([self.label(h), i.parse::<i64>().unwrap()])
    }
    fn movement(&self, m: &model::BalanceMovement) -> Value {
        let kind = |outs: &[model::Output]| -> Vec<Value> {
            outs.iter().map(|o| json!([PublicKeyHash::from_hex(&o.address).map(|p| who(&p)).or_else(|_| PublicKeyHash::from_bech32(Environment::Mainnet, &o.address).map(|p| who(&p))).unwrap_or_else(|_| "?".into()),
                o.value, unlock(o.time_lock), match o.output_type { model::OutputType::External => "E", model::OutputType::Internal => "I", model::OutputType::Other => "F" }])).collect()
        };
        let ins = |ins: &[model::Input]| -> Vec<u64> { ins.iter().map(|i| i.value).collect() };
        let tally = |t: &model::TallyReport| {
            // a number, or none
            let n = |x: &str| x.chars().filter(char::is_ascii_digit).collect::<String>().parse::<i64>().ok().filter(|_| x.contains("Integer")).unwrap_or(-1);
            let mut r: Vec<(i64, bool)> = t.reveals.iter().map(|r| (n(&r.value), r.in_consensus)).collect();
            r.sort();
            json!([n(&t.result), r])
        };
        use model::TransactionData as T;
        let (k, i, o, t) = match &m.transaction.data {
            T::ValueTransfer(d) => ("vt", ins(&d.inputs), kind(&d.outputs), json!([])),
            T::Commit(d) => ("commit", ins(&d.inputs), kind(&d.outputs), json!([])),
            T::DataRequest(d) => ("dr", ins(&d.inputs), kind(&d.outputs), d.tally.as_ref().map(tally).unwrap_or(json!([]))),
            T::Mint(d) => ("mint", vec![], kind(&d.outputs), json!([])),
            T::Tally(d) => ("tally", vec![], kind(&d.outputs), tally(&d.tally)),
            T::Stake(d) => ("stake", ins(&d.inputs), kind(&d.change.iter().cloned().collect::<Vec<_>>()), json!([])),
            T::Unstake(d) => ("unstake", vec![], kind(std::slice::from_ref(&d.withdrawal)), json!([])),
            #[allow(unreachable_patterns)]
            _ => ("?", vec![], vec![], json!([])),
        };
        let t0 = m.transaction.timestamp;
        json!({"t": self.label(&m.transaction.hash), "id": m.db_key, "up": m.kind == model::MovementType::Positive, "amt": m.amount, "fee": m.transaction.miner_fee,
            "sure": m.transaction.confirmed, "ep": m.transaction.block.as_ref().map(|b| b.epoch), "b": m.transaction.block.as_ref().map(|b| if b.block_hash == Hash::default() { "".into() } else { self.label(&b.block_hash.to_string()) }),
            "time": if t0 > 1_000_000_000 { 0 } else { t0 }, "k": k, "ins": i, "outs": o, "tally": t})
    }
    fn addresses(&self, internal: bool) -> Value {
        let mut out = vec![];
        let mut offset = 0;
        loop {
            let a = if internal { self.wallet.internal_addresses(offset, self.page) } else { self.wallet.external_addresses(offset, self.page) };
            let a = match a {
                Ok(a) => a,
                Err(_) => return json!(["lost"]),
            };
            if a.addresses.is_empty() {
                return json!({"n": a.total, "list": out});
            }
            offset += a.addresses.len() as u32;
            for x in a.addresses {
                let good = x.address == x.pkh.bech32(Environment::Mainnet) && x.path == format!("m/3'/4919'/0'/{}/{}", x.keychain, x.index);
                out.push(json!([if good { who(&x.pkh) } else { "?".into() }, x.info.received_amount, x.info.received_payments.iter().map(|p| self.ptr(p)).collect::<Vec<_>>(),
                    x.info.first_payment_date.unwrap_or(0), x.info.last_payment_date.unwrap_or(0), x.info.label.unwrap_or_default()]));
            }
        }
    }
    fn view(&self, mut obs: Value) -> Value {
        let bal = self.wallet.balance().unwrap();
        let info = |b: &model::BalanceInfo| json!([b.available, b.locked, b.staked]);
        let mut utxo: Vec<Value> = self.wallet.get_utxo_info().unwrap().iter().map(|(p, o)| {
            json!([self.label(&p.transaction_id().to_string()), p.output_index, who(&o.pkh), o.amount, unlock(o.time_lock)])
        }).collect();
        utxo.sort_by_key(|v| v.to_string());
        let data = self.wallet.public_data().unwrap();
        let beacon = |b: &CheckpointBeacon| json!([b.checkpoint, self.label(&b.hash_prev_block.to_string())]);
        let mut list = vec![];
        let mut offset = 0;
        let total = loop {
            let t = self.wallet.transactions(offset, self.page).unwrap();
            if offset >= t.total + 3 {
                break t.total;
            }
            offset += self.page;
            list.extend(t.transactions.iter().map(|m| {
                let mut x = self.movement(m);
                x.as_object_mut().unwrap().remove("id");   // kept in memory only
                x
            }));
        };
        let m = obs.as_object_mut().unwrap();
        m.insert("local".into(), json!(bal.local));
        m.insert("unc".into(), info(&bal.unconfirmed));
        m.insert("conf".into(), info(&bal.confirmed));
        m.insert("utxo".into(), json!(utxo));
        m.insert("sync".into(), beacon(&data.last_sync));
        m.insert("last".into(), beacon(&data.last_confirmed));
        m.insert("name".into(), json!([data.name.unwrap_or_default(), data.description.unwrap_or_default()]));
        m.insert("list".into(), json!(list));
        m.insert("total".into(), json!(total));
        m.insert("ext".into(), self.addresses(false));
        m.insert("int".into(), self.addresses(true));
        obs
    }
    fn sound(&self, e: &model::ExtendedTransaction) -> bool {
        let (ins, sigs, data) = match &e.transaction {
            Transaction::ValueTransfer(t) => (&t.body.inputs, &t.signatures, t.body.hash()),
            Transaction::DataRequest(t) => (&t.body.inputs, &t.signatures, t.body.hash()),
            _ => return false,
        };
        let utxo = self.wallet.get_utxo_info().unwrap();
        ins.len() == sigs.len()
            && ins.iter().zip(sigs).all(|(i, k)| {
                utxo.get(&i.output_pointer().into()).is_some_and(|o| o.pkh == k.public_key.pkh())
                    && witnet_crypto::signature::verify(
                        &k.public_key.clone().try_into().unwrap(),
                        data.as_ref(),
                        &k.signature.clone().try_into().unwrap(),
                    )
                    .is_ok()
            })
    }
}

fn consensus() -> ConsensusConstants {
    ConsensusConstants {
        checkpoint_zero_timestamp: 100,
        checkpoints_period: 10,
        bootstrap_hash: hash_of("g"),
        genesis_hash: hash_of("b0"),
        max_vt_weight: 20_000,
        max_dr_weight: 80_000,
        activity_period: 0,
        reputation_expire_alpha_diff: 0,
        reputation_issuance: 0,
        reputation_issuance_stop: 0,
        reputation_penalization_factor: 0.0,
        mining_backup_factor: 0,
        mining_replication_factor: 0,
        collateral_minimum: 0,
        bootstrapping_committee: vec![],
        collateral_age: 0,
        superblock_period: 0,
        extra_rounds: 0,
        minimum_difficulty: 0,
        epochs_with_minimum_difficulty: 0,
        superblock_signing_committee_size: 100,
        superblock_committee_decreasing_period: 100,
        superblock_committee_decreasing_step: 5,
        initial_block_reward: 250 * 1_000_000_000,
        halving_period: 3_500_000,
    }
}

/// the n-th request is like no other
fn request(n: u64, witness_reward: u64) -> DataRequestOutput {
    let mut r = DataRequestOutput { witnesses: 1, witness_reward, ..Default::default() };
    r.data_request.time_lock = n;
    r
}
impl Sut for WalletSut {
    fn step(&mut self, op: &Value) -> Value {
        let obs = match s(op, "op") {
            "address" => {
                let label = s(op, "label");
                let label = if label.is_empty() { None } else { Some(label.to_string()) };
                rocksdb::fail_write_in(u(op, "fail") as u32);
                let r = match s(op, "kind") {
                    "E" => self.wallet.gen_external_address(label),
                    "I" => self.wallet.gen_internal_address(label, false),
                    _ => self.wallet.gen_internal_address(label, true),
                };
                rocksdb::fail_write_in(0);
                json!({"got": r.map(|a| who(&a.pkh)).unwrap_or_else(|_| "failed".into())})
            }
            "block" => {
                let hash = self.block(s(op, "b"));
                let beacon = model::Beacon { epoch: u(op, "ep") as u32, block_hash: hash };
                let all: Vec<model::ExtendedTransaction> = arr(op, "txs").iter().filter_map(|t| self.given(t)).collect();
                let sure = b(op, "sure");
                // what the worker does with a block
                let plain: Vec<Transaction> = all.iter().map(|t| t.transaction.clone()).collect();
                rocksdb::fail_write_in(u(op, "fail") as u32);
                let r = self.wallet._sync_address_generation(plain.iter().cloned()).and_then(|()| self.wallet.filter_wallet_transactions(&beacon, plain.iter().cloned()));
                let filtered = match r {
                    Ok(f) => f,
                    Err(_) => {
                        rocksdb::fail_write_in(0);
                        return json!({"err": true});
                    }
                };
                let own: Vec<model::ExtendedTransaction> = all.into_iter().filter(|t| filtered.contains(&t.transaction)).collect();
                let r = self.wallet.index_block_transactions(&beacon, &own, sure);
                rocksdb::fail_write_in(0);
                match r {
                    Ok(ms) => {
                        self.wallet.update_sync_state(CheckpointBeacon { checkpoint: beacon.epoch, hash_prev_block: hash }, sure).unwrap();
                        json!({"err": false, "own": own.iter().map(|t| self.label(&t.transaction.versioned_hash(self.version).to_string())).collect::<Vec<_>>(),
                            "moves": ms.iter().map(|m| self.movement(m)).collect::<Vec<_>>()})
                    }
                    Err(_) => return json!({"err": true}),
                }
            }
            "super" => {
                let hashes: Vec<String> = arr(op, "bs").iter().map(|x| hash_of(x.as_str().unwrap()).to_string()).collect();
                rocksdb::fail_write_in(u(op, "fail") as u32);
                let r = self.wallet.handle_superblock(&hashes);
                rocksdb::fail_write_in(0);
                json!({"err": r.is_err()})
            }
            "orphan" => {
                self.wallet.clear_pending_state().unwrap();
                json!({})
            }
            "wipe" => {
                rocksdb::fail_write_in(u(op, "fail") as u32);
                let r = self.wallet.clear_chain_data();
                rocksdb::fail_write_in(0);
                if r.is_err() {
                    return json!({"err": true});
                }
                json!({"err": false})
            }
            "restart" => {
                self.wallet = repository::Wallet::unlock("w", types::SessionId::from("s".to_string()), open(&self.store), self.params.clone()).unwrap();
                json!({})
            }
            "syncing" => {
                let n = self.params.sync_address_batch_length;
                if b(op, "on") {
                    self.wallet.initialize_transient_addresses(n, n).unwrap();
                } else {
                    self.wallet.clear_transient_addresses().unwrap();
                }
                json!({})
            }
            "rename" => {
                let f = |k| if s(op, k).is_empty() { None } else { Some(s(op, k).to_string()) };
                self.wallet.update(f("name"), f("text")).unwrap();
                json!({})
            }
            "note" => {
                let key = s(op, "key");
                let before = self.wallet.kv_get(key).unwrap().unwrap_or_default();
                self.wallet.kv_set(key, s(op, "v")).unwrap();
                json!({"before": before})
            }
            "send" => {
                let from = op["from"].as_str().filter(|x| !x.is_empty()).map(|x| world().pkh[x]);
                let utxo_strategy = match s(op, "by") {
                    "big" => UtxoSelectionStrategy::BigFirst { from },
                    "small" => UtxoSelectionStrategy::SmallFirst { from },
                    _ => UtxoSelectionStrategy::Random { from },
                };
                let selected_utxos: HashSet<model::OutPtr> = arr(op, "sel").iter().map(|p| (&self.outptr(p)).into()).collect();
                let preview = b(op, "preview");
                let fee = Fee::absolute_from_nanowits(u(op, "fee"));
                let r = if s(op, "k") == "vt" {
                    let outputs = arr(op, "outs").iter().map(vto).collect();
                    self.wallet.create_vtt(types::VttParams { fee, outputs, utxo_strategy, selected_utxos, preview })
                } else {
                    let request = request(u(op, "n"), u(op, "reward"));
                    self.wallet.create_data_req(types::DataReqParams { fee, request, preview })
                };
                match r {
                    Ok((e, fee)) => {
                        self.know(s(op, "t"), &e.transaction);
                        let (ins, outs) = match &e.transaction {
                            Transaction::ValueTransfer(t) => (t.body.inputs.clone(), t.body.outputs.clone()),
                            Transaction::DataRequest(t) => (t.body.inputs.clone(), t.body.outputs.clone()),
                            _ => unreachable!(),
                        };
                        let fit = self.sound(&e);
                        let mut o = json!({"res": "ok", "fee": fee.as_nanowits(), "fit": fit,
                            "ins": ins.iter().map(|i| json!([self.label(&i.output_pointer().transaction_id.to_string()), i.output_pointer().output_index])).collect::<Vec<_>>(),
                            "outs": outs.iter().map(|o| json!([who(&o.pkh), o.value, unlock(o.time_lock)])).collect::<Vec<_>>()});
                        if let Some(model::TransactionMetadata::InputValues(v)) = &e.metadata {
                            o["meta"] = json!(v.iter().map(|x| x.value).collect::<Vec<_>>());
                        }
                        self.made.insert(s(op, "t").to_string(), (e.transaction, e.metadata));
                        o
                    }
                    Err(repository::Error::InsufficientBalance { total_balance, available_balance, transaction_value }) => {
                        json!({"res": "poor", "all": total_balance, "free": available_balance, "need": transaction_value})
                    }
                    Err(e) if format!("{e:?}").contains("ZeroAmount") => json!({"res": "zero"}),
                    Err(_) => json!({"res": "other"}),
                }
            }
            "local" => {
                // the last one made, or one from elsewhere
                match self.given(&op["tx"]).map(|e| self.wallet.add_local_movement(&e)).unwrap_or(Ok(None)) {
                    Ok(m) => json!({"m": m.iter().map(|m| self.movement(m)).collect::<Vec<_>>()}),
                    Err(_) => json!({"m": ["failed"]}),
                }
            }
            _ => bad_op(op),
        };
        self.view(obs)
    }
}

fn main() {
    run::run(|component, cfg| match component {
        "wallet" => Box::new(WalletSut::new(cfg)),
        _ => panic!("no component {component}"),
    })
}
