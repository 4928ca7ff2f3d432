//! The inventory of a node: the actor, the storage manager and the migrations of the repository, over a database that can fail.
#![allow(dead_code, unused_imports, clippy::all)]
#[path = "../../common/run.rs"]
mod run;
#[path = "actix.rs"]
pub mod actor_system;

// what the actors know as crates
extern crate self as actix;
pub use actor_system::*;
pub mod config_mngr {
    pub async fn get() -> Result<std::sync::Arc<witnet_config::config::Config>, anyhow::Error> {
        Err(anyhow::format_err!("configured at the start"))
    }
}
pub mod utils {
    pub fn stop_system_if_panicking(_name: &str) {}
    pub trait FlattenResult {
        type OutputResult;
        fn flatten_result(self) -> Self::OutputResult;
    }
    impl<T, E1: From<E2>, E2> FlattenResult for Result<Result<T, E1>, E2> {
        type OutputResult = Result<T, E1>;
        fn flatten_result(self) -> Result<T, E1> {
            self.unwrap_or_else(|e| Err(e.into()))
        }
    }
}
#[path = "/repo/node/src"]
pub mod node {
    pub mod storage_mngr;
}
pub use node::storage_mngr;
pub mod actors {
    #[path = "/repo/node/src/actors/inventory_manager/mod.rs"]
    pub mod inventory_manager;
    pub mod messages {
        use super::inventory_manager::InventoryManagerError;
        use actix::Message;
        use serde::{Deserialize, Serialize};
        use witnet_data_structures::{chain::*, transaction::Transaction};
        pub enum StoreInventoryItem {
            Block(Box<Block>),
            Transaction(Hash, PointerToBlock),
            Superblock(SuperBlockNotify),
        }
        #[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
        pub struct SuperBlockNotify {
            pub superblock: SuperBlock,
            pub consolidated_block_hashes: Vec<Hash>,
        }
        macro_rules! message {
            ($($name:ident { $($f:ident: $t:ty),* } -> $r:ty;)*) => { $(
                pub struct $name { $(pub $f: $t),* }
                impl Message for $name { type Result = Result<$r, InventoryManagerError>; }
            )* };
        }
        message! {
            AddItem { item: StoreInventoryItem } -> ();
            AddItems { items: Vec<StoreInventoryItem> } -> ();
            GetItem { item: InventoryEntry } -> InventoryItem;
            GetItemBlock { hash: Hash } -> Block;
            GetItemTransaction { hash: Hash } -> (Transaction, PointerToBlock, Epoch);
            GetItemSuperblock { superblock_index: u32 } -> SuperBlockNotify;
        }
    }
}
use actors::inventory_manager::{InventoryManager, InventoryManagerError as Bad};
use actors::messages::*;
use run::{Sut, arr, b, bad_op, s, u};
use serde_json::{Value, json};
use std::future::Future;
use witnet_data_structures::{
    chain::{tapi::TapiEngine, *},
    get_protocol_version,
    proto::versioning::{ProtocolInfo, ProtocolVersion, VersionedHashable},
    register_protocol_version,
    staking::{prelude::StakeKey, stakes::StakesTracker},
    transaction::*,
    utxo_pool::UtxoWriteBatch,
    vrf::{BlockEligibilityClaim, VrfProof},
};

fn wait<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    for _ in 0..10_000 {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
            return x;
        }
    }
    panic!("it waits for something")
}
// ------------------------------------------------------------------ the things of this world, and their names
fn h(n: u64) -> Hash {
    Hash::SHA256([n as u8; 32])
}
fn pkh(n: u64) -> PublicKeyHash {
    PublicKeyHash::from_bytes(&[n as u8; 20]).unwrap()
}
fn signed(n: u64) -> KeyedSignature {
    let mut public_key = PublicKey::default();
    public_key.bytes = [n as u8; 32];
    public_key.compressed = 2;
    KeyedSignature { signature: Signature::Secp256k1(Secp256k1Signature { der: vec![n as u8; 70] }), public_key }
}
const KINDS: [&str; 8] = ["mint", "vt", "dr", "commit", "reveal", "tally", "stake", "unstake"];
/// The transaction n of a kind: which kind is n modulo 8.
fn tx(n: u64) -> Transaction {
    KNOWN.with(|k| k.txs[n as usize].clone())
}
fn make_tx(n: u64) -> Transaction {
    let inputs = vec![Input::new(OutputPointer { transaction_id: h(n), output_index: n as u32 })];
    let outputs = vec![ValueTransferOutput { pkh: pkh(n), value: 1 << n, time_lock: 0 }];
    match KINDS[n as usize % 8] {
        "mint" => Transaction::Mint(MintTransaction::new(n as u32, outputs)),
        "vt" => Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(inputs, outputs), vec![signed(n)])),
        "dr" => Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(inputs, DataRequestOutput { witness_reward: n, ..Default::default() }, outputs), vec![signed(n)])),
        "commit" => Transaction::Commit(CommitTransaction::new(CommitTransactionBody::new(h(n), h(4), Default::default(), inputs, outputs, None), vec![signed(n)])),
        "reveal" => Transaction::Reveal(RevealTransaction::new(RevealTransactionBody::new(h(n), vec![0x19, 1], pkh(4)), vec![signed(n)])),
        "tally" => Transaction::Tally(TallyTransaction::new(h(n), vec![0x18, 0x20], outputs, vec![pkh(1), pkh(2)], vec![pkh(3)])),
        "stake" => Transaction::Stake(StakeTransaction::new(StakeTransactionBody::new(inputs, StakeOutput { value: 10, key: StakeKey { validator: pkh(1), withdrawer: pkh(2) }, authorization: signed(7) }, outputs.into_iter().next()), vec![signed(n)])),
        _ => Transaction::Unstake(UnstakeTransaction::new(UnstakeTransactionBody::new(pkh(8), outputs.into_iter().next().unwrap(), 3, n), signed(n))),
    }
}
const TXS: u64 = 33;
struct Known {
    txs: Vec<Transaction>,
    blocks: Vec<(Block, Hash)>,
}
thread_local! { static KNOWN: Known = Known { txs: (0..=TXS).map(make_tx).collect(), blocks: (1..=6).map(|n| (make_block(n), make_hash_of(n))).collect() }; }
/// What is in the blocks: (epoch, whether its proof is of the usual length, its transactions)
const BLOCKS: [(u32, bool, &[u64]); 6] = [
    (3, true, &[8, 1, 9, 2, 3, 4, 5]),
    (12, true, &[16, 9, 1, 17, 10, 11, 19, 12, 20, 13, 21]),
    (25, true, &[24, 1, 2, 3, 4, 5, 6, 14, 7, 15]),
    (25, false, &[24, 33, 25, 17, 9, 1, 18, 14, 22, 23]),
    (4, true, &[8]),
    (10, false, &[32, 1, 3, 11, 19, 27]),
];
fn block(n: u64) -> Block {
    KNOWN.with(|k| k.blocks[n as usize - 1].0.clone())
}
fn make_block(n: u64) -> Block {
    let (epoch, usual, txs) = BLOCKS[n as usize - 1];
    let proof: VrfProof = bincode::deserialize(&bincode::serialize(&(vec![n as u8; if usual { 81 } else { 80 }], PublicKey::default())).unwrap()).unwrap();
    let mut t = BlockTransactions::default();
    for i in txs {
        match make_tx(*i) {
            Transaction::Mint(x) => t.mint = x,
            Transaction::ValueTransfer(x) => t.value_transfer_txns.push(x),
            Transaction::DataRequest(x) => t.data_request_txns.push(x),
            Transaction::Commit(x) => t.commit_txns.push(x),
            Transaction::Reveal(x) => t.reveal_txns.push(x),
            Transaction::Tally(x) => t.tally_txns.push(x),
            Transaction::Stake(x) => t.stake_txns.push(x),
            Transaction::Unstake(x) => t.unstake_txns.push(x),
        }
    }
    Block::new(
        BlockHeader {
            signals: n as u32,
            beacon: CheckpointBeacon { checkpoint: epoch, hash_prev_block: h(n) },
            merkle_roots: BlockMerkleRoots { mint_hash: h(n), vt_hash_merkle_root: h(13), dr_hash_merkle_root: h(14), commit_hash_merkle_root: h(15), reveal_hash_merkle_root: h(16), tally_hash_merkle_root: h(17), ..Default::default() },
            proof: BlockEligibilityClaim { proof },
            bn256_public_key: None,
        },
        signed(n),
        t,
    )
}
/// The name of a block that was stored: its hash by the rules of its epoch
fn hash_of(n: u64) -> Hash {
    KNOWN.with(|k| k.blocks[n as usize - 1].1)
}
fn make_hash_of(n: u64) -> Hash {
    let (epoch, ..) = BLOCKS[n as usize - 1];
    let version = if epoch < 10 { ProtocolVersion::V1_7 } else if epoch < 20 { ProtocolVersion::V1_8 } else { ProtocolVersion::V2_0 };
    make_block(n).versioned_hash(version)
}
fn block_at(x: Hash) -> u64 {
    (1..=6).find(|n| hash_of(*n) == x).unwrap_or(if x == h(77) { 77 } else { 99 })
}
fn block_id(x: &Block) -> u64 {
    KNOWN.with(|k| (1..=6).find(|n| k.blocks[*n as usize - 1].0 == *x)).unwrap_or(99)
}
fn tx_id(x: &Transaction) -> u64 {
    KNOWN.with(|k| (1..=TXS).find(|n| k.txs[*n as usize] == *x)).unwrap_or(99)
}
fn pointer(p: &Value) -> PointerToBlock {
    let i = u(p, "i") as u32;
    PointerToBlock {
        block_hash: if u(p, "b") <= 6 { hash_of(u(p, "b")) } else { h(u(p, "b")) },
        transaction_index: match s(p, "k") {
            "mint" => TransactionPointer::Mint,
            "vt" => TransactionPointer::ValueTransfer(i),
            "dr" => TransactionPointer::DataRequest(i),
            "commit" => TransactionPointer::Commit(i),
            "reveal" => TransactionPointer::Reveal(i),
            "tally" => TransactionPointer::Tally(i),
            "stake" => TransactionPointer::Stake(i),
            _ => TransactionPointer::Unstake(i),
        },
    }
}
fn from_pointer(p: &PointerToBlock) -> Value {
    let (k, i) = match p.transaction_index {
        TransactionPointer::Mint => ("mint", 0),
        TransactionPointer::ValueTransfer(i) => ("vt", i),
        TransactionPointer::DataRequest(i) => ("dr", i),
        TransactionPointer::Commit(i) => ("commit", i),
        TransactionPointer::Reveal(i) => ("reveal", i),
        TransactionPointer::Tally(i) => ("tally", i),
        TransactionPointer::Stake(i) => ("stake", i),
        TransactionPointer::Unstake(i) => ("unstake", i),
    };
    json!({"b": block_at(p.block_hash), "k": k, "i": i})
}
/// Two superblocks of each index, with different blocks
fn superblock(i: u64, v: u64) -> SuperBlockNotify {
    SuperBlockNotify { superblock: SuperBlock::new(7, h(i), h(5), i as u32, h(v), h(6), h(8)), consolidated_block_hashes: (0..v).map(h).collect() }
}
fn super_id(x: &SuperBlockNotify) -> u64 {
    (1..3).find(|v| superblock(u64::from(x.superblock.index), *v) == *x).unwrap_or(99)
}
fn only_super(x: &SuperBlock) -> Value {
    json!([x.index, (1..3).find(|v| superblock(u64::from(x.index), *v).superblock == *x).unwrap_or(99)])
}
fn state(n: u64) -> ChainState {
    let mut c = ChainState::default();
    if n > 1 {
        let at = CheckpointBeacon { checkpoint: n as u32, hash_prev_block: h(n) };
        c.chain_info = Some(ChainInfo { highest_block_checkpoint: at, highest_superblock_checkpoint: at, ..Default::default() });
        c.block_chain.insert(n as u32, h(n));
        c.node_stats.block_proposed_count = n as u32;
    }
    c
}
fn state_id(x: &ChainState) -> u64 {
    let bytes = bincode::serialize(x).unwrap();
    (1..=3).find(|n| bincode::serialize(&state(*n)).unwrap() == bytes).unwrap_or(99)
}
/// How former versions of the node wrote a chain state that has neither stakes nor signals
fn former(n: u64, version: u32) -> Vec<u8> {
    let now = bincode::serialize(&state(n)).unwrap();
    let stakes = bincode::serialize(&StakesTracker::default()).unwrap();
    let tapi = bincode::serialize(&TapiEngine::default()).unwrap();
    let info = bincode::serialize(&ProtocolInfo::default()).unwrap();
    let without = &now[..now.len() - stakes.len()];
    let tag = version.to_le_bytes();
    match version {
        0 => without[..without.len() - tapi.len()].to_vec(),
        2 | 3 => [&tag, without].concat(),
        4 => [&tag, &now[..1], &info, &now[1..]].concat(),
        5 => [&tag[..], &now].concat(),
        _ => [&tag[..], &now].concat(),
    }
}
fn key(x: Hash) -> Vec<u8> {
    let Hash::SHA256(x) = x;
    x.to_vec()
}
const CHAIN: &str = "chain-1-key";

const SUPERS: [u64; 5] = [1, 2, 9, 10, 2_000_000_000];
struct InventorySut {
    addr: Addr<InventoryManager>,
}
fn told(e: &Bad) -> Value {
    match e {
        Bad::ItemNotFound => json!({"r": "none"}),
        Bad::NoPointedBlock(p) => json!({"r": "lost", "p": from_pointer(p)}),
        Bad::NoTransactionInPointedBlock(p) => json!({"r": "wrong", "p": from_pointer(p)}),
        Bad::MailBoxError(_) => json!({"r": "err"}),
    }
}
fn item(e: &Value) -> StoreInventoryItem {
    match s(e, "k") {
        "block" => StoreInventoryItem::Block(Box::new(block(u(e, "n")))),
        "tx" => StoreInventoryItem::Transaction(tx(u(e, "n")).hash(), pointer(&e["p"])),
        _ => StoreInventoryItem::Superblock(superblock(u(e, "n"), u(e, "v"))),
    }
}
fn raw(k: Vec<u8>, v: Vec<u8>) {
    wait(storage_mngr::get_backend()).unwrap().as_arc_dyn_storage().put(k, v).unwrap()
}
impl InventorySut {
    fn ask<M: Message<Result = Result<T, Bad>> + 'static, T: 'static>(&self, m: M, f: impl Fn(&T) -> Value) -> Value
    where
        InventoryManager: Handler<M>,
    {
        match wait(self.addr.send(m)).unwrap() {
            Ok(x) => f(&x),
            Err(e) => told(&e),
        }
    }
    fn get_block(&self, n: u64) -> Value {
        self.ask(GetItemBlock { hash: if n <= 6 { hash_of(n) } else { h(n) } }, |x| json!({"r": "ok", "n": block_id(x)}))
    }
    fn get_tx(&self, n: u64) -> Value {
        self.ask(GetItemTransaction { hash: tx(n).hash() }, |(t, p, e)| json!({"r": "ok", "n": tx_id(t), "p": from_pointer(p), "e": e}))
    }
    fn get_super(&self, n: u64) -> Value {
        self.ask(GetItemSuperblock { superblock_index: n as u32 }, |x| json!({"r": "ok", "n": x.superblock.index, "v": super_id(x)}))
    }
    fn get_state(&self) -> Value {
        match wait(storage_mngr::get_chain_state(CHAIN)) {
            Ok(None) => json!({"r": "none"}),
            Ok(Some(x)) => json!({"r": "ok", "n": state_id(&x)}),
            Err(_) => json!({"r": "err"}),
        }
    }
    fn unit(r: Result<(), anyhow::Error>) -> Value {
        json!({"r": if r.is_ok() { "ok" } else { "err" }})
    }
}
impl Sut for InventorySut {
    fn step(&mut self, op: &Value) -> Value {
        let fails = op["fail"].as_u64().unwrap_or(0) as u32;
        let done = |_: &()| json!({"r": "ok"});
        rocksdb::fail_in(fails);
        let r = match s(op, "op") {
            "add" => {
                let mut items: Vec<_> = arr(op, "es").iter().map(item).collect();
                if items.len() == 1 && b(op, "one") { self.ask(AddItem { item: items.pop().unwrap() }, done) } else { self.ask(AddItems { items }, done) }
            }
            "get" => {
                let n = u(op, "n");
                match s(op, "k") {
                    "block" if b(op, "any") => self.ask(GetItem { item: InventoryEntry::Block(if n <= 6 { hash_of(n) } else { h(n) }) }, |x| match x {
                        InventoryItem::Block(x) => json!({"r": "ok", "n": block_id(x)}),
                        _ => json!({"r": "other"}),
                    }),
                    "tx" if b(op, "any") => self.ask(GetItem { item: InventoryEntry::Tx(tx(n).hash()) }, |x| match x {
                        InventoryItem::Transaction(x) => json!({"r": "ok", "n": tx_id(x)}),
                        _ => json!({"r": "other"}),
                    }),
                    "super" if b(op, "any") => self.ask(GetItem { item: InventoryEntry::SuperBlock(n as u32) }, |x| match x {
                        InventoryItem::SuperBlock(x) => json!({"r": "ok", "n": only_super(x)[0], "v": only_super(x)[1]}),
                        _ => json!({"r": "other"}),
                    }),
                    "block" => self.get_block(n),
                    "tx" => self.get_tx(n),
                    "super" => self.get_super(n),
                    _ => self.get_state(),
                }
            }
            "blocks" => {
                let hashes: Vec<_> = arr(op, "ns").iter().map(|n| hash_of(n.as_u64().unwrap())).collect();
                match wait(InventoryManager::get_multiple_blocks(hashes)) {
                    Ok(v) => json!({"r": "ok", "ns": v.iter().map(block_id).collect::<Vec<_>>()}),
                    Err(e) => told(&e),
                }
            }
            "supers" => match wait(InventoryManager::get_all_superblocks()) {
                Ok(v) => json!({"r": "ok", "ns": v.iter().map(only_super).collect::<Vec<_>>()}),
                Err(e) => told(&e),
            },
            // as it was written before there were stakes
            "old" => {
                let bytes = bincode::serialize(&block(u(op, "n"))).unwrap();
                raw(bincode::serialize(&key(hash_of(u(op, "n")))).unwrap(), [&bytes[..260], &bytes[332..bytes.len() - 16]].concat());
                json!({"r": "ok"})
            }
            "garble" => {
                raw(bincode::serialize(&key(hash_of(u(op, "n")))).unwrap(), vec![255; u(op, "len") as usize]);
                json!({"r": "ok"})
            }
            "drop" => Self::unit(wait(storage_mngr::delete(&key(hash_of(u(op, "n")))))),
            "state" => Self::unit(wait(storage_mngr::put_chain_state_in_batch(&CHAIN, &state(u(op, "n")), UtxoWriteBatch::default()))),
            "former" => {
                let bytes = former(u(op, "n"), u(op, "v") as u32);
                raw(bincode::serialize(CHAIN).unwrap(), bytes);
                json!({"r": "ok"})
            }
            // something that is not of the inventory, next to it
            "other" => Self::unit(wait(storage_mngr::put(&s(op, "key").to_string(), &u(op, "n")))),
            "read" => match wait(storage_mngr::get::<_, u64>(&s(op, "key").to_string())) {
                Ok(None) => json!({"r": "none"}),
                Ok(Some(n)) => json!({"r": "ok", "n": n}),
                Err(_) => json!({"r": "err"}),
            },
            _ => bad_op(op),
        };
        let hit = fails > 0 && !rocksdb::fail_pending();
        rocksdb::fail_in(0);
        json!({
            "res": r, "given": hit,
            "blocks": (1..=6).map(|n| self.get_block(n)).collect::<Vec<_>>(),
            "txs": (1..=TXS).map(|n| self.get_tx(n)).collect::<Vec<_>>(),
            "supers": SUPERS.map(|n| self.get_super(n)).to_vec(),
            "state": self.get_state(),
        })
    }
}

fn main() {
    run::run(|component, cfg| match component {
        "inventory" => {
            // the storage manager takes half a second to die
            std::mem::forget(REGISTRY.with(|r| std::mem::take(&mut *r.borrow_mut())));
            witnet_data_structures::clear_protocol_info();
            register_protocol_version(ProtocolVersion::V1_7, 0, 45);
            register_protocol_version(ProtocolVersion::V1_8, 10, 45);
            register_protocol_version(ProtocolVersion::V2_0, 20, 20);
            let mut config = witnet_config::config::Config::from_partial(&witnet_config::config::PartialConfig::default());
            config.storage.backend = witnet_config::config::StorageBackend::RocksDB;
            config.storage.utxos_in_memory = b(cfg, "memory");
            storage_mngr::start_from_config(config);
            for f in LATER.with(|l| std::mem::take(&mut *l.borrow_mut())) {
                f()
            }
            assert!(STOPPED.with(|s| s.borrow().is_none()));
            Box::new(InventorySut { addr: InventoryManager::from_registry() })
        }
        x => panic!("unknown component {x}"),
    });
}
