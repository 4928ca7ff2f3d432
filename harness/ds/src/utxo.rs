//! The pool of unspent outputs over a storage that survives restarts and can be made to fail.
use crate::run::*;
use serde_json::{Value, json};
use std::collections::BTreeSet;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use witnet_data_structures::{
    chain::{Hash, OutputPointer, PublicKeyHash, SHA256, ValueTransferOutput},
    utxo_pool::*,
};
use witnet_storage::storage::{Result, Storage, StorageIterator, WriteBatch};

/// A disk: what is written stays, until told to fail.
#[derive(Clone)]
struct Disk {
    inner: Arc<dyn Storage + Send + Sync>,
    fail: Arc<AtomicBool>,
}
impl Disk {
    fn check(&self) -> Result<()> {
        if self.fail.load(Ordering::SeqCst) { Err(anyhow::anyhow!("disk failure")) } else { Ok(()) }
    }
}
impl Storage for Disk {
    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>> {
        self.inner.get(key)
    }
    fn put(&self, key: Vec<u8>, value: Vec<u8>) -> Result<()> {
        self.check()?;
        self.inner.put(key, value)
    }
    fn delete(&self, key: &[u8]) -> Result<()> {
        self.check()?;
        self.inner.delete(key)
    }
    fn prefix_iterator<'a, 'b: 'a>(&'a self, prefix: &'b [u8]) -> Result<StorageIterator<'a>> {
        self.inner.prefix_iterator(prefix)
    }
    fn write(&self, batch: WriteBatch) -> Result<()> {
        self.check()?;
        self.inner.write(batch)
    }
}

pub fn pkh(o: u64) -> PublicKeyHash {
    let mut h = [9u8; 20];
    h[19] = o as u8;
    PublicKeyHash::from_bytes(&h).unwrap()
}
fn owner(p: &PublicKeyHash) -> u64 {
    u64::from(p.as_ref()[19])
}
const INDEXES: [u32; 5] = [0, 1, 11, 110, u32::MAX];
/// Identifiers share transactions, and their indexes are prefixes of each other.
pub fn pointer(id: u64) -> OutputPointer {
    let mut h = [0x11u8; 32];
    h[31] = (id / 5) as u8;
    OutputPointer { transaction_id: Hash::SHA256(h as SHA256), output_index: INDEXES[(id % 5) as usize] }
}
fn ident(p: &OutputPointer) -> u64 {
    let Hash::SHA256(h) = p.transaction_id;
    u64::from(h[31]) * 5 + INDEXES.iter().position(|i| *i == p.output_index).unwrap() as u64
}
fn vto(o: u64, v: u64) -> ValueTransferOutput {
    ValueTransferOutput { pkh: pkh(o), value: v, time_lock: v * 3 }
}

enum BlkOp {
    Create(u64, ValueTransferOutput, Option<u32>),
    Spend(u64),
}

const MARK: &[u8] = b"chain-state";
const NEAR: [&[u8]; 3] = [b"UTXO", b"UTXP-1", b"UTX"];

pub struct UtxoSut {
    disk: Disk,
    cached: bool,
    pool: UnspentOutputsPool,
    snap: Option<(UnspentOutputsPool, u64)>,
    blk: Option<(u32, Vec<BlkOp>)>,
    mark: u64,
    owners: u64,
    known: BTreeSet<u64>,
}

impl UtxoSut {
    pub fn new(cfg: &Value) -> Self {
        let inner: Arc<dyn Storage + Send + Sync> = if cfg["backend"].as_str() == Some("rocks") {
            Arc::new(witnet_storage::backends::rocks::Backend::default())
        } else {
            Arc::new(witnet_storage::backends::hashmap::Backend::default())
        };
        let disk = Disk { inner, fail: Arc::default() };
        for k in NEAR {
            disk.inner.put(k.to_vec(), vec![1]).unwrap();
        }
        let mut s = UtxoSut {
            disk,
            cached: cfg["cached"].as_bool().unwrap_or(true),
            pool: UnspentOutputsPool::default(),
            snap: None,
            blk: None,
            mark: 0,
            owners: u(cfg, "owners"),
            known: (0..5).collect(),
        };
        s.restart();
        s
    }
    fn db(&self) -> Arc<dyn UtxoDb + Send + Sync> {
        let db = UtxoDbWrapStorage(self.disk.clone());
        if self.cached { Arc::new(CacheUtxosByPkh::new(db).unwrap()) } else { Arc::new(db) }
    }
    fn restart(&mut self) {
        self.disk.fail.store(false, Ordering::SeqCst);
        self.pool = UnspentOutputsPool { diff: Diff::new(), db: Some(self.db()) };
        self.snap = None;
        self.blk = None;
        self.mark = self.mark_on_disk();
    }
    fn mark_on_disk(&self) -> u64 {
        self.disk.get(MARK).unwrap().map_or(0, |v| bincode::deserialize(&v).unwrap())
    }
    fn write(pool: &mut UnspentOutputsPool, mark: u64) {
        let mut batch = UtxoWriteBatch::default();
        batch.put_raw(MARK.to_vec(), bincode::serialize(&mark).unwrap());
        pool.persist_add_to_batch(&mut batch);
        pool.db.as_ref().unwrap().write(batch).unwrap();
    }
    fn building<'a>(pool: &'a UnspentOutputsPool, blk: &Option<(u32, Vec<BlkOp>)>) -> UtxoDiff<'a> {
        let (n, ops) = match blk {
            Some((n, ops)) => (*n, ops.as_slice()),
            None => (0, &[][..]),
        };
        let mut d = UtxoDiff::new(pool, n);
        for op in ops {
            match op {
                BlkOp::Create(k, v, n) => d.insert_utxo(pointer(*k), v.clone(), *n),
                BlkOp::Spend(k) => d.remove_utxo(pointer(*k)),
            }
        }
        d
    }
}
impl Sut for UtxoSut {
    fn step(&mut self, op: &Value) -> Value {
        let mut ok = true;
        match s(op, "op") {
            "begin" => self.blk = Some((u(op, "n") as u32, vec![])),
            "create" => {
                let k = u(op, "id");
                self.known.insert(k);
                let n = match u(op, "n") {
                    0 => None,
                    n => Some(n as u32),
                };
                self.blk.as_mut().unwrap().1.push(BlkOp::Create(k, vto(u(op, "o"), u(op, "v")), n));
            }
            "spend" => self.blk.as_mut().unwrap().1.push(BlkOp::Spend(u(op, "id"))),
            "discard" => self.blk = None,
            "consolidate" => {
                let diff = Self::building(&self.pool, &self.blk).take_diff();
                // the difference says what it is about to do
                let mut seen = (BTreeSet::new(), BTreeSet::new());
                diff.visit(&mut seen, |s, k, _| { s.0.insert(ident(k)); }, |s, k| { s.1.insert(ident(k)); });
                let before: BTreeSet<u64> = self.pool.iter().map(|(k, _)| ident(&k)).collect();
                diff.apply(&mut self.pool);
                let after: BTreeSet<u64> = self.pool.iter().map(|(k, _)| ident(&k)).collect();
                ok &= after == before.union(&seen.0).copied().filter(|k| !seen.1.contains(k)).collect();
                self.blk = None;
                self.mark += 1;
            }
            "snapshot" => self.snap = Some((self.pool.clone(), self.mark)),
            "persist" => {
                let (mut state, mark) = self.snap.take().unwrap();
                self.pool.remove_persisted_from_memory(&state.diff);
                Self::write(&mut state, mark);
                ok &= state.diff == Diff::new();
            }
            "persistall" => {
                self.snap = None;
                if self.known.len() % 2 == 0 {
                    let mut batch = UtxoWriteBatch::default();
                    batch.put_raw(MARK.to_vec(), bincode::serialize(&self.mark).unwrap());
                    self.pool.db.as_ref().unwrap().write(batch).unwrap();
                    self.pool.persist();
                } else {
                    let mut state = self.pool.clone();
                    self.pool.remove_persisted_from_memory(&state.diff);
                    Self::write(&mut state, self.mark);
                }
                ok &= self.pool.diff == Diff::new();
            }
            "restart" => self.restart(),
            "fail" => {
                self.disk.fail.store(true, Ordering::SeqCst);
                let db = self.pool.db.clone().unwrap();
                let mut state = self.pool.clone();
                let mut batch = UtxoWriteBatch::default();
                batch.put_raw(MARK.to_vec(), bincode::serialize(&(self.mark + 1000)).unwrap());
                state.persist_add_to_batch(&mut batch);
                ok &= db.write(batch).is_err();
                // until the node ends, what is on disk is what was there
                let view = UnspentOutputsPool { diff: Diff::new(), db: Some(db) };
                ok &= self.owned_consistent(&view);
                let mut pool = self.pool.clone();
                ok &= catch_unwind(AssertUnwindSafe(|| pool.persist())).is_err();
                self.restart();
            }
            "wipe" => {
                let total = self.pool.clone().iter_disk();
                let mut batch = UtxoWriteBatch::default();
                let n = if self.known.len() % 2 == 0 {
                    self.pool.delete_all_from_db()
                } else {
                    let n = self.pool.delete_all_from_db_batch(&mut batch);
                    self.pool.db.as_ref().unwrap().write(batch).unwrap();
                    n
                };
                ok &= n == total;
                self.disk.delete(MARK).unwrap();
                let db = self.pool.db.clone();
                self.pool = UnspentOutputsPool { diff: Diff::new(), db };
                self.snap = None;
                self.blk = None;
                self.mark = 0;
            }
            "migrate" => {
                let mut tmp = UnspentOutputsPool::default();
                for i in arr(op, "items") {
                    let i: Vec<u64> = i.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                    self.known.insert(i[0]);
                    tmp.insert(pointer(i[0]), vto(i[1], i[2]), i[3] as u32);
                }
                let n = arr(op, "items").len();
                let mut old = OldUnspentOutputsPool::from(tmp);
                // what was stored by an old version reads back
                old = bincode::deserialize(&bincode::serialize(&old).unwrap()).unwrap();
                ok &= old.is_empty() == (n == 0);
                let calls = Mutex::new(0);
                self.pool.migrate_old_unspent_outputs_pool_to_db(&mut old, |_, t| {
                    *calls.lock().unwrap() += 1;
                    assert_eq!(t, n);
                });
                ok &= old.is_empty() && *calls.lock().unwrap() == n;
                self.snap = None;
            }
            _ => bad_op(op),
        }
        self.observe(ok)
    }
}

trait Disked {
    fn iter_disk(&self) -> usize;
}
impl Disked for UnspentOutputsPool {
    fn iter_disk(&self) -> usize {
        let mut n = 0;
        self.visit(|_| n += 1, |_| {});
        n
    }
}

impl UtxoSut {
    /// Listing by owner is filtering the listing.
    fn owned_consistent(&self, pool: &UnspentOutputsPool) -> bool {
        (1..=self.owners).all(|o| {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut own = BTreeSet::new();
                pool.visit_with_pkh(pkh(o), |_| {}, |(k, _)| { own.insert(ident(k)); });
                own
            }));
            let all: BTreeSet<u64> = pool.iter().filter(|(_, (v, _))| v.pkh == pkh(o)).map(|(k, _)| ident(&k)).collect();
            r.ok() == Some(all)
        })
    }
    fn observe(&mut self, mut ok: bool) -> Value {
        let item = |(k, (v, n)): &(OutputPointer, (ValueTransferOutput, u32))| {
            assert_eq!(v.time_lock, v.value * 3);
            json!([ident(k), owner(&v.pkh), v.value, n])
        };
        let pool = &self.pool;
        let all: Vec<Value> = pool.iter().map(|x| item(&x)).collect();
        let (mut disk, mut all2) = (vec![], vec![]);
        pool.visit(|x| disk.push(item(x)), |x| all2.push(item(x)));
        ok &= all == all2;
        // single reads agree with the listing
        for &k in &self.known {
            let p = pointer(k);
            let listed = all.iter().find(|x| x[0] == json!(k));
            ok &= pool.contains_key(&p) == listed.is_some();
            ok &= pool.get(&p).map(|v| json!([k, owner(&v.pkh), v.value, pool.included_in_block_number(&p).unwrap()])).as_ref() == listed;
            ok &= pool.included_in_block_number(&p).is_some() == listed.is_some();
        }
        let d = Self::building(pool, &self.blk);
        let seen: Vec<Value> = self.known.iter().filter_map(|k| d.get(&pointer(*k)).map(|v| json!([k, owner(&v.pkh), v.value]))).collect();
        let dated: Vec<Value> = self.known.iter().filter_map(|k| d.included_in_block_number(&pointer(*k)).map(|n| json!([k, n]))).collect();
        let mut own = vec![];
        for o in 1..=self.owners {
            let (mut conf, mut both) = (vec![], vec![]);
            pool.visit_with_pkh(pkh(o), |(k, _)| conf.push(ident(k)), |(k, _)| both.push(ident(k)));
            own.push(json!([o, both, conf]));
            let info = get_utxo_info(Some(pkh(o)), &OwnUnspentOutputsPool::new(), pool, 1, 3);
            ok &= info.utxos.len() == both.len() && info.utxos.iter().all(|m| both.contains(&ident(&m.output_pointer)) && m.utxo_mature == (pool.included_in_block_number(&m.output_pointer).unwrap() <= 3));
        }
        for k in NEAR {
            ok &= self.disk.get(k).unwrap() == Some(vec![1]);
        }
        // the copy of the pool in the old form has everything
        ok &= bincode::serialized_size(&OldUnspentOutputsPool::from(pool.clone())).unwrap() as usize >= all.len();
        json!({"res": "ok", "ok": ok, "all": all, "disk": disk, "mark": self.mark_on_disk(), "seen": seen, "dated": dated, "own": own})
    }
}
