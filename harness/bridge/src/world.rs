//! The contract on Ethereum, the node of Witnet, the clock and the disk.
use crate::actix::{self, ResponseFuture};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::ProtobufConvert;
use witnet_data_structures::proto::versioning::{ProtocolInfo, ProtocolVersion};
use witnet_data_structures::transaction::*;

#[derive(Clone, Debug)]
pub enum Ask {
    Refused,
    Unreachable,
    Expired,
}
type Slot = Rc<RefCell<Option<Result<Value, Ask>>>>;
pub struct Call {
    pub owner: &'static str,
    pub task: usize,
    pub method: String,
    pub params: Value,
    pub slot: Slot,
}
thread_local! {
    pub static CALLS: RefCell<Vec<Call>> = RefCell::default();
    static EXPIRED: RefCell<bool> = const { RefCell::new(false) };
    pub static DISK: RefCell<HashMap<Vec<u8>, Value>> = RefCell::default();
    pub static NOW: RefCell<i64> = const { RefCell::new(0) };
}
pub struct Waiting(Slot, bool);
impl Future for Waiting {
    type Output = Result<Value, Ask>;
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.1 {
            return Poll::Pending;
        }
        let r = self.0.borrow_mut().take();
        match r {
            None => Poll::Pending,
            Some(Err(Ask::Expired)) => {
                self.1 = true;
                EXPIRED.with(|e| *e.borrow_mut() = true);
                Poll::Pending
            }
            Some(r) => Poll::Ready(r),
        }
    }
}
impl Drop for Waiting {
    fn drop(&mut self) {
        let _ = CALLS.try_with(|c| c.borrow_mut().retain(|x| !Rc::ptr_eq(&x.slot, &self.0)));
    }
}
pub fn ask(method: &str, params: Value) -> Waiting {
    let slot = Slot::default();
    let (owner, task) = actix::RUNNING.with(|n| *n.borrow());
    CALLS.with(|c| c.borrow_mut().push(Call { owner, task, method: method.into(), params, slot: slot.clone() }));
    Waiting(slot, false)
}

pub mod time {
    use super::*;
    pub use std::time::Duration;
    #[derive(Debug)]
    pub struct Elapsed;
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "deadline has elapsed")
        }
    }
    pub async fn timeout<F: Future>(_d: Duration, f: F) -> Result<F::Output, Elapsed> {
        let mut f = Box::pin(f);
        std::future::poll_fn(move |cx| match f.as_mut().poll(cx) {
            Poll::Ready(x) => Poll::Ready(Ok(x)),
            Poll::Pending if EXPIRED.with(|e| e.replace(false)) => Poll::Ready(Err(Elapsed)),
            Poll::Pending => Poll::Pending,
        })
        .await
    }
}
pub mod client {
    pub mod tcp {
        use super::super::*;
        #[derive(Default)]
        pub struct JsonRpcClient;
        impl actix::Actor for JsonRpcClient {
            type Context = actix::Context<Self>;
        }
        #[derive(Debug)]
        pub enum Error {
            RequestFailed { message: String },
        }
        impl std::fmt::Display for Error {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{self:?}")
            }
        }
        impl actix::Handler<jsonrpc::Request> for JsonRpcClient {
            type Result = ResponseFuture<Result<Value, Error>>;
            fn handle(&mut self, m: jsonrpc::Request, _c: &mut Self::Context) -> Self::Result {
                let w = ask(&m.method, m.params);
                ResponseFuture(Box::pin(async move {
                    w.await.map_err(|e| {
                        if matches!(e, Ask::Unreachable) {
                            actix::UNREACHABLE.with(|u| *u.borrow_mut() = true);
                        }
                        Error::RequestFailed { message: "refused".into() }
                    })
                }))
            }
        }
        pub mod jsonrpc {
            use super::*;
            pub struct Request {
                pub method: String,
                pub params: Value,
            }
            impl Request {
                pub fn method(m: impl Into<String>) -> Self {
                    Request { method: m.into(), params: Value::Null }
                }
                pub fn timeout(self, _d: std::time::Duration) -> Self {
                    self
                }
                pub fn params<T: Serialize>(mut self, p: T) -> Result<Self, serde_json::Error> {
                    self.params = serde_json::to_value(p)?;
                    Ok(self)
                }
            }
            impl actix::Message for Request {
                type Result = Result<Value, Error>;
            }
        }
    }
}
pub mod storage_mngr {
    use super::*;
    pub fn put<K: AsRef<[u8]>, V: Serialize>(k: &K, v: &V) -> impl Future<Output = Result<(), String>> + use<K, V> {
        let (k, v) = (k.as_ref().to_vec(), serde_json::to_value(v).unwrap());
        async move {
            DISK.with(|d| d.borrow_mut().insert(k, v));
            Ok(())
        }
    }
    pub fn get<K: AsRef<[u8]>, V: DeserializeOwned>(k: &K) -> impl Future<Output = Result<Option<V>, String>> + use<K, V> {
        let v = DISK.with(|d| d.borrow().get(k.as_ref()).cloned());
        async move { Ok(v.map(|v| serde_json::from_value(v).unwrap())) }
    }
}
pub mod utils {
    pub fn stop_system_if_panicking(_: &str) {}
}
pub mod timestamp {
    pub fn get_timestamp() -> i64 {
        super::NOW.with(|n| *n.borrow())
    }
}
pub struct Unit;
#[allow(non_snake_case)]
impl Unit {
    pub fn Wei(x: &str) -> Amount {
        Amount(x.into())
    }
}
pub struct Amount(String);
impl Amount {
    pub fn to_eth_str(&self) -> Result<String, String> {
        Ok(self.0.clone())
    }
}

// ------------------------------------------------------------------ the world
pub struct Query {
    pub status: u64,
    pub bytes: Vec<u8>,
    pub result: Value,
}
pub struct Sent {
    pub tx: DRTransaction,
    pub told: Value,
    pub info: DataRequestInfo,
    pub epoch: u32,
}
#[derive(Default)]
pub struct World {
    pub queries: BTreeMap<u64, Query>,
    pub sent: Vec<Sent>,
}
pub const ZERO: i64 = 1000;
pub const PERIOD: u16 = 45;
pub const FORK: u32 = 100;
pub const NEW_PERIOD: u16 = 20;

fn request(id: u64, op: &Value) -> Vec<u8> {
    let n = |k: &str| op[k].as_u64().unwrap();
    let form = op["form"].as_str().unwrap();
    let retrieve = RADRetrieve { kind: RADType::HttpGet, url: "http://127.0.0.1:8000".into(), script: if form == "script" { vec![7] } else { vec![128] }, body: vec![], headers: vec![] };
    let o = DataRequestOutput {
        data_request: RADRequest {
            time_lock: 0,
            retrieve: vec![retrieve],
            aggregate: RADAggregate { filters: vec![], reducer: 3 },
            tally: RADTally { filters: vec![], reducer: 3 },
        },
        witness_reward: n("r"),
        witnesses: n("w") as u16,
        commit_and_reveal_fee: id,
        min_consensus_percentage: n("pct") as u32,
        collateral: n("c"),
    };
    if form == "junk" { vec![1, 2, 3, 4] } else { o.to_pb_bytes().unwrap() }
}

impl World {
    pub fn post(&mut self, op: &Value) {
        let id = self.queries.len() as u64 + 1;
        self.queries.insert(id, Query { status: 1, bytes: request(id, op), result: json!([]) });
    }
    pub fn tx(&self, h: &Hash) -> i64 {
        if h.as_ref() == [0; 32] {
            return 0;
        }
        self.sent.iter().position(|s| s.tx.hash() == *h).map(|x| x as i64 + 1).unwrap_or(-1)
    }
    pub fn mine(&mut self, n: usize, res: &str, epoch: u32, round: u16) {
        let Some(s) = self.sent.get_mut(n) else { return };
        if s.info.tally.is_some() {
            return;
        }
        s.epoch = epoch;
        s.info.block_hash_dr_tx = Some(Hash::SHA256([n as u8 + 1; 32]));
        s.info.current_commit_round = round;
        if !res.is_empty() {
            let mut t = TallyTransaction::default();
            t.dr_pointer = s.tx.hash();
            t.tally = hex::decode(res).unwrap();
            s.info.tally = Some(t);
            s.info.current_stage = None;
        }
    }
    fn report(&mut self, reports: &Value, dry: bool) -> Value {
        let mut logs = vec![];
        for r in reports.as_array().unwrap() {
            let id = r[0].as_u64().unwrap();
            let q = self.queries.get_mut(&id);
            match q {
                Some(q) if q.status == 1 && !dry => {
                    q.status = 2;
                    q.result = r.clone();
                }
                Some(q) if q.status == 1 => {}
                _ => {
                    logs.push(json!({"topic": 8, "data": [id, "noise"]}));
                    logs.push(json!({"topic": 9, "data": [id, "not in Posted status"]}));
                }
            }
        }
        json!({"status": 1, "logs": logs})
    }
    /// The answer of the world to a call.
    pub fn reply(&mut self, method: &str, p: &Value) -> Value {
        match method {
            "getNextQueryId" => json!(self.queries.len() + 1),
            "getQueryStatusBatch" => p[0].as_array().unwrap().iter().map(|i| json!(self.queries.get(&i.as_u64().unwrap()).map_or(0, |q| q.status))).collect(),
            "extractWitnetDataRequests" => p[0].as_array().unwrap().iter().map(|i| json!(hex::encode(&self.queries[&i.as_u64().unwrap()].bytes))).collect(),
            "getPkh" => json!("wit1"),
            "sendRequest" => {
                let dro: DataRequestOutput = serde_json::from_value(p["dro"].clone()).unwrap();
                let mut h = [0; 32];
                h[31] = self.sent.len() as u8 + 1;
                let input = Input::new(OutputPointer { transaction_id: Hash::SHA256(h), output_index: 0 });
                let tx = DRTransaction::new(DRTransactionBody::new(vec![input], dro, vec![]), vec![]);
                let v = serde_json::to_value(&tx).unwrap();
                self.sent.push(Sent { tx, told: self.told(p), info: DataRequestInfo::default(), epoch: 0 });
                v
            }
            "getConsensusConstants" => serde_json::to_value(ConsensusConstants { checkpoint_zero_timestamp: ZERO, checkpoints_period: PERIOD, ..Default::default() }).unwrap(),
            "protocol" => {
                let mut i = ProtocolInfo::default();
                i.register(0, ProtocolVersion::V1_7, PERIOD);
                i.register(50, ProtocolVersion::V1_8, PERIOD);
                i.register(FORK, ProtocolVersion::V2_0, NEW_PERIOD);
                i.current_version = ProtocolVersion::V2_0;
                serde_json::to_value(i).unwrap()
            }
            "dataRequestReport" => {
                let h: Hash = serde_json::from_value(p[0].clone()).unwrap();
                let n = self.tx(&h);
                if n <= 0 { Value::Null } else { serde_json::to_value(&self.sent[n as usize - 1].info).unwrap() }
            }
            "getBlock" => {
                let h: Hash = serde_json::from_value(p[0].clone()).unwrap();
                let s = self.sent.iter().find(|s| s.info.block_hash_dr_tx == Some(h)).unwrap();
                let mut b = Block::default();
                b.block_header.beacon.checkpoint = s.epoch;
                serde_json::to_value(b).unwrap()
            }
            "balance" => json!(1_000_000),
            "gas_price" => json!(7),
            "estimate_gas" => json!(21000),
            "estimateReportEarnings" => json!([2, 1]),
            "reportResultBatch" => self.report(&p[0], false),
            x => json!({"unknown": x}),
        }
    }
    fn told(&self, p: &Value) -> Value {
        json!({"q": p["dro"]["commit_and_reveal_fee"], "collateral": p["dro"]["collateral"], "reward": p["dro"]["witness_reward"], "witnesses": p["dro"]["witnesses"], "fee": p["fee"]})
    }
    fn reports(&self, p: &Value) -> Value {
        p.as_array().unwrap().iter().map(|r| {
            let mut h = [0; 32];
            h.copy_from_slice(&hex::decode(r[2].as_str().unwrap()).unwrap());
            json!({"q": r[0], "ts": r[1], "tx": self.tx(&Hash::SHA256(h)), "res": r[3]})
        }).collect()
    }
    pub fn result(&self, q: &Query) -> Value {
        if q.result == json!([]) { json!([]) } else { self.reports(&json!([q.result])) }
    }
    /// How a call looks to the specification.
    pub fn show(&self, method: &str, p: &Value) -> Value {
        let hash = |v: &Value| serde_json::from_value::<Hash>(v.clone()).unwrap();
        let d = match method {
            "getQueryStatusBatch" | "extractWitnetDataRequests" => json!({"ids": p[0]}),
            "sendRequest" => self.told(p),
            "dataRequestReport" => json!({"tx": self.tx(&hash(&p[0]))}),
            "getBlock" => json!({"tx": self.sent.iter().position(|s| s.info.block_hash_dr_tx == Some(hash(&p[0]))).map_or(0, |x| x + 1)}),
            "estimate_gas" | "reportResultBatch" => json!({"reports": self.reports(&p[0])}),
            "estimateReportEarnings" => json!({"ids": p[0]}),
            _ => json!({"ids": []}),
        };
        json!({"m": method, "d": d})
    }
}
