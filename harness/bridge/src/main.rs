//! The bridge's actors, on an actor system, an Ethereum client and a Witnet node that wait for the script.
#![allow(dead_code, unused_imports)]
#[path = "../../common/run.rs"]
mod run;
#[path = "actix.rs"]
pub mod actor_system;
#[path = "web3.rs"]
pub mod ethereum;
pub mod world;

// what the actors know as crates
extern crate self as actix;
extern crate self as tokio;
extern crate self as web3;
extern crate self as web3_unit_converter;
extern crate self as witnet_net;
extern crate self as witnet_node;
extern crate self as witnet_util;
pub use actor_system::*;
pub use ethereum::{Error, Web3, contract, ethabi, transports, types};
pub use world::{Unit, client, storage_mngr, time, timestamp, utils};
type TransactionReceipt = types::TransactionReceipt;
include!(concat!(env!("OUT_DIR"), "/lib_fns.rs"));

pub mod config {
    use crate::types::H160;
    pub struct Gas {
        pub post_data_request: Option<u64>,
        pub report_result: Option<u64>,
    }
    pub struct Config {
        pub eth_from: H160,
        pub eth_from_balance_threshold: u64,
        pub eth_gas_limits: Gas,
        pub eth_max_batch_size: u16,
        pub eth_nanowit_wei_price: Option<u64>,
        pub eth_new_drs_polling_rate_ms: u64,
        pub eth_txs_confirmations: usize,
        pub eth_txs_timeout_ms: u64,
        pub witnet_dr_min_collateral_nanowits: u64,
        pub witnet_dr_max_fee_nanowits: u64,
        pub witnet_dr_max_result_size: usize,
        pub witnet_dr_max_value_nanowits: u64,
        pub witnet_dr_txs_polling_rate_ms: u64,
        pub witnet_dr_txs_timeout_ms: u64,
        pub storage_skip_first: Option<u64>,
    }
}
pub mod actors {
    #[path = "/repo/bridges/centralized-ethereum/src/actors/dr_database.rs"]
    pub mod dr_database;
    #[path = "/repo/bridges/centralized-ethereum/src/actors/dr_reporter.rs"]
    pub mod dr_reporter;
    #[path = "/repo/bridges/centralized-ethereum/src/actors/dr_sender.rs"]
    pub mod dr_sender;
    #[path = "/repo/bridges/centralized-ethereum/src/actors/eth_poller.rs"]
    pub mod eth_poller;
    #[path = "/repo/bridges/centralized-ethereum/src/actors/wit_poller.rs"]
    pub mod wit_poller;
}
use actors::{dr_database::*, dr_reporter::*, dr_sender::*, eth_poller::*, wit_poller::*};
use run::{Sut, arr, b, bad_op, s, u};
use serde_json::{Value, json};
use std::sync::Arc;
use world::*;

struct BridgeSut {
    world: World,
    batch: u16,
    skip: u64,
}
thread_local! { static HANDED: std::cell::RefCell<Vec<Vec<(u64, i64)>>> = const { std::cell::RefCell::new(vec![]) }; }
pub fn seen(m: &dyn std::any::Any) {
    if let Some(m) = m.downcast_ref::<DrReporterMsg>() {
        HANDED.with(|h| h.borrow_mut().push(m.reports.iter().map(|r| (r.dr_id.as_u64(), r.dr_timestamp)).collect()));
    }
}
const NAMES: [(&str, &str); 4] = [("eth", "EthPoller"), ("send", "DrSender"), ("wit", "WitPoller"), ("rep", "DrReporter")];

impl BridgeSut {
    fn new(cfg: &Value) -> Self {
        DISK.with(|d| d.borrow_mut().clear());
        NOW.with(|n| *n.borrow_mut() = 0);
        let b = BridgeSut { world: World::default(), batch: u(cfg, "batch") as u16, skip: u(cfg, "skip") };
        b.start();
        b
    }
    fn start(&self) {
        let old = actor_system::SYSTEM.with(|s| std::mem::take(&mut *s.borrow_mut()));
        drop(old);
        CALLS.with(|c| c.borrow_mut().clear());
        let config = config::Config {
            eth_from: Default::default(),
            eth_from_balance_threshold: 1,
            eth_gas_limits: config::Gas { post_data_request: None, report_result: Some(1_000_000) },
            eth_max_batch_size: self.batch,
            eth_nanowit_wei_price: Some(1),
            eth_new_drs_polling_rate_ms: 1000,
            eth_txs_confirmations: 1,
            eth_txs_timeout_ms: 1000,
            witnet_dr_min_collateral_nanowits: 1000,
            witnet_dr_max_fee_nanowits: 100,
            witnet_dr_max_result_size: 20,
            witnet_dr_max_value_nanowits: 10_000,
            witnet_dr_txs_polling_rate_ms: 1000,
            witnet_dr_txs_timeout_ms: 100_000,
            storage_skip_first: Some(self.skip),
        };
        let web3 = Web3(std::marker::PhantomData);
        let contract = Arc::new(contract::Contract(Default::default(), std::marker::PhantomData));
        let client = Actor::start(client::tcp::JsonRpcClient);
        register(DrDatabase::default().start());
        actor_system::settle();
        register(EthPoller::from_config(&config, web3.clone(), contract.clone()).start());
        register(DrReporter::from_config(&config, web3, contract).start());
        register(DrSender::from_config(&config, client.clone()).start());
        register(WitPoller::from_config(&config, client).start());
        actor_system::settle();
    }
    fn go(&mut self, op: &Value) -> Value {
        let owner = NAMES.iter().find(|n| n.0 == s(op, "a")).unwrap().1;
        let i = op["i"].as_u64().unwrap_or(1) as usize - 1;
        let call = CALLS.with(|c| {
            let mut c = c.borrow_mut();
            let mut mine: Vec<_> = c.iter().enumerate().filter(|x| x.1.owner == owner).map(|x| (x.1.task, x.0)).collect();
            mine.sort();
            mine.get(i).map(|x| c.remove(x.1))
        });
        match call {
            None => {
                let t = actor_system::SYSTEM.with(|s| {
                    let mut s = s.borrow_mut();
                    s.timers.iter().position(|t| t.0 == owner).map(|k| s.timers.remove(k))
                });
                match t {
                    None => return json!(false),
                    Some(t) => (t.1)(),
                }
            }
            Some(c) => {
                // only a transaction can be reverted, or not be heard of
                let how = match s(op, "how") {
                    "reverted" | "expired" | "mined" if c.method != "reportResultBatch" => "refused",
                    how => how,
                };
                let r = match how {
                    "ok" => Ok(self.world.reply(&c.method, &c.params)),
                    "refused" => Err(Ask::Refused),
                    "unreachable" => Err(Ask::Unreachable),
                    // a transaction that fails, or nobody hears of
                    "reverted" => Ok(json!({"status": 0, "logs": []})),
                    "expired" => Err(Ask::Expired),
                    "mined" => {
                        self.world.reply(&c.method, &c.params);
                        Err(Ask::Expired)
                    }
                    _ => bad_op(op),
                };
                *c.slot.borrow_mut() = Some(r);
            }
        }
        json!(true)
    }
    fn look(&self) -> Value {
        let mut o = json!({});
        for (short, owner) in NAMES {
            let mut v: Vec<_> = CALLS.with(|c| c.borrow().iter().filter(|c| c.owner == owner).map(|c| (c.task, self.world.show(&c.method, &c.params))).collect());
            v.sort_by_key(|x| x.0);
            o[short] = v.into_iter().map(|x| x.1).collect();
        }
        let timers: Vec<_> = actor_system::SYSTEM.with(|s| NAMES.iter().filter(|n| s.borrow().timers.iter().any(|t| t.0 == n.1)).map(|n| n.0).collect());
        o["timers"] = json!(timers);
        // what is on the disk, and what the database says
        let disk = DISK.with(|d| d.borrow().values().next().cloned().unwrap_or(json!({"dr": {}, "max_dr_id": "0x0"})));
        let id = |x: &str| u64::from_str_radix(x.trim_start_matches("0x"), 16).unwrap();
        let hash = |v: &Value| if v.is_null() { 0 } else { self.world.tx(&serde_json::from_value(v.clone()).unwrap()) };
        let mut db = json!({});
        for (k, v) in disk["dr"].as_object().unwrap() {
            db[format!("q{}", id(k))] = json!({"st": v["dr_state"], "tx": hash(&v["dr_tx_hash"]), "ts": v["dr_tx_creation_timestamp"].as_i64().unwrap_or(0),
                "same": v["dr_bytes"] == json!([]) || self.world.queries.get(&id(k)).is_some_and(|q| json!(q.bytes) == v["dr_bytes"])});
        }
        o["db"] = db;
        o["max"] = json!(id(disk["max_dr_id"].as_str().unwrap()));
        let a = DrDatabase::from_registry();
        fn now<T: 'static>(mut f: BoxFuture<Result<T, MailboxError>>) -> T {
            match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
                std::task::Poll::Ready(x) => x.unwrap(),
                _ => panic!("the database waits"),
            }
        }
        let mut new: Vec<_> = now(a.send(GetAllNewDrs)).unwrap().into_iter().map(|x| x.0.as_u64()).collect();
        let mut pending: Vec<_> = now(a.send(GetAllPendingDrs)).unwrap().into_iter().map(|x| json!([x.0.as_u64(), self.world.tx(&x.2), x.3])).collect();
        new.sort();
        pending.sort_by_key(|x| x[0].as_u64());
        let (n, p, f, d) = now(a.send(CountDrsPerState)).unwrap();
        o["mem"] = json!({"new": new, "pending": pending, "counts": [n, p, f, d], "max": now(a.send(GetLastDrId)).unwrap().as_u64()});
        o["chain"] = self.world.queries.values().map(|q| json!({"st": q.status, "res": self.world.result(q)})).collect();
        o["sent"] = self.world.sent.iter().map(|s| s.told.clone()).collect();
        o
    }
}

impl Sut for BridgeSut {
    fn step(&mut self, op: &Value) -> Value {
        let mut done = json!(true);
        match s(op, "op") {
            "post" => self.world.post(op),
            "settle" => {
                if let Some(q) = self.world.queries.get_mut(&u(op, "q")) {
                    q.status = u(op, "to");
                }
            }
            "mine" => self.world.mine(u(op, "n") as usize - 1, s(op, "res"), u(op, "epoch") as u32, u(op, "round") as u16),
            "time" => NOW.with(|n| *n.borrow_mut() += u(op, "by") as i64),
            "go" => done = self.go(op),
            "crash" => self.start(),
            _ => bad_op(op),
        }
        actor_system::settle();
        // what was handed to the reporter by the way, in the order in which it was
        let order: Vec<Value> = HANDED.with(|h| h.take()).into_iter().flatten().map(|(q, ts)| json!([q, ts])).collect();
        let mut o = self.look();
        o["order"] = json!(order);
        o["done"] = done;
        o
    }
}

fn main() {
    run::run(|component, cfg| match component {
        "bridge" => Box::new(BridgeSut::new(cfg)),
        x => panic!("unknown component {x}"),
    });
}
