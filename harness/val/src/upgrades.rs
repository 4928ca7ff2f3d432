//! Upgrades by vote, the clock and the versions of the protocol.
use crate::run::*;
use serde_json::{Value, json};
use std::collections::HashSet;
use witnet_data_structures::{
    chain::{
        ConsensusConstants, ConsensusConstantsWit2, Environment, EpochConstants,
        tapi::{ActiveWips, BitVotesCounter, TapiEngine, after_first_hard_fork, after_second_hard_fork, after_third_hard_fork, current_active_wips, in_emergency_period},
    },
    clear_protocol_info, get_protocol_info, get_protocol_version, get_protocol_version_activation_epoch, get_protocol_version_period, load_protocol_info,
    proto::versioning::{
        ProtocolVersion,
        ProtocolVersion::{V1_7, V1_8, V2_0, V2_1},
    },
    refresh_protocol_version, register_protocol_version, set_environment, set_protocol_version,
};
use witnet_validations::validations::{block_reward, total_block_reward};

fn list<'a>(v: &'a Value, k: &str) -> &'a Vec<Value> {
    v[k].as_array().unwrap()
}
fn n32(v: &Value) -> u32 {
    v.as_u64().unwrap() as u32
}
fn environment(name: &str) -> Environment {
    match name {
        "main" => Environment::Mainnet,
        "test" => Environment::Testnet,
        _ => Environment::Development,
    }
}

#[derive(Default)]
pub struct TapiSut {
    t: TapiEngine,
}
fn rules(a: &ActiveWips) -> Vec<&'static str> {
    [
        ("8", a.wip_0008()),
        ("9", a.wips_0009_0011_0012()),
        ("fork3", a.third_hard_fork()),
        ("14", a.wip0014()),
        ("16", a.wip0016()),
        ("17", a.wip0017()),
        ("18", a.wip0018()),
        ("19", a.wip0019()),
        ("20", a.wip0020()),
        ("21", a.wip0021()),
        ("22", a.wip0022()),
        ("23", a.wip0023()),
        ("24", a.wip0024()),
        ("25", a.wip0025()),
        ("26", a.wip0026()),
        ("27", a.wip0027()),
        ("28", a.wip0028()),
    ]
    .into_iter()
    .filter(|x| x.1)
    .map(|x| x.0)
    .collect()
}
fn row(b: usize, x: &BitVotesCounter) -> Value {
    json!([b, x.wip, x.init, x.period, x.end, x.votes])
}
impl TapiSut {
    /// What is in the slots, seen one by one
    fn slots(&self) -> Vec<(usize, BitVotesCounter)> {
        let all = self.t.bit_tapi_counter.info(&Default::default());
        let out: Vec<_> = all.into_iter().map(|x| (x.bit, x)).collect();
        for (b, x) in &out {
            // the same by place and epoch
            assert_eq!(self.t.bit_tapi_counter.get(*b, &x.init), if x.end > x.init { Some(x) } else { None });
            assert_eq!(self.t.bit_tapi_counter.get(*b, &x.end), None);
            let fresh = BitVotesCounter { votes: 0, ..x.clone() };
            assert!(self.t.bit_tapi_counter.contains(*b, &fresh));
            assert!(!self.t.bit_tapi_counter.contains(*b, &BitVotesCounter { period: x.period + 1, ..fresh.clone() }));
            assert!(!self.t.bit_tapi_counter.contains(b + 1, &fresh));
        }
        for b in (0..34).filter(|b| out.iter().all(|x| x.0 != *b)) {
            assert!((0..60).all(|e| self.t.bit_tapi_counter.get(b, &e).is_none()));
        }
        assert_eq!(self.t.bit_tapi_counter.is_empty(), out.is_empty());
        out
    }
    fn seen(&self) -> Value {
        let mut force: Vec<_> = self.t.wip_activation.iter().map(|(k, v)| json!([k, v])).collect();
        force.sort_by_key(|x| x.to_string());
        json!({
            "slots": self.slots().iter().map(|(b, x)| row(*b, x)).collect::<Vec<_>>(),
            "pending": self.t.bit_tapi_counter.info(&self.t.wip_activation).iter().map(|x| row(x.bit, x)).collect::<Vec<_>>(),
            "force": force, "len": self.t.bit_tapi_counter.len(), "last": self.t.bit_tapi_counter.last_epoch(),
        })
    }
}
impl Sut for TapiSut {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            "insert" => self.t.bit_tapi_counter.insert(BitVotesCounter {
                votes: 0,
                period: u(op, "period") as u32,
                wip: s(op, "w").to_string(),
                init: u(op, "init") as u32,
                end: u(op, "end") as u32,
                bit: u(op, "b") as usize,
            }),
            "remove" => self.t.bit_tapi_counter.remove(u(op, "b") as usize),
            "vote" => {
                let bits = list(op, "bits").iter().fold(0u32, |a, b| a | 1 << b.as_u64().unwrap());
                let avoid: HashSet<String> = list(op, "avoid").iter().map(|x| x.as_str().unwrap().to_string()).collect();
                self.t.update_bit_counter(bits, u(op, "e") as u32, u(op, "at") as u32, &avoid);
            }
            "load" => {
                let (new, old) = self.t.initialize_wip_information(environment(s(op, "env")));
                let mut o = self.seen();
                o["new"] = json!(if new == u32::MAX { -1 } else { i64::from(new) });
                o["old"] = json!(old.into_iter().collect::<Vec<_>>());
                return o;
            }
            "ask" => {
                let mut o = self.seen();
                let eps: Vec<u32> = list(op, "eps").iter().map(n32).collect();
                let names: HashSet<String> =
                    self.slots().into_iter().map(|x| x.1.wip).chain(self.t.wip_activation.keys().cloned()).chain(["none".to_string()]).collect();
                let each = |f: &dyn Fn(u32) -> Value| eps.iter().map(|e| f(*e)).collect::<Vec<_>>();
                o["voting"] = json!(each(&|e| json!(names.iter().filter(|w| self.t.in_voting_range(e, w)).collect::<Vec<_>>())));
                let active = |e| ActiveWips { active_wips: self.t.wip_activation.clone(), block_epoch: e };
                o["on"] = json!(each(&|e| json!(names.iter().filter(|w| self.t.wip_activation.get(*w).is_some_and(|x| e >= *x)).collect::<Vec<_>>())));
                o["rules"] = json!(each(&|e| json!(rules(&active(e)))));
                let forks = |e, env| json!([after_first_hard_fork(e, env), after_second_hard_fork(e, env), after_third_hard_fork(e, env)]);
                o["main"] = json!(each(&|e| forks(e, Environment::Mainnet)));
                assert!(each(&|e| forks(e, Environment::Development)) == each(&|e| forks(e, Environment::Testnet)));
                o["test"] = json!(each(&|e| forks(e, Environment::Testnet)));
                assert!(eps.iter().all(|e| in_emergency_period(*e, Environment::Testnet).is_none() && in_emergency_period(*e, Environment::Development).is_none()));
                o["emergency"] = json!(each(&|e| json!(
                    in_emergency_period(e, Environment::Mainnet).unwrap_or_default().iter().map(|p| p.bech32(Environment::Mainnet)).collect::<Vec<_>>()
                )));
                o["now"] = json!(each(&|e| {
                    let mut a = current_active_wips();
                    a.set_epoch(e);
                    json!(rules(&a))
                }));
                return o;
            }
            x => panic!("{x}"),
        }
        self.seen()
    }
}

pub struct ClockSut {
    c: EpochConstants,
}
fn word(v: &Value) -> u64 {
    u64::from_be_bytes(v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<_>>().try_into().unwrap())
}
fn bytes(n: i64) -> Vec<u8> {
    n.to_be_bytes().to_vec()
}
fn told<T: Into<i64>, E>(r: Result<T, E>) -> Vec<u8> {
    r.map(|x| bytes(x.into())).unwrap_or_default()
}
impl ClockSut {
    pub fn new(cfg: &Value) -> Self {
        let c = EpochConstants { checkpoint_zero_timestamp: word(&cfg["z"]) as i64, checkpoints_period: u(cfg, "p") as u16, ..EpochConstants::default() };
        Self { c }
    }
}
impl Sut for ClockSut {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            "begin" => json!({"ok": self.c.set_values_for_wit2(u(op, "p") as u16, u(op, "e") as u32).is_ok()}),
            _ => json!({
                "epochs": list(op, "es").iter().map(n32).map(|e| {
                    let t = self.c.epoch_timestamp(e);
                    json!([told(t.map(|x| x.0)), told(self.c.block_mining_timestamp(e)), told(self.c.get_epoch_period(e))])
                }).collect::<Vec<_>>(),
                "at": list(op, "ts").iter().map(|t| told(self.c.epoch_at(word(t) as i64))).collect::<Vec<_>>(),
                "pay": list(op, "rs").iter().map(|r| {
                    let (first, halving) = (word(&r["first"]), u(r, "halving") as u32);
                    [bytes(block_reward(u(r, "e") as u32, first, halving) as i64), bytes(total_block_reward(first, halving) as i64)]
                }).collect::<Vec<_>>(),
            }),
        }
    }
}

const ALL: [ProtocolVersion; 4] = [V1_7, V1_8, V2_0, V2_1];
pub struct VersionsSut {
    k: ConsensusConstants,
}
fn number(v: ProtocolVersion) -> usize {
    1 + ALL.iter().position(|x| *x == v).unwrap()
}
impl VersionsSut {
    pub fn new(cfg: &Value) -> Self {
        clear_protocol_info();
        set_environment(environment(cfg["env"].as_str().unwrap_or("main")));
        Self { k: ConsensusConstants { checkpoint_zero_timestamp: u(cfg, "z") as i64, checkpoints_period: u(cfg, "p") as u16, ..Default::default() } }
    }
    fn seen(&self) -> Value {
        let info = get_protocol_info();
        assert_eq!(info.current_version, ProtocolVersion::guess());
        assert_eq!(info.current_version, get_protocol_version(None));
        let starts: Vec<i64> = ALL.iter().map(|v| get_protocol_version_activation_epoch(*v)).map(|e| if e == u32::MAX { -1 } else { i64::from(e) }).collect();
        for (v, e) in ALL.iter().zip(&starts) {
            assert_eq!(info.all_versions.try_get_activation_epoch(*v).map_or(-1, i64::from), *e);
        }
        json!({
            "now": number(info.current_version), "start": starts, "secs": ALL.map(get_protocol_version_period),
            "began": ALL.map(|v| info.derive_activation_timestamp(v, &self.k).unwrap_or(-1)),
        })
    }
}
impl Sut for VersionsSut {
    fn step(&mut self, op: &Value) -> Value {
        let v = || ALL[u(op, "v") as usize - 1];
        match s(op, "op") {
            "register" => register_protocol_version(v(), u(op, "e") as u32, u(op, "s") as u16),
            "clear" => clear_protocol_info(),
            "use" => set_protocol_version(v()),
            "refresh" => refresh_protocol_version(u(op, "e") as u32),
            "reload" => {
                let info = get_protocol_info();
                clear_protocol_info();
                load_protocol_info(info);
            }
            _ => {
                let k = ConsensusConstantsWit2 { checkpoint_zero_timestamp: self.k.checkpoint_zero_timestamp, checkpoints_period: self.k.checkpoints_period, ..Default::default() };
                let es: Vec<u32> = list(op, "es").iter().map(n32).collect();
                let wit = |n: u64| if n % 1_000_000_000 == 0 { (n / 1_000_000_000) as i64 } else { -1 };
                let unknown = get_protocol_version_activation_epoch(V2_0) == u32::MAX;
                let mut old = current_active_wips();
                let recent = old.clone();
                old.set_epoch(0);
                return json!({
                    "seen": self.seen(),
                    "at": es.iter().map(|e| number(get_protocol_version(Some(*e)))).collect::<Vec<_>>(),
                    "rules": es.iter().map(|e| json!([
                        k.get_maximum_stake_block_weight(*e), k.get_maximum_unstake_block_weight(*e), k.get_unstaking_delay_seconds(*e),
                        wit(k.get_validator_min_stake_nanowits(*e)), wit(k.get_validator_max_stake_nanowits(*e)), wit(k.get_validator_block_reward(*e)),
                    ])).collect::<Vec<_>>(),
                    "factors": list(op, "fs").iter().map(|f| k.get_replication_factor(n32(&f[0]), n32(&f[1]))).collect::<Vec<_>>(),
                    "fixed": [i64::from(k.get_checkpoints_period_wit2()), wit(k.get_wit2_minimum_total_stake_nanowits()), i64::from(k.get_wit2_activation_delay_epochs()),
                              i64::from(k.get_collateral_age(&recent)), i64::from(k.get_collateral_age(&old))],
                    "wit2": if unknown { -1 } else { k.get_checkpoint_zero_timestamp_wit2() },
                    "order": ALL.map(|a| ALL.map(|b| a.partial_cmp(&b).map_or(9, |o| o as i8))),
                    "next": ALL.map(|a| number(a.next())), "prev": ALL.map(|a| number(a.prev())),
                });
            }
        }
        self.seen()
    }
}
