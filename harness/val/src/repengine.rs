//! The reputation engine, how blocks change it, and the eligibility that it gives.
use crate::consolidate::{ReputationInfo, RequestResult, update_reputation};
use crate::elig::{pkh, target};
use crate::run::*;
use crate::superblock::{ids, key, sha};
use serde_json::{Value, json};
use std::cmp::Ordering;
use witnet_data_structures::chain::{tapi::ActiveWips, *};
use witnet_data_structures::proto::versioning::ProtocolVersion;
use witnet_data_structures::staking::prelude::Power;
use witnet_validations::eligibility::legacy::*;
use witnet_validations::validations::compare_block_candidates;

fn num(p: &PublicKeyHash) -> u64 {
    u64::from(p.as_ref()[0])
}
fn frac(p: f64) -> i64 {
    (p * 65536.0).min(1e9) as i64
}

pub struct RepSut {
    eng: ReputationEngine,
    keys: AltKeys,
    k: ConsensusConstants,
}
impl RepSut {
    pub fn new(cfg: &Value) -> Self {
        let c = &cfg["k"];
        let k = ConsensusConstants {
            reputation_issuance: u(c, "iss") as u32,
            reputation_issuance_stop: u(c, "stop") as u32,
            reputation_expire_alpha_diff: u(c, "life") as u32,
            reputation_penalization_factor: 0.5f64.powi(u(c, "pow") as i32),
            ..crate::world::constants()
        };
        Self { eng: ReputationEngine::new(u(cfg, "cap") as usize), keys: AltKeys::default(), k }
    }
    fn reloaded(&self) -> ReputationEngine {
        bincode::deserialize(&bincode::serialize(&self.eng).unwrap()).unwrap()
    }
    fn ask(&self, op: &Value, o: &mut Value) {
        let known: Vec<u64> = (0..40).collect();
        let mut best = known.clone();
        best.sort_by_key(|n| std::cmp::Reverse(sha(&[pkh(*n).as_ref(), &self.eng.current_alpha().0.to_be_bytes()])));
        o["given"] = json!(best);
        // what is asked first fills the cache
        let list = |e: &ReputationEngine| e.get_rep_ordered_ars_list().iter().map(num).collect::<Vec<_>>();
        let elig = |e: &ReputationEngine| known.iter().map(|n| (*n, e.get_eligibility(&pkh(*n)))).filter(|x| x.1 != 0).collect::<Vec<_>>();
        let factors = |e: &ReputationEngine| {
            ids(op, "ns").iter().map(|n| match e.threshold_factor(*n as u16) {
                u32::MAX => -1,
                f => i64::from(f),
            }).collect::<Vec<_>>()
        };
        let mut same = true;
        match u(op, "first") {
            0 => o["list"] = json!(list(&self.eng)),
            1 => o["elig"] = json!(elig(&self.eng)),
            2 => o["factors"] = json!(factors(&self.eng)),
            _ => o["total"] = json!(self.eng.total_active_reputation()),
        }
        o["list"] = json!(list(&self.eng));
        o["elig"] = json!(elig(&self.eng));
        o["factors"] = json!(factors(&self.eng));
        o["total"] = json!(self.eng.total_active_reputation());
        let fresh = self.reloaded();
        same &= elig(&fresh) == elig(&self.eng) && list(&fresh) == list(&self.eng) && factors(&fresh) == factors(&self.eng);
        same &= fresh.total_active_reputation() == self.eng.total_active_reputation();
        same &= known.iter().all(|n| self.eng.is_ars_member(&pkh(*n)) == list(&self.eng).contains(n));
        o["same"] = json!(same);
        let (mut targets, mut approx) = (vec![], vec![]);
        for q in arr(op, "qs") {
            let mut w = ActiveWips::default();
            if b(q, "wip16") {
                w.insert_wip("WIP0014-0016", 0);
            }
            if b(q, "fork3") {
                w.insert_wip("THIRD_HARD_FORK", 0);
            }
            let (h, p) = calculate_reppoe_threshold(&self.eng, &pkh(u(q, "id")), u(q, "n") as u16, u(q, "diff") as u32, &w);
            let (t, rest) = target(h);
            targets.push(if rest == 255 { t } else { vec![] });
            approx.push(frac(p));
        }
        o["targets"] = json!(targets);
        o["approx"] = json!(approx);
        o["chance"] = json!(arr(op, "ms").iter().map(|m| {
            let p = calculate_mining_probability(&self.eng, pkh(u(m, "id")), u(m, "rf") as u32, u(m, "bf") as u32);
            (p * 32768.0).clamp(-1e9, 1e9) as i64
        }).collect::<Vec<_>>());
    }
}
impl Sut for RepSut {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            "block" => {
                let info = ReputationInfo {
                    alpha_diff: Alpha(u(op, "diff") as u32),
                    result_count: arr(op, "rs").iter().map(|r| {
                        (pkh(u(r, "id")), RequestResult { truths: u(r, "t") as u32, lies: u(r, "l") as u32, errors: u(r, "e") as u32 })
                    }).collect(),
                };
                update_reputation(&mut self.eng, &mut self.keys, &self.k, pkh(u(op, "miner")), info, log::Level::Debug, u(op, "ep") as u32, pkh(u(op, "own")));
            }
            "gain" => {
                let d: Vec<_> = arr(op, "d").iter().map(|x| (pkh(u(x, "id")), Reputation(u(x, "v") as u32))).collect();
                let _ = self.eng.trs_mut().gain(Alpha(u(op, "e") as u32), d);
            }
            "penalize" => {
                let ps: Vec<_> = arr(op, "ps").iter().map(|x| (pkh(u(x, "id")), u(x, "n") as u32, u(x, "d") as u32)).collect();
                let _ = self.eng.trs_mut().penalize_many(ps.iter().map(|(k, n, d)| (k, move |Reputation(r)| Reputation(r * n / d))));
            }
            "expire" => {
                self.eng.trs_mut().expire(&Alpha(u(op, "a") as u32));
            }
            "act" => {
                let who: Vec<_> = ids(op, "ids").into_iter().map(pkh).collect();
                self.eng.ars_mut().push_activity(who);
            }
            "alpha" => self.eng.set_current_alpha(Alpha(u(op, "a") as u32)),
            "key" => {
                self.keys.insert_bn256(pkh(u(op, "id")), key(u(op, "id")));
            }
            "reload" => self.eng = self.reloaded(),
            "clear" => self.eng.clear_threshold_cache(),
            "ask" => {}
            _ => bad_op(op),
        }
        let mut o = json!({
            "alpha": self.eng.current_alpha().0, "extra": self.eng.extra_reputation.0,
            "bal": self.eng.trs().identities().map(|(k, v)| (num(k), v.0)).collect::<Vec<_>>(),
            "keys": (0..40).filter(|n| self.keys.get_bn256(&pkh(*n)).is_some()).collect::<Vec<u64>>(),
        });
        if s(op, "op") == "ask" {
            self.ask(op, &mut o);
        }
        o
    }
}

/// Candidates for a block, and the thresholds for becoming one before wit/2
pub struct CandSut;
fn hash(n: i64) -> Hash {
    let mut h = [0u8; 32];
    h[3] = n as u8;
    Hash::SHA256(h)
}
impl Sut for CandSut {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            "order" => {
                let slots = VrfSlots::new(ids(op, "t").iter().map(|n| hash(*n as i64)).collect());
                let version = if b(op, "v2") { ProtocolVersion::V2_0 } else { ProtocolVersion::V1_8 };
                let c = arr(op, "cs");
                let h = |x: &Value, k| hash(u(x, k) as i64);
                let cmp = |x: &Value, y: &Value| {
                    compare_block_candidates(
                        h(x, "h"), Reputation(u(x, "rep") as u32), h(x, "vrf"), b(x, "act"), Power::from(u(x, "pow")),
                        h(y, "h"), Reputation(u(y, "rep") as u32), h(y, "vrf"), b(y, "act"), Power::from(u(y, "pow")),
                        &slots, version,
                    )
                };
                let m: Vec<Vec<i8>> = c.iter().map(|x| c.iter().map(|y| cmp(x, y) as i8).collect()).collect();
                let best = c.iter().position(|x| c.iter().all(|y| cmp(x, y) != Ordering::Less)).map_or(0, |i| i + 1);
                json!({"m": m, "best": best})
            }
            "slots" => {
                let mut w = ActiveWips::default();
                if b(op, "wips") {
                    w.insert_wip("WIP0009-0011-0012", 0);
                }
                let n = |k| u(op, k) as u32;
                let all = VrfSlots::from_rf(n("n"), n("rf"), n("bf"), n("ep"), n("diff"), n("easy"), &w);
                let (h, p) = calculate_randpoe_threshold(n("n"), n("rf"), n("ep"), n("diff"), n("easy"), &w);
                let ts: Vec<_> = all.target_hashes().iter().map(|h| target(*h)).collect();
                json!({"slots": ts.iter().map(|t| t.0.clone()).collect::<Vec<_>>(), "rest": ts.iter().all(|t| t.1 == 255) && target(h).1 == 255,
                       "one": target(h).0, "approx": frac(p)})
            }
            _ => bad_op(op),
        }
    }
}
