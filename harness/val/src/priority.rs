//! What a node advises to pay, from the blocks it has seen.
use crate::run::*;
use serde_json::{Value, json};
use std::time::Duration;
use witnet_data_structures::{
    chain::priority::{Priorities, PrioritiesEstimate, PriorityEngine, PriorityError, PriorityEstimate, PriorityVisitor},
    transaction::*,
    types::visitor::{StatefulVisitor, Visitor},
};

pub struct PrioritySut(PriorityEngine);
impl PrioritySut {
    pub fn new(cfg: &Value) -> Self {
        PrioritySut(if u(cfg, "cap") == 2047 { PriorityEngine::default() } else { PriorityEngine::with_capacity(u(cfg, "cap") as usize) })
    }
}
fn tx(k: &str) -> Transaction {
    match k {
        "dr" => Transaction::DataRequest(DRTransaction::default()),
        "vt" => Transaction::ValueTransfer(VTTransaction::default()),
        "st" => Transaction::Stake(StakeTransaction::default()),
        "ut" => Transaction::Unstake(UnstakeTransaction::default()),
        "commit" => Transaction::Commit(CommitTransaction::default()),
        "reveal" => Transaction::Reveal(RevealTransaction::default()),
        "tally" => Transaction::Tally(TallyTransaction::default()),
        _ => Transaction::Mint(MintTransaction::default()),
    }
}
/// in fiftieths
fn fifty(x: f64) -> Value {
    json!((x * 50.0).round() as i64)
}
fn block(p: &Priorities) -> Value {
    let lo = |x: Option<_>| x.map_or(json!(-1), |x: witnet_data_structures::chain::priority::Priority| fifty(x.as_f64()));
    json!({
        "dr": {"hi": fifty(p.drt_highest.as_f64()), "lo": lo(p.drt_lowest)}, "vt": {"hi": fifty(p.vtt_highest.as_f64()), "lo": lo(p.vtt_lowest)},
        "st": {"hi": fifty(p.st_highest.as_f64()), "lo": lo(p.st_lowest)}, "ut": {"hi": fifty(p.ut_highest.as_f64()), "lo": lo(p.ut_lowest)},
    })
}
fn one(e: &PriorityEstimate) -> Value {
    json!({"p": fifty(e.priority.as_f64()), "t": serde_json::to_value(&e.time_to_block).unwrap()})
}
fn all(e: &PrioritiesEstimate) -> Value {
    json!({
        "dr": [one(&e.drt_stinky), one(&e.drt_low), one(&e.drt_medium), one(&e.drt_high), one(&e.drt_opulent)],
        "vt": [one(&e.vtt_stinky), one(&e.vtt_low), one(&e.vtt_medium), one(&e.vtt_high), one(&e.vtt_opulent)],
        "st": [one(&e.st_stinky), one(&e.st_low), one(&e.st_medium), one(&e.st_high), one(&e.st_opulent)],
        "ut": [one(&e.ut_stinky), one(&e.ut_low), one(&e.ut_medium), one(&e.ut_high), one(&e.ut_opulent)],
    })
}
impl Sut for PrioritySut {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            "block" => {
                let mut v = PriorityVisitor::default();
                for t in arr(op, "txs") {
                    v.visit(&(tx(s(t, "k")), u(t, "fee"), u(t, "w") as u32));
                }
                let p = v.take_state();
                let seen = block(&p);
                self.0.push_priorities(p);
                json!({"r": "ok", "seen": seen, "n": self.0.as_vec().len(), "newest": self.0.as_vec().last().map(block), "oldest": self.0.as_vec().first().map(block)})
            }
            "ask" => match self.0.estimate_priority(Duration::from_secs(u(op, "secs"))) {
                Ok(e) => json!({"r": "ok", "est": all(&e)}),
                Err(PriorityError::NotEnoughSampledEpochs { current, required, wait_minutes }) => json!({"r": "few", "current": current, "required": required, "wait": wait_minutes}),
                Err(PriorityError::Conversion(_)) => json!({"r": "secs"}),
            },
            _ => bad_op(op),
        }
    }
}
