//! Who may mine and witness, on the node's ledger of stakes.
use crate::run::*;
use serde_json::{Value, json};
use witnet_data_structures::{
    capabilities::Capability,
    chain::{Hash, PublicKeyHash},
    staking::prelude::*,
    wit::Wit,
};
use witnet_validations::eligibility::current::{Eligibility, Eligible, IneligibilityReason};

// a script counts halves of a wit
const HALF: u64 = 500_000_000;

pub fn pkh(n: u64) -> PublicKeyHash {
    let mut h = [7u8; 20];
    h[0] = n as u8;
    PublicKeyHash::from_bytes(&h).unwrap()
}
fn name(e: Eligible) -> &'static str {
    match e {
        Eligible::Yes => "yes",
        Eligible::No(IneligibilityReason::InsufficientPower) => "power",
        Eligible::No(IneligibilityReason::NotStaking) => "none",
    }
}
/// The first four bytes, and the one that fills the rest
pub fn target(h: Hash) -> (Vec<u8>, i64) {
    let Hash::SHA256(b) = h;
    (b[..4].to_vec(), if b[4..].iter().all(|x| *x == b[4]) { i64::from(b[4]) } else { 1 })
}

pub struct EligSut {
    st: StakesTracker,
    min: Wit,
}
impl EligSut {
    pub fn new(cfg: &Value) -> Self {
        Self { st: StakesTracker::default(), min: Wit::from_nanowits(u(cfg, "min") * HALF) }
    }
}
fn res<T>(r: Result<T, StakesError<PublicKeyHash, Wit, u32>>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(StakesError::AmountIsBelowMinimum { .. }) => "below",
        Err(StakesError::EntryNotFound { .. }) => "nokey",
        Err(StakesError::ValidatorNotFound { .. }) => "novalidator",
        Err(StakesError::DifferentWithdrawer { .. }) => "withdrawer",
        Err(_) => "other",
    }
}
impl Sut for EligSut {
    fn step(&mut self, op: &Value) -> Value {
        let key = || StakeKey { validator: pkh(u(op, "v")), withdrawer: pkh(u(op, "w")) };
        let coins = || Wit::from_nanowits(u(op, "c") * HALF);
        let at = || u(op, "at") as u32;
        let r = match s(op, "op") {
            "stake" => match self.st.check_validator_withdrawer(pkh(u(op, "v")), pkh(u(op, "w"))) {
                Err(e) => res::<()>(Err(e)),
                Ok(_) => res(self.st.add_stake(key(), coins(), at(), true, self.min)),
            },
            "add" => res(self.st.add_stake(key(), coins(), at(), true, self.min)),
            "remove" => res(self.st.remove_stake(key(), coins(), at(), true, self.min)),
            "reset" => {
                let cap = if s(op, "cap") == "m" { Capability::Mining } else { Capability::Witnessing };
                res(self.st.reset_age(pkh(u(op, "v")), cap, at(), 1))
            }
            "mining" => res(self.st.reset_mining_age(pkh(u(op, "v")), at())),
            "ask" => return self.ask(op),
            _ => bad_op(op),
        };
        json!({"res": r})
    }
}
impl EligSut {
    fn ask(&mut self, op: &Value) -> Value {
        let q = u(op, "q") as u32;
        let before = self.st.clone();
        let mut same = true;
        let mut answers = vec![];
        let mut approx = vec![];
        for x in arr(op, "qs") {
            let v = pkh(u(x, "v"));
            if s(x, "q") == "mine" {
                let rf = u(x, "rf") as u16;
                let e = self.st.mining_eligibility(v, q, rf).unwrap();
                same &= self.st.mining_eligibility_bool(v, q, rf) == (e == Eligible::Yes);
                answers.push(json!({"res": name(e), "t": [0, 0, 0, 0], "rest": 0}));
                approx.push(json!(0));
            } else {
                let (w, r, n) = (u(x, "w") as u16, u(x, "round") as u16, u(x, "rounds") as u16);
                let (e, h, p) = self.st.witnessing_eligibility(v, q, w, r, n).unwrap();
                same &= self.st.witnessing_eligibility_bool(v, q, w, r, n) == (e == Eligible::Yes);
                let (t, rest) = target(h);
                answers.push(json!({"res": name(e), "t": t, "rest": rest}));
                approx.push(json!((p * 1000.0).min(1e9) as i64));
            }
        }
        same &= before == self.st.clone();
        json!({"answers": answers, "approx": approx, "same": same})
    }
}
