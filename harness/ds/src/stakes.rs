//! The stakes ledger: generic `Stakes` with small and scaled units, and the concrete tracker of the node.
use crate::run::*;
use serde_json::{Value, json};
use witnet_data_structures::{
    capabilities::Capability,
    chain::PublicKeyHash,
    staking::prelude::*,
    wit::Wit,
};

fn cap(c: &str) -> Capability {
    if c == "m" { Capability::Mining } else { Capability::Witnessing }
}

/// What differs between the instances of the generic ledger.
trait Names: Sized {
    type Address: Clone + Ord;
    fn addr(n: u64) -> Self::Address;
    fn num(a: &Self::Address) -> u64;
}
struct Strings;
impl Names for Strings {
    type Address = String;
    fn addr(n: u64) -> String {
        format!("addr{n:03}")
    }
    fn num(a: &String) -> u64 {
        a[4..].parse().unwrap()
    }
}
struct Pkhs;
impl Names for Pkhs {
    type Address = PublicKeyHash;
    fn addr(n: u64) -> PublicKeyHash {
        let mut h = [7u8; 20];
        h[0] = n as u8;
        PublicKeyHash::from_bytes(&h).unwrap()
    }
    fn num(a: &PublicKeyHash) -> u64 {
        u64::from(a.as_ref()[0])
    }
}

fn kind<A, C, E>(e: &StakesError<A, C, E>) -> &'static str
where
    A: std::fmt::Debug + std::fmt::Display + Sync + Send + 'static,
    C: std::fmt::Debug + std::fmt::Display + Sync + Send + 'static,
    E: std::fmt::Debug + std::fmt::Display + Sync + Send + 'static,
{
    match e {
        StakesError::AmountIsBelowMinimum { .. } => "below",
        StakesError::EntryNotFound { .. } => "nokey",
        StakesError::ValidatorNotFound { .. } => "novalidator",
        StakesError::WithdrawerNotFound { .. } => "nowithdrawer",
        StakesError::DifferentWithdrawer { .. } => "withdrawer",
        _ => "other",
    }
}

macro_rules! ledger {
    ($name:ident, $ty:ty, $names:ty, $epoch:ty, $coins:expr, $uncoins:expr) => {
        struct $name {
            st: $ty,
            min: u64,
            known: std::collections::BTreeSet<u64>,
        }
        impl $name {
            fn new(cfg: &Value) -> Self {
                Self { st: <$ty>::default(), min: u(cfg, "min"), known: Default::default() }
            }
            fn apply(&mut self, op: &Value) -> &'static str {
                let coins = $coins;
                let key = |op: &Value| StakeKey::<<$names as Names>::Address> {
                    validator: <$names>::addr(u(op, "v")),
                    withdrawer: <$names>::addr(u(op, "w")),
                };
                let e = |op: &Value| u(op, "at") as $epoch;
                for f in ["v", "w"] {
                    if let Some(n) = op[f].as_u64() {
                        self.known.insert(n);
                    }
                }
                let min = coins(self.min);
                match s(op, "op") {
                    "add" => self.st.add_stake(key(op), coins(u(op, "c")), e(op), b(op, "nonce"), min).map_or_else(|x| kind(&x), |_| "ok"),
                    "stake" => {
                        if let Err(x) = self.st.check_validator_withdrawer(<$names>::addr(u(op, "v")), <$names>::addr(u(op, "w"))) {
                            return kind(&x);
                        }
                        self.st.add_stake(key(op), coins(u(op, "c")), e(op), true, min).map_or_else(|x| kind(&x), |_| "ok")
                    }
                    "remove" => self.st.remove_stake(key(op), coins(u(op, "c")), e(op), b(op, "nonce"), min).map_or_else(|x| kind(&x), |_| "ok"),
                    "reward" => self.st.add_reward(<$names>::addr(u(op, "v")), coins(u(op, "c")), e(op)).map_or_else(|x| kind(&x), |_| "ok"),
                    // Whether a collateral that cannot be reserved is reported is not observed: only what it does to the ledger
                    "reserve" => match self.st.reserve_collateral(<$names>::addr(u(op, "v")), coins(u(op, "c")), min) {
                        Err(StakesError::AmountIsBelowMinimum { .. }) | Ok(()) => "ok",
                        Err(x) => kind(&x),
                    },
                    "reset" => self.st.reset_age(<$names>::addr(u(op, "v")), cap(s(op, "cap")), e(op), u(op, "f") as u32).map_or_else(|x| kind(&x), |_| "ok"),
                    "mining" => self.st.reset_mining_age(<$names>::addr(u(op, "v")), e(op)).map_or_else(|x| kind(&x), |_| "ok"),
                    "reload" => {
                        let bytes = bincode::serialize(&self.st).unwrap();
                        self.st = bincode::deserialize(&bytes).unwrap();
                        "ok"
                    }
                    _ => bad_op(op),
                }
            }
            fn observe(&mut self, q: u64, k: usize, res: &str) -> Value {
                let un = $uncoins;
                let at = q as $epoch;
                let num = <$names>::num;
                let entry = |e: StakeEntry<_, _, _, _, _, _>| {
                    json!({"v": num(&e.key.validator), "w": num(&e.key.withdrawer), "c": un(e.value.coins),
                           "m": e.value.epochs.mining as u64, "x": e.value.epochs.witnessing as u64, "n": e.value.nonce})
                };
                let entries: Vec<Value> = self.st.query_stakes(QueryStakesKey::<<$names as Names>::Address>::All).unwrap_or_default().into_iter().map(entry).collect();
                let rank = |st: &$ty, c| st.by_rank(c, at).map(|(k, p)| json!([num(&k.validator), num(&k.withdrawer), p])).collect::<Vec<_>>();
                let pair = |k: StakeKey<<$names as Names>::Address>| json!([num(&k.validator), num(&k.withdrawer)]);
                let mut byv = vec![];
                let mut byw = vec![];
                let mut same = true;
                for &n in &self.known {
                    let a = <$names>::addr(n);
                    if let Ok(es) = self.st.query_stakes(QueryStakesKey::Validator(a.clone())) {
                        let p = |c| self.st.query_power(a.clone(), c, at).unwrap_or(u64::MAX);
                        byv.push(json!([n, es.iter().map(|e| json!([num(&e.key.validator), num(&e.key.withdrawer)])).collect::<Vec<_>>(),
                                        p(Capability::Mining), p(Capability::Witnessing)]));
                        // the entries behind the index are the entries behind the key, and totals agree with them
                        for e in &es {
                            same &= self.st.query_stakes(QueryStakesKey::Key(e.key.clone())).ok().as_deref() == Some(std::slice::from_ref(e));
                        }
                        let total: u64 = es.iter().map(|e| un(e.value.coins)).sum();
                        same &= self.st.query_total_stake(QueryStakesKey::Validator(a.clone())).ok().map(un) == Some(total);
                    } else {
                        same &= self.st.query_power(a.clone(), Capability::Mining, at).is_err();
                    }
                    if let Ok(es) = self.st.query_stakes(QueryStakesKey::Withdrawer(a.clone())) {
                        byw.push(json!([n, es.iter().map(|e| json!([num(&e.key.validator), num(&e.key.withdrawer)])).collect::<Vec<_>>()]));
                        for e in &es {
                            same &= self.st.query_stakes(QueryStakesKey::Key(e.key.clone())).ok().as_deref() == Some(std::slice::from_ref(e));
                        }
                    }
                    for &m in &self.known {
                        let key = StakeKey { validator: a.clone(), withdrawer: <$names>::addr(m) };
                        let e = self.st.query_stakes(QueryStakesKey::Key(key.clone())).ok();
                        same &= self.st.query_nonce(key).ok() == e.map(|e| e[0].value.nonce);
                    }
                }
                // A copy and a stored copy are the same ledger, and detached from this one.
                let copy = self.st.clone();
                let stored: $ty = bincode::deserialize(&bincode::serialize(&self.st).unwrap()).unwrap();
                same &= rank(&copy, Capability::Mining) == rank(&self.st, Capability::Mining) && rank(&stored, Capability::Witnessing) == rank(&self.st, Capability::Witnessing);
                same &= copy.validator_count() == self.st.validator_count() && stored.validator_count() == self.st.validator_count();
                same &= copy == stored;
                json!({
                    "res": res, "entries": entries, "m": rank(&self.st, Capability::Mining), "x": rank(&self.st, Capability::Witnessing),
                    "byv": byv, "byw": byw, "total": un(self.st.total_staked()), "count": self.st.stakes_count(), "validators": self.st.validator_count(),
                    "step": self.st.census(Capability::Mining, at, CensusStrategy::StepBy(k.max(1))).map(pair).collect::<Vec<_>>(),
                    "take": self.st.census(Capability::Mining, at, CensusStrategy::Take(k)).map(pair).collect::<Vec<_>>(),
                    "evenly": self.st.census(Capability::Witnessing, at, CensusStrategy::Evenly(k)).map(pair).collect::<Vec<_>>(),
                    "same": same,
                })
            }
        }
        impl Sut for $name {
            fn step(&mut self, op: &Value) -> Value {
                let before = self.st.clone();
                let res = self.apply(op);
                let mut o = self.observe(u(op, "q"), u(op, "k") as usize, res);
                // two ledgers are equal exactly if their contents are, and what an operation does, it does not do to a copy taken before it
                let alike = bincode::serialize(&before).unwrap() == bincode::serialize(&self.st).unwrap();
                o["same"] = json!(o["same"].as_bool().unwrap() && (before == self.st.clone()) == alike);
                if res != "ok" {
                    o["same"] = json!(o["same"].as_bool().unwrap() && alike);
                }
                o
            }
        }
    };
}

ledger!(Unit1, Stakes<0, String, u64, u64, u64, u64>, Strings, u64, |c: u64| c, |c: u64| c);
ledger!(Unit100, Stakes<2, String, u64, u64, u64, u64>, Strings, u64, |c: u64| c, |c: u64| c);
ledger!(UnitMany, Stakes<1, String, u64, u64, u64, u64>, Strings, u64, |c: u64| c, |c: u64| c);
// The tracker of the node: nanowits, of which a script counts halves of a wit; the remainder is observed too
const HALF: u64 = 500_000_000;
ledger!(Tracker, StakesTracker, Pkhs, u32, |c: u64| Wit::from_nanowits(c * HALF), |c: Wit| if c.nanowits() % HALF == 0 { c.nanowits() / HALF } else { u64::MAX });

pub fn make(cfg: &Value) -> Box<dyn Sut> {
    match u(cfg, "unit") {
        1 => Box::new(Unit1::new(cfg)),
        2 => Box::new(Tracker::new(cfg)),
        10 => Box::new(UnitMany::new(cfg)),
        100 => Box::new(Unit100::new(cfg)),
        _ => bad_op(cfg),
    }
}
