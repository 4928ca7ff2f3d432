//! Peers and sessions.
use crate::run::*;
use serde_json::{Value, json};
use std::{collections::HashMap, net::SocketAddr, time::Duration};
use witnet_p2p::{
    error::SessionsError,
    peers::{Peers, get_range_address, split_socket_addresses},
    sessions::{SessionStatus, SessionType, Sessions},
};

// a moment of the script in seconds, somewhat shorter than the unit of the periods: the time a run takes is nothing
const HOUR: i64 = 1790;
const LONG: i64 = 1800;

fn now() -> i64 {
    witnet_util::timestamp::get_timestamp()
}
pub struct PeersSut {
    p: Peers,
    names: Vec<SocketAddr>,
    clock: i64,
    start: i64,
    period: Duration,
}
impl PeersSut {
    pub fn new(cfg: &Value) -> Self {
        let names: Vec<SocketAddr> = cfg["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect();
        let period = Duration::from_secs((u(cfg, "period") as i64 * LONG) as u64);
        let p = Peers { sk: u(cfg, "sk"), server_address: names[u(cfg, "own") as usize - 1], ice_period: period, ..Peers::default() };
        Self { p, names, clock: 0, start: now(), period }
    }
    fn id(&self, a: &SocketAddr) -> usize {
        1 + self.names.iter().position(|x| x == a).unwrap()
    }
    fn ids(&self, v: &[SocketAddr]) -> Vec<usize> {
        v.iter().map(|a| self.id(a)).collect()
    }
    fn addr(&self, op: &Value, k: &str) -> SocketAddr {
        self.names[u(op, k) as usize - 1]
    }
    fn addrs(&self, op: &Value) -> Vec<SocketAddr> {
        op["as"].as_array().unwrap().iter().map(|x| self.names[x.as_u64().unwrap() as usize - 1]).collect()
    }
    /// What the script calls the moment
    fn hour(&self, ts: i64) -> i64 {
        (ts - self.start + HOUR / 2).div_euclid(HOUR)
    }
    /// The clock goes on: whatever happened gets older
    fn age(&mut self, n: i64) {
        let by = n * HOUR;
        self.start -= by;
        self.p.ice_bucket.values_mut().for_each(|t| *t -= by);
        self.p.new_bucket.values_mut().for_each(|t| t.timestamp -= by);
        self.p.tried_bucket.values_mut().for_each(|t| t.timestamp -= by);
        self.clock += n;
    }
    fn seen(&self, res: Value) -> Value {
        let bucket = |b: &HashMap<u16, witnet_p2p::peers::PeerInfo>| {
            let mut v: Vec<_> = b.iter().map(|(k, i)| (*k, self.id(&i.address), self.hour(i.timestamp))).collect();
            v.sort_unstable();
            v
        };
        for (k, i) in &self.p.new_bucket {
            assert!(self.p.new_bucket_contains(*k));
            assert_eq!((self.p.new_bucket_get_address(*k), self.p.new_bucket_get_timestamp(*k)), (Some(i.address), Some(i.timestamp)));
        }
        for (k, i) in &self.p.tried_bucket {
            assert!(self.p.tried_bucket_contains(*k));
            assert_eq!((self.p.tried_bucket_get_address(*k), self.p.tried_bucket_get_timestamp(*k)), (Some(i.address), Some(i.timestamp)));
        }
        let mut all = self.ids(&self.p.get_all_from_new().unwrap());
        let mut wanted: Vec<_> = bucket(&self.p.new_bucket).iter().map(|x| x.1).collect();
        all.sort_unstable();
        wanted.sort_unstable();
        assert_eq!(all, wanted);
        let mut all = self.ids(&self.p.get_all_from_tried().unwrap());
        let mut wanted: Vec<_> = bucket(&self.p.tried_bucket).iter().map(|x| x.1).collect();
        all.sort_unstable();
        wanted.sort_unstable();
        assert_eq!(all, wanted);
        let one = self.p.get_new_random_peer().map(|(k, a)| (k, self.id(&a)));
        let mut ice: Vec<_> = self.p.ice_bucket.iter().map(|(a, t)| (self.id(a), self.hour(*t))).collect();
        ice.sort_unstable();
        json!({"res": res, "new": bucket(&self.p.new_bucket), "tried": bucket(&self.p.tried_bucket), "ice": ice, "any": one.is_some(),
               "right": one.is_none_or(|(k, a)| self.p.new_bucket.get(&k).is_some_and(|i| self.id(&i.address) == a))})
    }
}
impl Sut for PeersSut {
    fn step(&mut self, op: &Value) -> Value {
        let res = match s(op, "op") {
            "hear" => {
                let src = if u(op, "src") == 0 { None } else { Some(self.addr(op, "src")) };
                let out = self.p.add_to_new(self.addrs(op), src).unwrap();
                json!(self.ids(&out))
            }
            "reach" => {
                let out: Vec<_> = self.p.add_to_tried(self.addr(op, "a")).unwrap().into_iter().collect();
                json!(self.ids(&out))
            }
            "lose" => {
                let out = self.p.remove_from_tried(&self.addrs(op), op["aside"].as_bool().unwrap());
                json!(self.ids(&out))
            }
            "forget" => {
                let ks: Vec<u16> = op["ks"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
                let out = self.p.remove_from_new_with_index(&ks);
                json!(self.ids(&out))
            }
            "freeze" => {
                let a = self.addr(op, "a");
                assert!(self.p.ice_peer_address(&a));
                json!([])
            }
            "thaw" => {
                self.p.remove_many_from_ice(&self.addrs(op));
                json!([])
            }
            "melt" => {
                let out = self.p.extract_melted_peers_from_ice_bucket();
                let mut v = self.ids(&out);
                v.sort_unstable();
                json!(v)
            }
            "check" => {
                let a = self.addr(op, "a");
                json!([self.p.ice_bucket_contains(&a)])
            }
            "edge" => {
                // to the second
                let (a, t) = (self.addr(op, "a"), 1_000_000);
                assert!(self.p.ice_peer_address_pure(&a, t));
                let end = t + if self.p.bootstrapped { self.period.as_secs() as i64 } else { LONG };
                let r = self.p.ice_bucket_contains_pure(&a, end + op["d"].as_i64().unwrap());
                assert_eq!(self.p.ice_bucket.contains_key(&a), r);
                self.p.remove_from_ice(&a);
                // and by the clock there is: set aside so long before
                let rest = std::mem::take(&mut self.p.ice_bucket);
                let r2 = loop {
                    let t0 = now();
                    self.p.ice_peer_address_pure(&a, t0 - (end - t) - op["d"].as_i64().unwrap());
                    let all = self.p.extract_melted_peers_from_ice_bucket();
                    let r2 = !all.contains(&a);
                    assert_eq!(self.p.ice_bucket.contains_key(&a), r2);
                    self.p.remove_from_ice(&a);
                    // all within one second
                    if now() == t0 {
                        break r2;
                    }
                };
                self.p.ice_bucket = rest;
                json!([r, r2])
            }
            "pass" => {
                self.age(u(op, "n") as i64);
                json!([])
            }
            "up" => {
                self.p.bootstrapped = op["b"].as_bool().unwrap();
                json!([])
            }
            "clear" => {
                match s(op, "what") {
                    "new" => self.p.clear_new_bucket(),
                    "tried" => self.p.clear_tried_bucket(),
                    _ => self.p.clear_ice_bucket(),
                }
                json!([])
            }
            "reload" => {
                // as in the storage; the period is not part of it
                self.p = bincode::deserialize(&bincode::serialize(&self.p).unwrap()).unwrap();
                self.p.ice_period = self.period;
                json!([])
            }
            "draw" => {
                let mut o = self.seen(json!([]));
                o["drawn"] = json!(op["ns"].as_array().unwrap().iter().map(|n| self.ids(&self.p.get_random_peers(n.as_u64().unwrap() as usize).unwrap())).collect::<Vec<_>>());
                o["places"] = json!(self.names.iter().map(|a| self.p.tried_bucket_index(a)).collect::<Vec<_>>());
                o["halves"] = json!(self.names.iter().map(split_socket_addresses).collect::<Vec<_>>());
                return o;
            }
            x => panic!("{x}"),
        };
        self.seen(res)
    }
}

pub struct SessionsSut {
    s: Sessions<i64>,
    names: Vec<SocketAddr>,
    shown: Vec<String>,
}
fn said(r: Result<(), SessionsError>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(SessionsError::MaxPeersReached) => "full",
        Err(SessionsError::AddressAlreadyRegistered) => "known",
        Err(SessionsError::AddressNotFound) => "unknown",
        Err(SessionsError::NotOutboundConsolidatedPeer) => "stranger",
        Err(SessionsError::NotExpectedFeelerPeer) => "feeler",
        Err(_) => "other",
    }
}
impl SessionsSut {
    pub fn new(cfg: &Value) -> Self {
        let shown: Vec<String> = cfg["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        Self { s: Sessions::default(), names: shown.iter().map(|x| x.parse().unwrap()).collect(), shown }
    }
    fn id(&self, a: &SocketAddr) -> usize {
        1 + self.names.iter().position(|x| x == a).unwrap()
    }
    fn map(&self, m: &HashMap<SocketAddr, witnet_p2p::sessions::bounded_sessions::SessionInfo<i64>>) -> Vec<(usize, i64)> {
        let mut v: Vec<_> = m.iter().map(|(a, i)| (self.id(a), i.reference)).collect();
        v.sort_unstable();
        v
    }
    fn seen(&self, res: &str) -> Value {
        let z = &self.s;
        let all = [&z.inbound_unconsolidated, &z.inbound_consolidated, &z.outbound_unconsolidated, &z.outbound_consolidated, &z.outbound_consolidated_consensus];
        let lists = all.map(|x| self.map(&x.collection));
        // other views of the same
        let mut both: Vec<i64> = z.get_all_consolidated_sessions().copied().collect();
        let mut wanted: Vec<i64> = lists[1].iter().chain(&lists[3]).map(|x| x.1).collect();
        both.sort_unstable();
        wanted.sort_unstable();
        assert_eq!(both, wanted);
        let mut inb: Vec<i64> = z.get_consolidated_inbound_sessions().copied().collect();
        let mut wanted: Vec<i64> = lists[1].iter().map(|x| x.1).collect();
        inb.sort_unstable();
        wanted.sort_unstable();
        assert_eq!(inb, wanted);
        let g = z.get_consolidated_sessions_addr();
        let sorted = |v: Vec<SocketAddr>| {
            let mut v: Vec<_> = v.iter().map(|a| self.id(a)).collect();
            v.sort_unstable();
            v
        };
        assert_eq!(sorted(g.inbound), lists[1].iter().map(|x| x.0).collect::<Vec<_>>());
        assert_eq!(sorted(g.outbound), lists[3].iter().map(|x| x.0).collect::<Vec<_>>());
        let mut ips: Vec<usize> = z.show_ips().iter().filter_map(|x| self.shown.iter().position(|n| n == x)).map(|x| x + 1).collect();
        let mut wanted: Vec<usize> = lists.iter().flatten().map(|x| x.0).collect();
        ips.sort_unstable();
        wanted.sort_unstable();
        assert_eq!(ips, wanted);
        json!({
            "res": res, "iu": lists[0], "ic": lists[1], "ou": lists[2], "oc": lists[3], "cc": lists[4],
            "outs": z.get_num_outbound_sessions(), "ins": z.get_num_inbound_sessions(), "needed": z.is_outbound_bootstrap_needed(), "missing": z.num_missing_outbound(),
            "similar": self.names.iter().map(|a| z.is_similar_to_inbound_session(a).into_iter().map(|x| x.to_vec()).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "eligible": self.names.iter().map(|a| z.is_outbound_address_eligible(*a)).collect::<Vec<_>>(),
            "someone": z.get_random_anycast_session(false).unwrap_or(-1), "safe": z.get_random_anycast_session(true).unwrap_or(-1),
        })
    }
}
impl Sut for SessionsSut {
    fn step(&mut self, op: &Value) -> Value {
        let side = || match s(op, "side") {
            "i" => SessionType::Inbound,
            "o" => SessionType::Outbound,
            _ => SessionType::Feeler,
        };
        let a = || self.names[u(op, "a") as usize - 1];
        let res = match s(op, "op") {
            "register" => said(self.s.register_session(side(), a(), op["ref"].as_i64().unwrap())),
            "leave" => {
                let part = if s(op, "part") == "u" { SessionStatus::Unconsolidated } else { SessionStatus::Consolidated };
                said(self.s.unregister_session(side(), part, a()))
            }
            "consolidate" => said(self.s.consolidate_session(side(), a())),
            "agree" => said(self.s.consensus_session(a())),
            "ask" => "asked",
            "disagree" => said(self.s.unconsensus_session(a())),
            "limits" => {
                self.s.set_limits(u(op, "i") as u16, u(op, "o") as u16);
                "ok"
            }
            "address" => {
                let x = a();
                self.s.set_public_address(Some(x));
                "ok"
            }
            "bits" => {
                self.s.inbound_network_ranges.set_range_limit(u(op, "n") as u8);
                "ok"
            }
            x => panic!("{x}"),
        };
        let o = self.seen(res);
        if s(op, "op") == "bits" {
            let mut o = o;
            o["ranges"] = json!(self.names.iter().map(|x| get_range_address(x, u(op, "n") as u8)).collect::<Vec<_>>());
            return o;
        }
        o
    }
}
