//! The other actors of the node, who say what they are told and answer when the script says so.
use crate::{ResponseFuture, actor_system::{Actor, BoxFuture, Context, Handler, Message, Supervised, SystemService, UNREACHABLE}};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::rc::Rc;
use witnet_data_structures::chain::*;

#[derive(Default)]
pub struct World {
    pub told: Vec<(&'static str, Value)>,
    pub waits: Option<(&'static str, Rc<RefCell<Option<Value>>>)>,
    pub epoch: Value,
    pub reg: String,
    pub have: Vec<Value>,
}
thread_local! { pub static WORLD: RefCell<World> = RefCell::default(); pub static NOW: RefCell<i64> = const { RefCell::new(1000) }; }
pub fn tell(who: &'static str, what: Value) {
    WORLD.with(|w| w.borrow_mut().told.push((who, what)))
}
type Answer<T> = ResponseFuture<Result<T, anyhow::Error>>;
fn answer<T: 'static>(how: &str, x: impl FnOnce() -> T) -> Result<T, anyhow::Error> {
    match how {
        "ok" => return Ok(x()),
        "dead" => UNREACHABLE.with(|u| *u.borrow_mut() = true),
        _ => (),
    }
    Err(anyhow::format_err!("no"))
}
fn ask<T: 'static>(kind: &'static str, conv: impl Fn(&Value) -> T + 'static) -> Answer<T> {
    let slot = Rc::new(RefCell::new(None));
    WORLD.with(|w| w.borrow_mut().waits = Some((kind, slot.clone())));
    ResponseFuture(Box::pin(std::future::poll_fn(move |_| match slot.borrow_mut().take() {
        None => std::task::Poll::Pending,
        Some(v) => std::task::Poll::Ready(answer(v["how"].as_str().unwrap(), || conv(&v))),
    })))
}
fn nums(v: &Value, k: &str) -> Vec<u64> {
    v[k].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default()
}

pub mod messages {
    use super::*;
    use crate::actor_system::Addr;
    use crate::actors::session::Session;
    use std::collections::HashSet;
    use std::net::SocketAddr;
    use std::ops::{Bound, RangeBounds};
    use witnet_data_structures::{transaction::Transaction, types::LastBeacon};
    use witnet_p2p::sessions::{SessionStatus, SessionType};
    macro_rules! message {
        ($name:ident { $($f:ident: $t:ty),* } -> $r:ty) => {
            #[derive(Clone)]
            pub struct $name { $(pub $f: $t),* }
            impl Message for $name { type Result = $r; }
        };
        ($name:ident -> $r:ty) => {
            #[derive(Clone)]
            pub struct $name;
            impl Message for $name { type Result = $r; }
        };
    }
    type Res<T> = Result<T, anyhow::Error>;
    pub type SessionUnitResult = ();
    message!(AddBlocks { blocks: Vec<Block>, sender: Option<SocketAddr> } -> ());
    message!(AddCandidates { blocks: Vec<Block> } -> ());
    message!(AddSuperBlock { superblock: SuperBlock } -> ());
    message!(AddSuperBlockVote { superblock_vote: SuperBlockVote } -> Res<()>);
    message!(AddTransaction { transaction: Transaction, broadcast_flag: bool } -> Res<()>);
    message!(GetSuperBlockVotes -> Res<HashSet<SuperBlockVote>>);
    message!(GetHighestCheckpointBeacon -> Res<CheckpointBeacon>);
    message!(GetBlocksEpochRange { range: (Bound<Epoch>, Bound<Epoch>) } -> Res<Vec<(Epoch, Hash)>>);
    impl GetBlocksEpochRange {
        pub fn new<R: RangeBounds<Epoch>>(r: R) -> Self {
            Self { range: (r.start_bound().cloned(), r.end_bound().cloned()) }
        }
        pub fn new_with_const_limit<R: RangeBounds<Epoch>>(r: R) -> Self {
            Self::new(r)
        }
    }
    message!(GetItem { item: InventoryEntry } -> Res<InventoryItem>);
    message!(AddConsolidatedPeer { address: SocketAddr } -> Res<()>);
    message!(AddPeers { addresses: Vec<SocketAddr>, src_address: Option<SocketAddr> } -> Res<()>);
    message!(RemoveAddressesFromTried { addresses: Vec<SocketAddr>, ice: bool } -> Res<()>);
    message!(RequestPeers -> Res<Vec<SocketAddr>>);
    message!(Consolidate { address: SocketAddr, potential_new_peer: Option<SocketAddr>, session_type: SessionType } -> Res<()>);
    message!(PeerBeacon { address: SocketAddr, beacon: LastBeacon } -> ());
    message!(Register { address: SocketAddr, actor: Addr<Session>, session_type: SessionType } -> Res<()>);
    message!(Unregister { address: SocketAddr, session_type: SessionType, status: SessionStatus } -> Res<()>);
    message!(LogMessage { log_data: String, addr: SocketAddr } -> ());
    message!(GetEpoch -> Result<Epoch, super::epoch_manager::EpochManagerError>);
    message!(SubscribeAll { notify: Rc<dyn Fn(Epoch)> } -> ());
    pub struct Subscribe;
    impl Subscribe {
        #[allow(clippy::wrong_self_convention)]
        pub fn to_all<T: Clone + Send + 'static>(addr: Addr<Session>, payload: T) -> SubscribeAll
        where
            Session: crate::actor_system::Handler<EpochNotification<T>>,
        {
            SubscribeAll { notify: Rc::new(move |checkpoint| addr.do_send(EpochNotification { checkpoint, timestamp: 0, payload: payload.clone() })) }
        }
    }
    pub struct EpochNotification<T: Send> {
        pub checkpoint: Epoch,
        pub timestamp: i64,
        pub payload: T,
    }
    impl<T: Send + 'static> Message for EpochNotification<T> {
        type Result = ();
    }
    message!(SendGetPeers -> ());
    message!(SendInventoryAnnouncement { items: Vec<InventoryEntry> } -> ());
    message!(SendInventoryItem { item: InventoryItem } -> ());
    message!(SendInventoryRequest { items: Vec<InventoryEntry> } -> ());
    message!(SendLastBeacon { last_beacon: LastBeacon } -> ());
    message!(SendSuperBlockVote { superblock_vote: SuperBlockVote } -> ());
    message!(CloseSession -> ());
}
use messages::*;
macro_rules! actor {
    ($($m:ident $name:ident),*) => { $(
        pub mod $m {
            #[derive(Default)]
            pub struct $name;
        }
        impl Actor for $m::$name { type Context = Context<Self>; }
        impl Supervised for $m::$name {}
        impl SystemService for $m::$name {}
    )* };
}
actor!(chain_manager ChainManager, inventory_manager InventoryManager, peers_manager PeersManager, sessions_manager SessionsManager);
pub mod epoch_manager {
    #[derive(Default)]
    pub struct EpochManager;
    #[derive(Debug, PartialEq)]
    pub enum EpochManagerError {
        UnknownEpochConstants,
        CheckpointZeroInTheFuture(i64),
        Overflow,
    }
}
impl Actor for epoch_manager::EpochManager {
    type Context = Context<Self>;
}
impl Supervised for epoch_manager::EpochManager {}
impl SystemService for epoch_manager::EpochManager {}

macro_rules! hears {
    ($who:ty, $m:ty, $r:ty, |$x:ident| $body:expr) => {
        impl Handler<$m> for $who {
            type Result = $r;
            fn handle(&mut self, $x: $m, _: &mut Context<Self>) -> $r {
                $body
            }
        }
    };
}
type Chain = chain_manager::ChainManager;
type Peers = peers_manager::PeersManager;
type Sess = sessions_manager::SessionsManager;
type Res<T> = Result<T, anyhow::Error>;
use crate::{addr_id, beacon, block_id, hash_of, remote, super_id, tx_id, type_id, vote_id};
hears!(Chain, AddBlocks, (), |m| {
    let t = json!({"m": "blocks", "bs": m.blocks.iter().map(block_id).collect::<Vec<_>>(), "from": m.sender == Some(remote())});
    // to hear twice that nothing comes is to hear it
    let again = m.blocks.is_empty() && WORLD.with(|w| w.borrow().told.iter().rev().find(|x| x.0 == "chain").is_some_and(|x| x.1 == t));
    if !again {
        tell("chain", t)
    }
});
hears!(Chain, AddCandidates, (), |m| for b in &m.blocks {
    tell("chain", json!({"m": "cand", "b": block_id(b)}))
});
hears!(Chain, AddSuperBlock, (), |m| tell("chain", json!({"m": "super", "n": super_id(&m.superblock)})));
hears!(Chain, AddSuperBlockVote, Res<()>, |m| {
    tell("chain", json!({"m": "vote", "n": vote_id(&m.superblock_vote)}));
    Ok(())
});
hears!(Chain, AddTransaction, Res<()>, |m| {
    assert!(m.broadcast_flag, "it is not passed on");
    tell("chain", json!({"m": "tx", "n": tx_id(&m.transaction)}));
    Ok(())
});
hears!(Chain, GetSuperBlockVotes, Answer<std::collections::HashSet<SuperBlockVote>>, |_m| {
    // a question whose answer nobody waits for is none
    ResponseFuture(Box::pin(async {
        tell("chain", json!({"m": "votes?"}));
        ask("votes", |v| nums(v, "vs").into_iter().map(crate::vote).collect()).0.await
    }))
});
hears!(Chain, GetHighestCheckpointBeacon, Answer<CheckpointBeacon>, |_m| {
    tell("chain", json!({"m": "tip?"}));
    ask("tip", |v| CheckpointBeacon { checkpoint: v["n"].as_u64().unwrap() as u32, hash_prev_block: Hash::default() })
});
hears!(Chain, GetBlocksEpochRange, Answer<Vec<(Epoch, Hash)>>, |m| {
    use std::ops::Bound::*;
    let lo = match m.range.0 {
        Included(x) => x,
        Excluded(x) => x + 1,
        Unbounded => 0,
    };
    let hi = match m.range.1 {
        Included(x) => x,
        Excluded(x) => x - 1,
        Unbounded => u32::MAX,
    };
    tell("chain", json!({"m": "range?", "lo": lo, "hi": hi}));
    ask("range", |v| nums(v, "bs").into_iter().map(|n| (0, hash_of(n, None))).collect())
});
hears!(inventory_manager::InventoryManager, GetItem, Res<InventoryItem>, |m| {
    let e = crate::entry(&m.item);
    let k = json!({"k": e["k"], "n": e["n"]});
    if !WORLD.with(|w| w.borrow().have.contains(&k)) {
        return Err(anyhow::format_err!("not there"));
    }
    Ok(crate::item(e["k"].as_str().unwrap(), e["n"].as_u64().unwrap()))
});
hears!(Peers, AddConsolidatedPeer, Res<()>, |m| {
    tell("peers", json!({"m": if m.address == remote() { "tried" } else { "another" }}));
    Ok(())
});
hears!(Peers, AddPeers, Res<()>, |m| {
    assert!(m.src_address == Some(remote()), "they come from somebody else");
    tell("peers", json!({"m": "add", "as": m.addresses.iter().map(addr_id).collect::<Vec<_>>()}));
    Ok(())
});
hears!(Peers, RemoveAddressesFromTried, Res<()>, |m| {
    tell("peers", json!({"m": if m.ice && m.addresses == [remote()] { "ice" } else { "remove" }}));
    Ok(())
});
hears!(Peers, RequestPeers, Answer<Vec<std::net::SocketAddr>>, |_m| {
    tell("peers", json!({"m": "peers?"}));
    ask("peers", |v| nums(v, "as").into_iter().map(crate::addr).collect())
});
hears!(Sess, Consolidate, Answer<()>, |m| {
    assert!(m.address == remote(), "somebody else");
    tell("sess", json!({"m": "cons", "type": type_id(m.session_type), "new": m.potential_new_peer.as_ref().map_or(0, addr_id)}));
    ask("cons", |_| ())
});
hears!(Sess, PeerBeacon, (), |m| {
    assert!(m.address == remote(), "somebody else");
    let mut b = beacon(&m.beacon);
    b["m"] = json!("beacon");
    tell("sess", b)
});
hears!(Sess, Register, Answer<()>, |m| {
    assert!(m.address == remote(), "somebody else");
    tell("sess", json!({"m": "register", "type": type_id(m.session_type)}));
    let how = WORLD.with(|w| w.borrow().reg.clone());
    ResponseFuture(Box::pin(async move { answer(&how, || ()) }))
});
hears!(Sess, Unregister, Res<()>, |m| {
    assert!(m.address == remote(), "somebody else");
    tell("sess", json!({"m": "unreg", "type": type_id(m.session_type), "done": m.status == witnet_p2p::sessions::SessionStatus::Consolidated}));
    Ok(())
});
hears!(Sess, LogMessage, (), |_m| ());
use epoch_manager::EpochManagerError;
impl Handler<GetEpoch> for epoch_manager::EpochManager {
    type Result = ResponseFuture<Result<Epoch, EpochManagerError>>;
    fn handle(&mut self, _: GetEpoch, _: &mut Context<Self>) -> Self::Result {
        tell("epochs", json!({"m": "epoch?"}));
        let e = WORLD.with(|w| w.borrow().epoch.clone());
        ResponseFuture(Box::pin(async move {
            match e["how"].as_str().unwrap() {
                "ok" => Ok(e["n"].as_u64().unwrap() as u32),
                "early" => Err(EpochManagerError::CheckpointZeroInTheFuture(5000)),
                "dead" => {
                    UNREACHABLE.with(|u| *u.borrow_mut() = true);
                    Err(EpochManagerError::Overflow)
                }
                _ => Err(EpochManagerError::UnknownEpochConstants),
            }
        }))
    }
}
thread_local! { pub static SUBSCRIBED: RefCell<Option<Rc<dyn Fn(Epoch)>>> = const { RefCell::new(None) }; }
hears!(epoch_manager::EpochManager, SubscribeAll, (), |m| {
    SUBSCRIBED.with(|s| *s.borrow_mut() = Some(m.notify));
    tell("epochs", json!({"m": "subscribe"}))
});
#[allow(dead_code)]
type Unused = BoxFuture<()>;
