//! The session of a node with a peer: the actor and the codec of the repository, on an actor system of one thread.
#![allow(dead_code, unused_imports, clippy::all)]
#[path = "../../common/run.rs"]
mod run;
#[path = "actix.rs"]
pub mod actor_system;
pub mod node;

// what the actors know as crates
extern crate self as actix;
extern crate self as witnet_util;
pub use actor_system::*;
pub mod timestamp {
    pub fn get_timestamp() -> i64 {
        crate::node::NOW.with(|n| *n.borrow())
    }
    pub fn pretty_print(s: i64, _n: u32) -> String {
        s.to_string()
    }
}
pub mod actors {
    #[path = "/repo/node/src/actors/codec.rs"]
    pub mod codec;
    #[path = "/repo/node/src/actors/session/mod.rs"]
    pub mod session;
    pub use crate::node::{chain_manager, epoch_manager, inventory_manager, messages, peers_manager, sessions_manager};
}
use actors::{codec::P2PCodec, messages::*, session::Session};
use bytes::BytesMut;
use node::{NOW, WORLD, World};
use run::{Sut, arr, b, bad_op, s, u};
use serde_json::{Value, json};
use std::{cell::RefCell, net::SocketAddr, sync::Arc};
use tokio_util::codec::{Decoder, Encoder};
use witnet_data_structures::{
    builders::from_address,
    chain::*,
    proto::{
        ProtobufConvert,
        versioning::{ProtocolVersion, Versioned, VersionedHashable},
    },
    register_protocol_version,
    staking::prelude::StakeKey,
    transaction::*,
    types::{Message as Wire, *},
};
pub use actor_system::Message;
use witnet_p2p::sessions::SessionType;

thread_local! { pub static WRITTEN: RefCell<BytesMut> = RefCell::new(BytesMut::new()); }
const MAGIC: u16 = 0x1234;

// ------------------------------------------------------------------ the things of this world, and their names
pub fn remote() -> SocketAddr {
    "203.0.113.7:21337".parse().unwrap()
}
pub fn addr(n: u64) -> SocketAddr {
    if n % 2 == 1 { format!("127.0.0.{n}:{}", 1000 + n) } else { format!("[2001:db8:5:6:7:8:9:{n:x}]:{}", 65500 + n) }.parse().unwrap()
}
pub fn addr_id(a: &SocketAddr) -> u64 {
    if *a == "0.0.0.0:0".parse().unwrap() { 0 } else { (1..20).find(|n| addr(*n) == *a).unwrap_or(99) }
}
pub fn type_id(t: SessionType) -> &'static str {
    match t {
        SessionType::Inbound => "in",
        SessionType::Outbound => "out",
        SessionType::Feeler => "feel",
    }
}
fn h(n: u64) -> Hash {
    Hash::SHA256([n as u8; 32])
}
fn pkh(n: u64) -> PublicKeyHash {
    PublicKeyHash::from_bytes(&[n as u8; 20]).unwrap()
}
fn signed(n: u64) -> KeyedSignature {
    let mut public_key = PublicKey::default();
    public_key.bytes = [n as u8; 32];
    public_key.compressed = 2;
    KeyedSignature { signature: Signature::Secp256k1(Secp256k1Signature { der: vec![n as u8; 70] }), public_key }
}
fn bn256() -> Bn256PublicKey {
    let mut k = Bn256PublicKey::default();
    k.public_key = vec![5; 65];
    k
}
fn tx(n: u64) -> Transaction {
    let inputs = vec![Input::new(OutputPointer { transaction_id: h(n), output_index: 300 + n as u32 })];
    let outputs = vec![ValueTransferOutput { pkh: pkh(n), value: 1 << (5 * n), time_lock: if n == 2 { u64::MAX } else { 0 } }];
    let request = DataRequestOutput {
        data_request: RADRequest {
            time_lock: 7,
            retrieve: vec![RADRetrieve { kind: RADType::HttpPost, url: "http://a".into(), script: vec![0x80], body: vec![1, 2], headers: vec![("a".into(), "b".into())] }, RADRetrieve { kind: RADType::Rng, ..Default::default() }],
            aggregate: RADAggregate { filters: vec![RADFilter { op: 8, args: vec![1] }], reducer: 3 },
            tally: RADTally { filters: vec![], reducer: 11 },
        },
        witness_reward: u64::MAX,
        witnesses: u16::MAX,
        commit_and_reveal_fee: 1,
        min_consensus_percentage: 51,
        collateral: 5,
    };
    match n {
        1 => Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(inputs, outputs), vec![signed(n)])),
        2 => Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(inputs, request, outputs), vec![signed(n), signed(9)])),
        3 => Transaction::Commit(CommitTransaction::new(CommitTransactionBody::new(h(3), h(4), Default::default(), inputs, outputs, Some(bn256())), vec![signed(n)])),
        4 => Transaction::Reveal(RevealTransaction::new(RevealTransactionBody::new(h(4), vec![0x19, 1], pkh(4)), vec![signed(n)])),
        5 => Transaction::Tally(TallyTransaction::new(h(5), vec![0x18, 0x20], outputs, vec![pkh(1), pkh(2)], vec![pkh(3)])),
        6 => Transaction::Mint(MintTransaction::new(6, outputs)),
        7 => Transaction::Stake(StakeTransaction::new(StakeTransactionBody::new(inputs, StakeOutput { value: 10, key: StakeKey { validator: pkh(1), withdrawer: pkh(2) }, authorization: signed(7) }, outputs.into_iter().next()), vec![signed(n)])),
        _ => Transaction::Unstake(UnstakeTransaction::new(UnstakeTransactionBody::new(pkh(8), outputs.into_iter().next().unwrap(), 3, 4), signed(n))),
    }
}
pub fn tx_id(t: &Transaction) -> u64 {
    (1..=8).find(|n| tx(*n) == *t).unwrap_or(99)
}
fn superblock(n: u64) -> SuperBlock {
    SuperBlock::new(7, h(n), h(5), n as u32, h(n + 1), h(6), h(8))
}
pub fn super_id(x: &SuperBlock) -> u64 {
    if superblock(u64::from(x.index)) == *x { u64::from(x.index) } else { 99 }
}
pub fn vote(n: u64) -> SuperBlockVote {
    SuperBlockVote { bn256_signature: Bn256Signature { signature: vec![n as u8; 33] }, secp256k1_signature: signed(n), superblock_hash: h(n), superblock_index: n as u32 }
}
pub fn vote_id(x: &SuperBlockVote) -> u64 {
    let n = u64::from(x.superblock_index);
    if vote(n) == *x { n } else { 99 }
}
const EPOCHS: [u32; 8] = [3, 8, 9, 10, 12, 12, 12, 8];
fn block(n: u64) -> Block {
    // the eighth has the header of the second
    let head = if n == 8 { 2 } else { n };
    let same = if head == 7 { 6 } else { head };
    let mut x = Block::new(
        BlockHeader {
            signals: same as u32,
            beacon: CheckpointBeacon { checkpoint: EPOCHS[n as usize - 1], hash_prev_block: h(same) },
            merkle_roots: BlockMerkleRoots {
                mint_hash: h(same),
                vt_hash_merkle_root: h(13),
                dr_hash_merkle_root: h(14),
                commit_hash_merkle_root: h(15),
                reveal_hash_merkle_root: h(16),
                tally_hash_merkle_root: h(17),
                ..Default::default()
            },
            proof: Default::default(),
            bn256_public_key: (same % 2 == 1).then(bn256),
        },
        signed(same),
        Default::default(),
    );
    if let (Transaction::Mint(m), Transaction::ValueTransfer(v), Transaction::Stake(st), Transaction::Unstake(un)) = (tx(6), tx(1), tx(7), tx(8)) {
        x.txns.mint = m;
        if n != 8 {
            x.txns.value_transfer_txns = vec![v];
        }
        // the rest is in odd ones
        if let (Transaction::DataRequest(d), Transaction::Commit(c), Transaction::Reveal(r), Transaction::Tally(t)) = (tx(2), tx(3), tx(4), tx(5)) {
            if same % 2 == 1 {
                x.txns.data_request_txns = vec![d.clone(), d];
                x.txns.commit_txns = vec![c];
                x.txns.reveal_txns = vec![r.clone(), r.clone(), r];
                x.txns.tally_txns = vec![t];
            }
        }
        if n == 6 {
            x.block_header.merkle_roots.stake_hash_merkle_root = h(1);
            x.block_header.merkle_roots.unstake_hash_merkle_root = h(2);
            x.txns.stake_txns = vec![st];
            x.txns.unstake_txns = vec![un];
        }
    }
    x
}
pub fn block_id(x: &Block) -> u64 {
    (1..=8).find(|n| block(*n) == *x).unwrap_or(99)
}
/// By the terms of a version of the protocol, or those of its own epoch
pub fn hash_of(n: u64, v: Option<u64>) -> Hash {
    block(n).versioned_hash(match v {
        None => witnet_data_structures::get_protocol_version(Some(EPOCHS[n as usize - 1])),
        Some(0) => ProtocolVersion::V1_7,
        Some(1) => ProtocolVersion::V1_8,
        _ => ProtocolVersion::V2_0,
    })
}
fn to_entry(v: &Value) -> InventoryEntry {
    match s(v, "k") {
        "block" => InventoryEntry::Block(hash_of(u(v, "n"), v["v"].as_u64())),
        "tx" => InventoryEntry::Tx(h(u(v, "n"))),
        _ => InventoryEntry::SuperBlock(u(v, "n") as u32),
    }
}
pub fn entry(e: &InventoryEntry) -> Value {
    match e {
        InventoryEntry::Block(x) => [7, 1, 2, 3, 4, 5, 6]
            .into_iter()
            .flat_map(|n| [(n, 0), (n, 1)])
            .find(|(n, v)| hash_of(*n, Some(*v)) == *x)
            .map_or(json!({"k": "block", "n": 99, "v": 0}), |(n, v)| json!({"k": "block", "n": n, "v": v})),
        InventoryEntry::Tx(x) => json!({"k": "tx", "n": (1..20).find(|n| h(*n) == *x).unwrap_or(99), "v": 0}),
        InventoryEntry::SuperBlock(n) => json!({"k": "super", "n": n, "v": 0}),
    }
}
pub fn item(k: &str, n: u64) -> InventoryItem {
    match k {
        "block" => InventoryItem::Block(block(n)),
        "tx" => InventoryItem::Transaction(tx(n)),
        _ => InventoryItem::SuperBlock(superblock(n)),
    }
}
pub fn beacon(x: &LastBeacon) -> Value {
    let id = |h: &Hash| match h {
        Hash::SHA256(x) => x[0],
    };
    json!({"cp": x.highest_block_checkpoint.checkpoint, "sb": x.highest_superblock_checkpoint.checkpoint, "h": id(&x.highest_superblock_checkpoint.hash_prev_block)})
}
fn to_beacon(v: &Value) -> LastBeacon {
    LastBeacon {
        highest_block_checkpoint: CheckpointBeacon { checkpoint: u(v, "cp") as u32, hash_prev_block: h(77) },
        highest_superblock_checkpoint: CheckpointBeacon { checkpoint: u(v, "sb") as u32, hash_prev_block: h(u(v, "h")) },
    }
}
fn address(n: u64) -> Address {
    if n == 0 {
        return Address::default();
    }
    match addr(n) {
        SocketAddr::V4(a) => Address { ip: IpAddress::Ipv4 { ip: u32::from_be_bytes(a.ip().octets()) }, port: a.port() },
        SocketAddr::V6(a) => {
            let o = a.ip().octets();
            let w = |i: usize| u32::from_be_bytes([o[i], o[i + 1], o[i + 2], o[i + 3]]);
            Address { ip: IpAddress::Ipv6 { ip0: w(0), ip1: w(4), ip2: w(8), ip3: w(12) }, port: a.port() }
        }
    }
}
fn entries(v: &Value) -> Vec<InventoryEntry> {
    arr(v, "es").iter().map(to_entry).collect()
}

// ----------------------------------------------------------------------------------- what comes from the peer
fn field(n: u64, bytes: &[u8]) -> Vec<u8> {
    [&[(n << 3 | 2) as u8, bytes.len() as u8], bytes].concat()
}
fn junk(kind: &str) -> Vec<u8> {
    let magic = [8u8, 0xb4, 0x24];
    let command = |n: u64, body: &[u8]| [&magic[..], &field(2, &field(n, body))].concat();
    match kind {
        "empty" => vec![],
        "garble" => vec![0xff; 7],
        "nokind" => [&magic[..], &field(2, &[])].concat(),
        "half" => command(1, &[8, 1]),
        "address" => command(4, &field(1, &field(1, &[127, 0, 0, 1, 5]))),
        "blockless" => command(5, &[]),
        "hash" => command(6, &field(1, &field(1, &field(1, &[7; 31])))),
        "magic" => [&[8u8, 0xf0, 0xa2, 0x04], &field(2, &field(2, &[]))[..]].concat(),
        "cut" => {
            let mut x = Wire { magic: MAGIC, kind: Command::SuperBlockVote(vote(3)) }.to_pb_bytes().unwrap();
            x.truncate(x.len() - 3);
            x
        }
        x => panic!("unknown junk {x}"),
    }
}
fn written(op: &Value) -> Vec<u8> {
    let d = &op["d"];
    let kind = match s(op, "m") {
        "version" => Command::Version(Version {
            version: 1,
            timestamp: match d["ts"].as_i64().unwrap() {
                2_000_000_000 => i64::MAX,
                -2_000_000_000 => i64::MIN,
                t => NOW.with(|n| *n.borrow()) + t,
            },
            capabilities: 1,
            sender_address: address(u(d, "sender")),
            receiver_address: address(1),
            user_agent: "a peer".into(),
            nonce: 5,
            beacon: to_beacon(d),
        }),
        "verack" => Command::Verack(Verack),
        "getpeers" => Command::GetPeers(GetPeers),
        "peers" => Command::Peers(Peers { peers: arr(d, "as").iter().map(|x| address(x.as_u64().unwrap())).collect() }),
        "invreq" => Command::InventoryRequest(InventoryRequest { inventory: entries(d) }),
        "inv" => Command::InventoryAnnouncement(InventoryAnnouncement { inventory: entries(d) }),
        "tx" => Command::Transaction(tx(u(d, "n"))),
        "super" => Command::SuperBlock(superblock(u(d, "n"))),
        "vote" => Command::SuperBlockVote(vote(u(d, "n"))),
        "block" => Command::Block(block(u(d, "n"))),
        "beacon" => Command::LastBeacon(to_beacon(d)),
        "junk" => return junk(s(d, "kind")),
        _ => bad_op(op),
    };
    let m = Wire { magic: if b(op, "ours") { MAGIC } else { 0x4321 }, kind };
    m.to_versioned_pb_bytes(match u(op, "enc") {
        0 => ProtocolVersion::V1_7,
        1 => ProtocolVersion::V1_8,
        _ => ProtocolVersion::V2_0,
    })
    .unwrap()
}
/// What went to the peer, read as the peer would
fn read(m: Wire) -> Value {
    assert!(m.magic == MAGIC, "another network");
    match m.kind {
        Command::Version(v) => {
            let real = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
            assert!((real - v.timestamp).abs() < 120, "not the time");
            assert!(from_address(&v.receiver_address) == remote(), "to somebody else");
            let mut x = beacon(&v.beacon);
            x["m"] = json!("version");
            x["sender"] = json!(addr_id(&from_address(&v.sender_address)));
            x
        }
        Command::Verack(_) => json!({"m": "verack"}),
        Command::GetPeers(_) => json!({"m": "getpeers"}),
        Command::Peers(p) => json!({"m": "peers", "as": p.peers.iter().map(|a| addr_id(&from_address(a))).collect::<Vec<_>>()}),
        Command::InventoryRequest(r) => json!({"m": "invreq", "es": r.inventory.iter().map(entry).collect::<Vec<_>>()}),
        Command::InventoryAnnouncement(r) => json!({"m": "inv", "es": r.inventory.iter().map(entry).collect::<Vec<_>>()}),
        Command::Transaction(t) => json!({"m": "tx", "n": tx_id(&t)}),
        Command::SuperBlock(x) => json!({"m": "super", "n": super_id(&x)}),
        Command::SuperBlockVote(x) => json!({"m": "vote", "n": vote_id(&x)}),
        Command::Block(x) => json!({"m": "block", "n": block_id(&x)}),
        Command::LastBeacon(x) => {
            let mut y = beacon(&x);
            y["m"] = json!("beacon");
            y
        }
    }
}

// --------------------------------------------------------------------------------------------- the session
struct SessionSut {
    actor: Option<Addr<Session>>,
    /// what the peer has written and did not arrive yet, frame by frame: the ends of its pieces, and its bytes
    wire: std::collections::VecDeque<(Vec<usize>, usize, Vec<u8>)>,
    buffer: BytesMut,
    codec: P2PCodec,
    eof: bool,
}
impl SessionSut {
    fn start(&mut self, c: &Value) {
        let old = SYSTEM.with(|s| std::mem::take(&mut *s.borrow_mut()));
        drop(old);
        STOPPED.with(|s| *s.borrow_mut() = false);
        WRITTEN.with(|w| w.borrow_mut().clear());
        node::SUBSCRIBED.with(|s| *s.borrow_mut() = None);
        WORLD.with(|w| {
            let mut w = w.borrow_mut();
            w.waits = None;
            w.epoch = c["epoch"].clone();
            w.reg = s(c, "reg").into();
        });
        *self = SessionSut { actor: None, wire: Default::default(), buffer: BytesMut::new(), codec: P2PCodec, eof: false };
        let mut config = witnet_config::config::Config::from_partial(&witnet_config::config::PartialConfig::default());
        config.connections.handshake_max_ts_diff = u(c, "maxdiff") as i64;
        config.connections.requested_blocks_batch_limit = u(c, "limit") as u32;
        config.connections.blocks_timeout = u(c, "tmo") as i64;
        config.consensus_constants.superblock_period = u(c, "sbp") as u16;
        let target = &c["target"];
        let session = Session::new(
            (u(c, "pub") != 0).then(|| addr(u(c, "pub"))),
            remote(),
            match s(c, "type") {
                "in" => SessionType::Inbound,
                "out" => SessionType::Outbound,
                _ => SessionType::Feeler,
            },
            actor_system::io::FramedWrite::of(P2PCodec),
            MAGIC,
            u(c, "first") as u32,
            to_beacon(&c["beacon"]),
            Arc::new(config),
            b(target, "on").then(|| CheckpointBeacon { checkpoint: u(target, "sb") as u32, hash_prev_block: h(u(target, "h")) }),
        );
        self.actor = Some(session.start());
        actor_system::settle();
        self.after();
    }
    fn free(&self) -> bool {
        self.actor.is_some() && SYSTEM.with(|s| s.borrow().tasks.is_empty())
    }
    fn after(&mut self) {
        if STOPPED.with(|s| *s.borrow()) && self.actor.is_some() {
            let a = self.actor.take().unwrap();
            let old = SYSTEM.with(|s| std::mem::take(&mut s.borrow_mut().tasks));
            drop(old);
            WORLD.with(|w| w.borrow_mut().waits = None);
            a.0.borrow_mut().stopping(&mut Context::of(&a));
            self.wire.clear();
            self.buffer.clear();
        }
    }
    /// As a stream of frames is read
    fn pump(&mut self) {
        while self.free() {
            let a = self.actor.clone().unwrap();
            match self.codec.decode(&mut self.buffer) {
                Ok(Some(frame)) => StreamHandler::handle(&mut *a.0.borrow_mut(), Ok(frame), &mut Context::of(&a)),
                Err(e) => StreamHandler::handle(&mut *a.0.borrow_mut(), Err(e), &mut Context::of(&a)),
                Ok(None) if self.eof => {
                    if !self.buffer.is_empty() {
                        let e = std::io::Error::other("bytes remaining on stream");
                        StreamHandler::handle(&mut *a.0.borrow_mut(), Err(e), &mut Context::of(&a));
                    }
                    StreamHandler::finished(&mut *a.0.borrow_mut(), &mut Context::of(&a));
                }
                Ok(None) => return,
            }
            actor_system::settle();
            self.after();
        }
    }
    fn deliver<M: actor_system::Message>(&mut self, m: M)
    where
        Session: Handler<M>,
    {
        if self.free() {
            self.actor.clone().unwrap().do_send(m);
            actor_system::settle();
            self.after();
        }
    }
}
impl Sut for SessionSut {
    fn step(&mut self, op: &Value) -> Value {
        match s(op, "op") {
            "start" => self.start(&op["c"]),
            "push" => {
                if self.actor.is_some() && !self.eof {
                    let body = written(op);
                    let frame = [&(body.len() as u32).to_be_bytes()[..], &body].concat();
                    let n = frame.len();
                    // the first piece ends within the header
                    self.wire.push_back((vec![2.min(n), (n / 2).max(3), (n - 1).max(3), n], 0, frame));
                }
            }
            "flow" => {
                let mut chunk = vec![];
                for _ in 0..u(op, "n") {
                    let Some((ends, k, frame)) = self.wire.front_mut() else { break };
                    let from = if *k == 0 { 0 } else { ends[*k - 1] };
                    chunk.extend_from_slice(&frame[from..ends[*k]]);
                    *k += 1;
                    if *k == 4 {
                        self.wire.pop_front();
                    }
                }
                if self.actor.is_some() {
                    self.buffer.extend_from_slice(&chunk);
                }
                self.pump();
            }
            "hangup" => {
                if self.actor.is_some() {
                    self.eof = true;
                    self.wire.clear();
                }
                self.pump();
            }
            "answer" => {
                if let Some((_, slot)) = WORLD.with(|w| w.borrow_mut().waits.take()) {
                    *slot.borrow_mut() = Some(op.clone());
                    actor_system::settle();
                    self.after();
                    self.pump();
                }
            }
            "getpeers" => {
                for _ in 0..u(op, "n") {
                    self.deliver(SendGetPeers)
                }
            }
            "say" => match s(op, "m") {
                "beacon" => self.deliver(SendLastBeacon { last_beacon: to_beacon(op) }),
                "vote" => self.deliver(SendSuperBlockVote { superblock_vote: vote(u(op, "n")) }),
                k => self.deliver(SendInventoryItem { item: item(k, u(op, "n")) }),
            },
            "list" => match s(op, "m") {
                "inv" => self.deliver(SendInventoryAnnouncement { items: entries(op) }),
                _ => self.deliver(SendInventoryRequest { items: entries(op) }),
            },
            "epoch" => self.epoch(u(op, "n") as u32),
            "expire" => {
                if self.free() {
                    if let Some(t) = SYSTEM.with(|s| s.borrow_mut().timers.pop()) {
                        (t.1)();
                        actor_system::settle();
                        self.after();
                    }
                }
            }
            "close" => self.deliver(CloseSession),
            "have" => WORLD.with(|w| w.borrow_mut().have = arr(op, "es").iter().map(|e| json!({"k": e["k"], "n": e["n"]})).collect()),
            "time" => NOW.with(|n| *n.borrow_mut() += u(op, "by") as i64),
            _ => bad_op(op),
        }
        let mut o = json!({"on": if self.actor.is_some() { "on" } else { "gone" }, "sent": [], "chain": [], "peers": [], "sess": [], "epochs": []});
        o["waits"] = json!(WORLD.with(|w| w.borrow().waits.as_ref().map_or("none", |x| x.0)));
        for (who, what) in WORLD.with(|w| std::mem::take(&mut w.borrow_mut().told)) {
            o[who].as_array_mut().unwrap().push(what);
        }
        // the frames that were written, by their definition
        let bytes = WRITTEN.with(|w| w.borrow_mut().split());
        let mut rest = &bytes[..];
        while !rest.is_empty() {
            let n = u32::from_be_bytes(rest[..4].try_into().unwrap()) as usize;
            o["sent"].as_array_mut().unwrap().push(read(Wire::from_pb_bytes(&rest[4..4 + n]).unwrap()));
            rest = &rest[4 + n..];
        }
        o
    }
}
impl SessionSut {
    /// Only one that subscribed is told
    fn epoch(&mut self, n: u32) {
        if let Some(f) = node::SUBSCRIBED.with(|s| s.borrow().clone()).filter(|_| self.free()) {
            f(n);
            actor_system::settle();
            self.after();
        }
    }
}

fn main() {
    run::run(|component, _cfg| match component {
        "session" => {
            NOW.with(|n| *n.borrow_mut() = 1000);
            WORLD.with(|w| *w.borrow_mut() = World::default());
            witnet_data_structures::clear_protocol_info();
            register_protocol_version(ProtocolVersion::V1_7, 0, 45);
            register_protocol_version(ProtocolVersion::V1_8, 10, 45);
            register_protocol_version(ProtocolVersion::V2_0, 20, 20);
            Box::new(SessionSut { actor: None, wire: Default::default(), buffer: BytesMut::new(), codec: P2PCodec, eof: false })
        }
        x => panic!("unknown component {x}"),
    });
}
