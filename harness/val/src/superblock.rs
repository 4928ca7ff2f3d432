//! Superblocks, their votes and their proofs.
use crate::run::*;
use crate::world::{pkh, public};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use witnet_crypto::hash::calculate_sha256;
use witnet_data_structures::{
    chain::*,
    proto::versioning::{ProtocolVersion, VersionedHashable},
    superblock::*,
    transaction::*,
};

const ID_BASES: [(u64, &[&str]); 6] = [
    (910, &[
        "wit1asdpcspwysf0hg5kgwvgsp2h6g65y5kg9gj5dz", "wit13l337znc5yuualnxfg9s2hu9txylntq5pyazty", "wit17nnjuxmfuu92l6rxhque2qc3u2kvmx2fske4l9",
        "wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq", "wit1cyrlc64hyu0rux7hclmg9rxwxpa0v9pevyaj2c", "wit1g0rkajsgwqux9rnmkfca5tz6djg0f87x7ms5qx",
        "wit1etherz02v4fvqty6jhdawefd0pl33qtevy7s4z",
    ]),
    (920, &[
        "wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq", "wit1drcpu3x42y5vp7w3pe203xrwpnth2pnt6c0dm9", "wit1asdpcspwysf0hg5kgwvgsp2h6g65y5kg9gj5dz",
        "wit1cyrlc64hyu0rux7hclmg9rxwxpa0v9pevyaj2c", "wit1etherz02v4fvqty6jhdawefd0pl33qtevy7s4z", "wit13l337znc5yuualnxfg9s2hu9txylntq5pyazty",
    ]),
    (930, &[
        "wit1asdpcspwysf0hg5kgwvgsp2h6g65y5kg9gj5dz", "wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq", "wit1drcpu3x42y5vp7w3pe203xrwpnth2pnt6c0dm9",
        "wit1fkps4hsrvadr2u9veyk27xrv8yhmldaj8zdlpj", "wit1gnw6gvmkzfwe5tyjd55h7t2j4s68xappl85g5v", "wit1q679r2d8yk0ntmk48k6nprc3fervd627vqe39l",
        "wit1wl200uau9zp072ps0wfpq74kd0a65uhd5c4dfk",
    ]),
    (940, &[
        "wit1c0ucz2u9hwgqflkn4xjeyxtla9tqp0sderzkjr", "wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq", "wit1drcpu3x42y5vp7w3pe203xrwpnth2pnt6c0dm9",
        "wit1llz4vw9mszjqud5pqavf84208entwz73lxekzm", "wit1nawuk8f2hckz6ct9wlzg95fhg3kyjzlrrd99qz", "wit1sp8xnclrhm4j5lrzxwnxerdetzsjqw88kwr05f",
    ]),
    (950, &[
        "wit1pfj66p7n2x7dgrwh4cf0ylhd959e8v9evfh09z", "wit18ac3gly2xln0mtpp2k5rvs05rph2skef6ywnwd", "wit1gdn3d07njg0klyvldl8tq07h8ltm93uytgjj6x",
        "wit1llz4vw9mszjqud5pqavf84208entwz73lxekzm", "wit1nez044farf7qgqsulcm7jhzsfxtn39uknjq0xs", "wit1mczm944722tjvh2md4r6rnls08m0ctgapgew9d",
        "wit137kuzsnljkf6tpzv6dggkldjf5qte3qeh54vv0", "wit1huz7l0dkq9h6chh0d0geum9fnxjcq7pk2kfh7y", "wit1xz7vzhtvmuul922f24tayzf0dz64ellw4yczx6",
        "wit1nawuk8f2hckz6ct9wlzg95fhg3kyjzlrrd99qz", "wit1trkx2ptcxe57yyuql6hxy25r7twg7yc2x4pkfw", "wit1sp8xnclrhm4j5lrzxwnxerdetzsjqw88kwr05f",
    ]),
    (960, &[
        "twit164wvguueu2uuf8ernlw7d40fjalg4njqdzzxyx", "twit1la2gphmexpqx5r5kx957632j9ryzudwvlwqslj", "twit1nfnfj9t6farlsxxlr7egechguxvje9qlu263w4",
        "twit1kk29qm846g96xze9hurhra7rfak3s997fxdq0g",
    ]),
];

pub fn ids(v: &Value, k: &str) -> Vec<u64> {
    arr(v, k).iter().map(|x| x.as_u64().unwrap()).collect()
}
pub fn sha(parts: &[&[u8]]) -> Hash {
    calculate_sha256(&parts.concat()).into()
}
fn merkle(mut level: Vec<Hash>) -> Hash {
    if level.is_empty() {
        return sha(&[]);
    }
    while level.len() > 1 {
        level = level.chunks(2).map(|c| if c.len() == 2 { sha(&[c[0].as_ref(), c[1].as_ref()]) } else { c[0] }).collect();
    }
    level[0]
}
pub fn key(n: u64) -> Bn256PublicKey {
    let mut b = [0x33u8; 32];
    b[24..].copy_from_slice(&n.to_be_bytes());
    Bn256PublicKey::from_secret_key(&Bn256SecretKey::from_slice(&b).unwrap()).unwrap()
}

pub struct SuperSut {
    sbs: SuperBlockState,
    names: Vec<Hash>,
    sb: SuperBlock,
    blocks: Vec<Block>,
    version: ProtocolVersion,
    sent: BTreeMap<(u64, u64, u64, u64), SuperBlockVote>,
}

impl SuperSut {
    pub fn new(cfg: &Value) -> Self {
        witnet_data_structures::clear_protocol_info();
        witnet_data_structures::register_protocol_version(ProtocolVersion::V1_7, 0, 45);
        witnet_data_structures::register_protocol_version(ProtocolVersion::V1_8, u(cfg, "a18") as u32, 45);
        witnet_data_structures::register_protocol_version(ProtocolVersion::V2_0, u(cfg, "a18") as u32 + 100, 20);
        let env = match s(cfg, "env") {
            "main" => "main",
            "test" => "test",
            _ => "dev",
        };
        witnet_data_structures::set_environment(match env {
            "main" => Environment::Mainnet,
            "test" => Environment::Testnet,
            _ => Environment::Development,
        });
        let genesis = Hash::with_first_u32(0x9e9e);
        SuperSut {
            sbs: SuperBlockState::new(genesis, ids(cfg, "boot").into_iter().map(pkh).collect()),
            names: vec![genesis],
            sb: SuperBlock::default(),
            blocks: vec![],
            version: ProtocolVersion::V1_7,
            sent: BTreeMap::new(),
        }
    }
    fn hash(&self, h: u64) -> Hash {
        if h >= 100 { Hash::with_first_u32(h as u32) } else { self.names.get(h as usize).copied().unwrap_or(Hash::with_first_u32(50 + h as u32)) }
    }
    fn name(&mut self, h: Hash) -> u64 {
        if let Some(k) = self.names.iter().position(|x| *x == h) {
            return k as u64;
        }
        self.names.push(h);
        self.names.len() as u64 - 1
    }
    fn known_name(&self, h: &Hash) -> u64 {
        self.names
            .iter()
            .position(|x| x == h)
            .map(|k| k as u64)
            .or((100..130).find(|n| Hash::with_first_u32(*n as u32) == *h))
            .unwrap_or(99)
    }
    fn who(&self, p: &PublicKeyHash) -> u64 {
        (0..300).find(|n| pkh(*n) == *p).unwrap_or(999)
    }
    fn vote(&self, w: u64, h: u64, i: u64, s: u64) -> SuperBlockVote {
        let mut v = SuperBlockVote::new_unsigned(self.hash(h), i as u32);
        v.set_bn256_signature(Bn256Signature { signature: vec![s as u8; 3] });
        v.set_secp256k1_signature(KeyedSignature { public_key: public(w), ..KeyedSignature::default() });
        v
    }
    fn block(op: &Value, version: ProtocolVersion) -> Block {
        let id = u(op, "id");
        let mut txns = BlockTransactions::default();
        for k in 0..u(op, "drs") {
            let dr = DataRequestOutput { witness_reward: id * 1000 + k, ..DataRequestOutput::default() };
            txns.data_request_txns.push(DRTransaction::new(DRTransactionBody::new(vec![], dr, vec![]), vec![]));
        }
        for k in 0..u(op, "tal") {
            txns.tally_txns.push(TallyTransaction::new(Hash::with_first_u32(id as u32), vec![k as u8, 7], vec![], vec![pkh(k % 5)], vec![]));
        }
        let header = BlockHeader {
            beacon: CheckpointBeacon { checkpoint: id as u32, hash_prev_block: Hash::with_first_u32(id as u32 + 1) },
            merkle_roots: BlockMerkleRoots::from_transactions(&txns, version),
            ..BlockHeader::default()
        };
        Block::new(header, KeyedSignature::default(), txns)
    }
    /// Build on the given state; what the superblock says, in the words of the specification
    fn build(&mut self, sbs: &mut SuperBlockState, op: &Value) -> (SuperBlock, Vec<Block>, Value) {
        let ep = u(op, "ep") as u32;
        let idx = u(op, "idx") as u32;
        let version = ProtocolVersion::from_epoch(ep);
        let last = Hash::with_first_u32(u(op, "last") as u32);
        let blocks: Vec<Block> = arr(op, "blocks").iter().map(|b| Self::block(b, version)).collect();
        let headers: Vec<BlockHeader> = blocks.iter().map(|b| b.block_header.clone()).collect();
        let ars = ids(op, "ars");
        let mut keys = AltKeys::default();
        for k in ids(op, "keys") {
            keys.insert_bn256(pkh(k), key(k));
        }
        let sync = arr(op, "sync").first().map(|l| SuperBlock::new(l.as_u64().unwrap() as u32, Hash::default(), Hash::default(), idx, last, last, Hash::with_first_u32(77)));
        let before = sbs.get_beacon().hash_prev_block;
        let d = json!({
            "dg": sha(&[before.as_ref(), &idx.to_be_bytes()]).as_ref(),
            "hb": before.as_ref()[0],
            "xb": sha(&[&idx.to_be_bytes()]).as_ref()[0],
        });
        let sb = sbs.build_superblock(
            &headers,
            ARSIdentities::new(ars.iter().map(|n| pkh(*n)).collect()),
            u(op, "size") as u32,
            idx,
            last,
            &keys,
            sync.clone(),
            ep,
        );
        let name = self.name(sb.hash());
        let said = if let Some(given) = sync {
            json!({"len": sb.signing_committee_length, "idx": sb.index, "keys": [], "prev": op["last"], "drs": [], "tal": [], "last": [0, op["last"]], "sync": if sb == given { 1 } else { 2 }})
        } else {
            let with_keys: Vec<u64> = ars.iter().filter(|n| ids(op, "keys").contains(n)).copied().collect();
            let tags = |f: &str| -> Vec<u64> { arr(op, "blocks").iter().map(|b| if u(b, f) == 0 { 0 } else { u(b, "id") }).collect() };
            let root = |f: &dyn Fn(&Block) -> Vec<Hash>| if blocks.is_empty() { Hash::default() } else { merkle(blocks.iter().map(|b| merkle(f(b))).collect()) };
            let drs = root(&|b| b.txns.data_request_txns.iter().map(|t| sha(&[t.body.dr_output.versioned_hash(version).as_ref(), t.body.rest_poi_hash(version).as_ref()])).collect());
            let tal = root(&|b| b.txns.tally_txns.iter().map(|t| sha(&[t.data_poi_hash().as_ref(), t.rest_poi_hash(version).as_ref()])).collect());
            let from = if sb.last_block == last {
                json!([0, op["last"]])
            } else {
                let find = |k: u64, v: ProtocolVersion| headers.iter().position(|h| h.versioned_hash(v) == sb.last_block).map(|i| json!([k, u(&arr(op, "blocks")[i], "id")]));
                find(1, ProtocolVersion::V1_7).or(find(2, ProtocolVersion::V2_0)).unwrap_or(json!([9, 9]))
            };
            let keys_root = merkle(with_keys.iter().map(|n| sha(&[&key(*n).to_uncompressed().unwrap()])).collect());
            json!({
                "len": sb.signing_committee_length,
                "idx": sb.index,
                "keys": if sb.ars_root == keys_root { json!(with_keys) } else { json!([999]) },
                "prev": if sb.last_block_in_previous_superblock == last { op["last"].clone() } else { json!(99999) },
                "drs": if sb.data_request_root == drs { json!(tags("drs")) } else { json!([99999]) },
                "tal": if sb.tally_root == tal { json!(tags("tal")) } else { json!([99999]) },
                "last": from,
                "sync": 0,
            })
        };
        (sb, blocks, json!({"given": d, "name": name, "sb": said}))
    }
    fn prove(&self, op: &Value) -> Value {
        let (b, k) = (u(op, "b") as usize - 1, u(op, "k") as usize - 1);
        let none = DRTransaction::new(DRTransactionBody::new(vec![], DataRequestOutput { witness_reward: 999_999, ..DataRequestOutput::default() }, vec![]), vec![]);
        let (proof, leaf, root) = if s(op, "kind") == "dr" {
            let tx = self.blocks.get(b).and_then(|b| b.txns.data_request_txns.get(k)).cloned().unwrap_or(none);
            (self.sb.dr_proof_of_inclusion(&self.blocks, &tx), tx.body.dr_output.versioned_hash(self.version), self.sb.data_request_root)
        } else {
            let tx = self.blocks.get(b).and_then(|b| b.txns.tally_txns.get(k)).cloned().unwrap_or(TallyTransaction::new(Hash::default(), vec![], vec![], vec![], vec![]));
            (self.sb.tally_proof_of_inclusion(&self.blocks, &tx, self.version), tx.data_poi_hash(), self.sb.tally_root)
        };
        match proof {
            None => json!({"res": [], "holds": true}),
            Some(p) => {
                let mut h = leaf;
                for (i, x) in p.lemma.iter().enumerate() {
                    h = if p.index >> i & 1 == 1 { sha(&[x.as_ref(), h.as_ref()]) } else { sha(&[h.as_ref(), x.as_ref()]) };
                }
                json!({"res": [p.index, p.lemma.len()], "holds": h == root})
            }
        }
    }
    fn as_json(&self, v: &SuperBlockVote) -> Value {
        json!({"w": self.who(&v.secp256k1_signature.public_key.pkh()), "h": self.known_name(&v.superblock_hash), "i": v.superblock_index, "s": v.bn256_signature.signature[0]})
    }
}

impl Sut for SuperSut {
    fn step(&mut self, op: &Value) -> Value {
        let mut obs = match s(op, "op") {
            "vote" => {
                let (w, h, i, sg) = (u(op, "w"), u(op, "h"), u(op, "i"), u(op, "s"));
                let v = self.vote(w, h, i, sg);
                self.sent.insert((w, h, i, sg), v.clone());
                json!({"res": match self.sbs.add_vote(&v, u(op, "now") as u32) {
                    AddSuperBlockVote::AlreadySeen => "seen",
                    AddSuperBlockVote::DoubleVote => "double",
                    AddSuperBlockVote::InvalidIndex => "index",
                    AddSuperBlockVote::MaybeValid => "maybe",
                    AddSuperBlockVote::NotInSigningCommittee => "out",
                    AddSuperBlockVote::ValidButDifferentHash => "other",
                    AddSuperBlockVote::ValidWithSameHash => "same",
                }})
            }
            "peek" => {
                let mut copy = self.sbs.clone();
                self.build(&mut copy, op).2
            }
            "build" => {
                let mut sbs = std::mem::take(&mut self.sbs);
                let (sb, blocks, obs) = self.build(&mut sbs, op);
                self.sbs = sbs;
                self.sb = sb;
                self.blocks = blocks;
                self.version = ProtocolVersion::from_epoch(u(op, "ep") as u32);
                obs
            }
            "prove" => self.prove(op),
            "size" => {
                let f = |k: &str| u(op, k) as u32;
                json!({"res": crate::consolidate::current_committee_size_requirement(f("std"), f("was"), f("period"), f("step"), f("conf"), f("cur"), f("boot"), f("min"))})
            }
            "boot" => {
                let c = ConsensusConstants { collateral_age: u(op, "age") as u32, activity_period: u(op, "active") as u32, superblock_period: u(op, "period") as u16, ..crate::world::constants() };
                json!({"res": crate::consolidate::last_superblock_signed_by_bootstrap(&c)})
            }
            _ => bad_op(op),
        };
        // the state of a node goes through its storage at times
        if op["stored"] == json!(1) {
            self.sbs = serde_json::from_str(&serde_json::to_string(&self.sbs).unwrap()).unwrap_or_else(|_| self.sbs.clone());
        }
        let verdict = match self.sbs.has_consensus() {
            SuperBlockConsensus::SameAsLocal => json!(["same"]),
            SuperBlockConsensus::Different(h) => json!(["different", self.known_name(&h)]),
            SuperBlockConsensus::NoConsensus => json!(["none"]),
            SuperBlockConsensus::Unknown => json!(["unknown"]),
        };
        let beacon = self.sbs.get_beacon();
        let votes: Vec<Value> = self.sbs.get_current_superblock_votes().iter().map(|v| self.as_json(v)).collect();
        let mut hashes: Vec<(u64, Hash)> = self.names.iter().enumerate().map(|(k, h)| (k as u64, *h)).collect();
        hashes.extend((100..106).map(|n| (n, Hash::with_first_u32(n as u32))));
        let per: Vec<Value> = hashes.iter().map(|(n, h)| json!([n, self.sbs.votes_counter_from_superblock(h)])).collect();
        // an address may be in several of the fixed committees: take the one that holds all of them
        let text = self.sbs.signing_committee_pretty();
        let whole = ID_BASES.iter().find(|(_, l)| l.len() == text.len() && text.iter().all(|t| l.contains(&t.as_str())));
        let committee: Vec<u64> = match whole {
            Some((base, l)) => (1..=l.len() as u64).map(|k| base + k).collect(),
            None => text.iter().map(|t| (0..300).find(|n| pkh(*n).to_string() == *t).unwrap_or(999)).collect(),
        };
        let o = obs.as_object_mut().unwrap();
        o.insert("comm".into(), json!(committee));
        o.insert("len".into(), json!(self.sbs.get_committee_length()));
        o.insert("beacon".into(), json!([beacon.checkpoint, self.known_name(&beacon.hash_prev_block)]));
        o.insert("verdict".into(), verdict);
        o.insert("votes".into(), json!(votes));
        o.insert("valid".into(), json!(self.sbs.valid_votes_counter()));
        o.insert("per".into(), json!(per));
        o.insert("most".into(), self.sbs.most_voted_superblock().map(|(h, n)| json!([self.known_name(&h), n])).unwrap_or(json!([])));
        o.insert("known".into(), json!(self.sent.values().filter(|v| self.sbs.contains(v)).map(|v| self.as_json(v)).collect::<Vec<_>>()));
        obs
    }
}
