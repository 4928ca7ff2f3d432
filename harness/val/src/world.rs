//! Keys, amounts, constants and protocol versions shared by the components.
use crate::run::*;
use serde_json::{Value, json};
use witnet_crypto::{
    secp256k1::{PublicKey as SecpPublic, Secp256k1, SecretKey},
    signature::sign,
};
use witnet_data_structures::{
    chain::{tapi::ActiveWips, *},
    proto::versioning::ProtocolVersion,
};

/// One unit of the specification. 2^64 nanowits are 18446744 units and something.
pub const UNIT: u64 = 1_000_000_000_000;
pub const WIT: u64 = 1_000_000_000;
static SCALE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(UNIT);
/// Nanowits in one unit of the specification at hand
pub fn scale() -> u64 {
    SCALE.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn set_scale(nanowits: u64) {
    SCALE.store(nanowits, std::sync::atomic::Ordering::Relaxed);
}
pub const T0: i64 = 500_000_000;

pub fn amount(units: u64) -> u64 {
    units.checked_mul(scale()).expect("amount out of range")
}
/// Amounts that are no whole number of units cannot agree with anything
pub fn units(v: u64) -> Value {
    if v.is_multiple_of(scale()) { json!(v / scale()) } else { json!(format!("{v} nanowits")) }
}

fn raw_secret(n: u64) -> SecretKey {
    let mut b = [0x42u8; 32];
    b[24..].copy_from_slice(&n.to_be_bytes());
    SecretKey::from_slice(&b).unwrap()
}
fn hash_of(secret: &SecretKey) -> PublicKeyHash {
    PublicKey::from(SecpPublic::from_secret_key(&Secp256k1::new(), secret)).pkh()
}
/// Identities are numbered in the order of their addresses, up to a point
pub fn secret(n: u64) -> SecretKey {
    SECRETS.with(|s| s.get(n as usize).copied().unwrap_or_else(|| raw_secret(n)))
}
thread_local! {
    static SECRETS: Vec<SecretKey> = {
        let mut s: Vec<_> = (0..64).map(raw_secret).collect();
        s.sort_by_cached_key(hash_of);
        s
    };
    static KEYS: std::cell::RefCell<std::collections::HashMap<u64, PublicKey>> = Default::default();
}
pub fn public(n: u64) -> PublicKey {
    KEYS.with(|k| k.borrow_mut().entry(n).or_insert_with(|| PublicKey::from(SecpPublic::from_secret_key(&Secp256k1::new(), &secret(n)))).clone())
}
pub fn pkh(n: u64) -> PublicKeyHash {
    public(n).pkh()
}
pub fn who(p: &PublicKeyHash) -> u64 {
    (0..300).find(|n| pkh(*n) == *p).expect("unknown identity")
}
/// A signature of the hash by the identity, of something else when not good
pub fn signed(n: u64, hash: Hash, good: bool) -> KeyedSignature {
    let Hash::SHA256(mut bytes) = hash;
    if !good {
        bytes[31] ^= 1;
    }
    KeyedSignature { signature: Signature::from(sign(secret(n), &bytes).unwrap()), public_key: public(n) }
}

pub fn wips() -> ActiveWips {
    let mut w = tapi::all_wips_active();
    for v in w.active_wips.values_mut() {
        *v = 0;
    }
    w.block_epoch = 1;
    w
}

/// Activation epochs of the versions, periods of 45 and 20 seconds
pub fn versions(cfg: &Value) -> EpochConstants {
    witnet_data_structures::clear_protocol_info();
    witnet_data_structures::register_protocol_version(ProtocolVersion::V1_7, 0, 45);
    witnet_data_structures::register_protocol_version(ProtocolVersion::V1_8, u(cfg, "a18") as u32, 45);
    witnet_data_structures::register_protocol_version(ProtocolVersion::V2_0, u(cfg, "a20") as u32, 20);
    witnet_data_structures::register_protocol_version(ProtocolVersion::V2_1, u(cfg, "a21") as u32, 20);
    witnet_data_structures::set_environment(if u(cfg, "main") == 1 { Environment::Mainnet } else { Environment::Testnet });
    EpochConstants {
        checkpoint_zero_timestamp: T0,
        checkpoints_period: 45,
        checkpoint_zero_timestamp_wit2: T0 + 45 * u(cfg, "a20") as i64,
        checkpoints_period_wit2: 20,
    }
}

pub fn constants() -> ConsensusConstants {
    ConsensusConstants {
        checkpoint_zero_timestamp: T0,
        checkpoints_period: 45,
        bootstrap_hash: Hash::with_first_u32(0xb007),
        genesis_hash: Hash::with_first_u32(0x9e9e),
        max_vt_weight: 20_000,
        max_dr_weight: 80_000,
        activity_period: 2000,
        reputation_expire_alpha_diff: 20_000,
        reputation_issuance: 1,
        reputation_issuance_stop: 1 << 20,
        reputation_penalization_factor: 0.5,
        mining_backup_factor: 4,
        mining_replication_factor: 3,
        collateral_minimum: UNIT,
        collateral_age: 1000,
        superblock_period: 10,
        extra_rounds: 3,
        minimum_difficulty: 2000,
        epochs_with_minimum_difficulty: 2000,
        bootstrapping_committee: vec![],
        superblock_signing_committee_size: 100,
        superblock_committee_decreasing_period: 5,
        superblock_committee_decreasing_step: 5,
        initial_block_reward: 0,
        halving_period: 1,
    }
}

pub fn verified(to_verify: Vec<SignaturesToVerify>) -> bool {
    thread_local! {
        static VRF: std::cell::RefCell<witnet_data_structures::vrf::VrfCtx> =
            std::cell::RefCell::new(witnet_data_structures::vrf::VrfCtx::secp256k1().unwrap());
    }
    VRF.with(|v| witnet_validations::validations::verify_signatures(to_verify, &mut v.borrow_mut()).map_err(|e| why(&e)).is_ok())
}

/// For whoever debugs the harness
pub fn why(e: &dyn std::fmt::Display) {
    if std::env::var_os("VH_WHY").is_some() {
        eprintln!("why: {e}");
    }
}
