#[path = "../../common/run.rs"]
mod run;
mod blocks;
mod radon;
mod repengine;
mod elig;
mod net;
mod priority;
mod rounds;
mod spend;
mod superblock;
mod upgrades;
mod world;

use run::*;
use serde_json::Value;

fn make(component: &str, cfg: &Value) -> Box<dyn Sut> {
    match component {
        "blocks" => Box::new(blocks::BlocksSut::new(cfg)),
        "elig" => Box::new(elig::EligSut::new(cfg)),
        "repengine" => Box::new(repengine::RepSut::new(cfg)),
        "cands" => Box::new(repengine::CandSut),
        "priority" => Box::new(priority::PrioritySut::new(cfg)),
        "rounds" => Box::new(rounds::RoundsSut::new(cfg)),
        "superblock" => Box::new(superblock::SuperSut::new(cfg)),
        "tally" => Box::new(radon::TallySut),
        "script" => Box::new(radon::ScriptSut),
        "spend" => Box::new(spend::SpendSut::new(cfg)),
        "tapi" => Box::new(upgrades::TapiSut::default()),
        "clock" => Box::new(upgrades::ClockSut::new(cfg)),
        "versions" => Box::new(upgrades::VersionsSut::new(cfg)),
        "peers" => Box::new(net::PeersSut::new(cfg)),
        "sessions" => Box::new(net::SessionsSut::new(cfg)),
        _ => panic!("unknown component {component}"),
    }
}

fn main() {
    run(make)
}

/// Copied from the node, see build.rs
#[allow(dead_code, unused_imports, clippy::all)]
pub mod consolidate {
    include!(concat!(env!("OUT_DIR"), "/consolidate.rs"));
}
#[allow(dead_code, unused_imports, clippy::all)]
pub mod mining {
    include!(concat!(env!("OUT_DIR"), "/mining.rs"));
}
