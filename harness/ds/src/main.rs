#[path = "../../common/run.rs"]
mod run;
mod datareq;
mod stakes;
mod txpool;
mod utxo;

use run::*;
use serde_json::Value;

fn make(component: &str, cfg: &Value) -> Box<dyn Sut> {
    match component {
        "stakes" => stakes::make(cfg),
        "txpool" => Box::new(txpool::TxPoolSut::new(cfg)),
        "datareq" => Box::new(datareq::DataReqSut::new(cfg)),
        "utxo" => Box::new(utxo::UtxoSut::new(cfg)),
        _ => panic!("unknown component {component}"),
    }
}

fn main() {
    run(make)
}
