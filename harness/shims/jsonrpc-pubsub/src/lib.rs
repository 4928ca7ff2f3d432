//! Stand-in: names only
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum SubscriptionId { Number(u64), String(String) }
#[derive(Clone, Debug)]
pub struct Sink;
