//! What the bridge uses of an Ethereum client: every call waits for the script.
use crate::world::{ask, Ask};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::ops::{Add, AddAssign, Sub};

#[derive(Clone, Debug)]
pub struct Web3<T>(pub std::marker::PhantomData<T>);
impl<T> Web3<T> {
    pub fn eth(&self) -> Eth {
        Eth
    }
}
pub struct Eth;
impl Eth {
    pub async fn balance(&self, _a: types::H160, _b: Option<u64>) -> Result<types::U256, Error> {
        let v = ask("balance", json!([])).await?;
        Ok(types::U256(v.as_u64().unwrap() as u128))
    }
    pub async fn gas_price(&self) -> Result<types::U256, Error> {
        let v = ask("gas_price", json!([])).await?;
        Ok(types::U256(v.as_u64().unwrap() as u128))
    }
}
#[derive(Debug, Clone)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<Ask> for Error {
    fn from(a: Ask) -> Self {
        Error(format!("{a:?}"))
    }
}
pub mod transports {
    #[derive(Clone, Debug)]
    pub struct Http;
}
pub mod types {
    use super::*;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct U256(pub u128);
    impl U256 {
        pub const MAX: U256 = U256(u128::MAX);
        pub fn zero() -> Self {
            U256(0)
        }
        pub fn one() -> Self {
            U256(1)
        }
        pub fn as_u64(&self) -> u64 {
            self.0 as u64
        }
        pub fn as_usize(&self) -> usize {
            self.0 as usize
        }
        pub fn saturating_add(self, o: Self) -> Self {
            U256(self.0.saturating_add(o.0))
        }
        pub fn saturating_sub(self, o: Self) -> Self {
            U256(self.0.saturating_sub(o.0))
        }
    }
    macro_rules! from { ($($t:ty),*) => { $(impl From<$t> for U256 { fn from(x: $t) -> Self { U256(u128::try_from(x).expect("negative")) } })* } }
    from!(u8, u16, u32, u64, usize, i32, i64);
    impl TryFrom<U256> for usize {
        type Error = &'static str;
        fn try_from(x: U256) -> Result<Self, Self::Error> {
            usize::try_from(x.0).map_err(|_| "overflow")
        }
    }
    impl TryFrom<U256> for u64 {
        type Error = &'static str;
        fn try_from(x: U256) -> Result<Self, Self::Error> {
            u64::try_from(x.0).map_err(|_| "overflow")
        }
    }
    impl<T: Into<U256>> Add<T> for U256 {
        type Output = U256;
        fn add(self, o: T) -> U256 {
            U256(self.0.checked_add(o.into().0).expect("arithmetic operation overflow"))
        }
    }
    impl<T: Into<U256>> Sub<T> for U256 {
        type Output = U256;
        fn sub(self, o: T) -> U256 {
            U256(self.0.checked_sub(o.into().0).expect("arithmetic operation overflow"))
        }
    }
    impl<T: Into<U256>> AddAssign<T> for U256 {
        fn add_assign(&mut self, o: T) {
            *self = *self + o
        }
    }
    impl std::fmt::Display for U256 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl Serialize for U256 {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_str(&format!("{:#x}", self.0))
        }
    }
    impl<'de> Deserialize<'de> for U256 {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let s = String::deserialize(d)?;
            u128::from_str_radix(s.trim_start_matches("0x"), 16).map(U256).map_err(serde::de::Error::custom)
        }
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct H160(pub [u8; 20]);
    impl std::fmt::Display for H160 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "0x{}", hex::encode(self.0))
        }
    }
    pub type Address = H160;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
    pub struct H256(pub [u8; 32]);
    impl H256 {
        pub fn from_slice(x: &[u8]) -> Self {
            let mut a = [0; 32];
            a.copy_from_slice(x);
            H256(a)
        }
        pub fn to_fixed_bytes(self) -> [u8; 32] {
            self.0
        }
    }
    impl std::fmt::Display for H256 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "0x{}", hex::encode(self.0))
        }
    }
    #[derive(Clone, Debug)]
    pub struct Bytes(pub Vec<u8>);
    #[derive(Clone, Debug)]
    pub struct Log {
        pub topics: Vec<H256>,
        pub data: Bytes,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct U64(pub u64);
    impl From<i32> for U64 {
        fn from(x: i32) -> Self {
            U64(x as u64)
        }
    }
    #[derive(Clone, Debug)]
    pub struct TransactionReceipt {
        pub transaction_hash: H256,
        pub status: Option<U64>,
        pub logs: Vec<Log>,
    }
}
pub mod ethabi {
    use super::*;
    pub use super::contract::Abi as Contract;
    pub mod ethereum_types {
        pub use super::types::{H160, H256, U256};
    }
    use types::U256;
    pub type Bytes = Vec<u8>;
    #[derive(Clone, Debug, PartialEq)]
    pub enum Token {
        Uint(U256),
        FixedBytes(Vec<u8>),
        Bytes(Vec<u8>),
        String(String),
        Array(Vec<Token>),
        Tuple(Vec<Token>),
    }
    impl Token {
        pub fn into_uint(self) -> Option<U256> {
            match self {
                Token::Uint(x) => Some(x),
                _ => None,
            }
        }
        pub fn into_tuple(self) -> Option<Vec<Token>> {
            match self {
                Token::Tuple(x) => Some(x),
                _ => None,
            }
        }
        pub fn json(&self) -> Value {
            match self {
                Token::Uint(x) => json!(x.0 as u64),
                Token::FixedBytes(x) | Token::Bytes(x) => json!(hex::encode(x)),
                Token::String(x) => json!(x),
                Token::Array(x) | Token::Tuple(x) => x.iter().map(Token::json).collect(),
            }
        }
    }
    impl std::fmt::Display for Token {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self {
                Token::Uint(x) => write!(f, "{:x}", x.0),
                x => write!(f, "{x:?}"),
            }
        }
    }
    pub struct RawLog {
        pub topics: Vec<types::H256>,
        pub data: Vec<u8>,
    }
    #[derive(Debug)]
    pub struct LogParam {
        pub name: String,
        pub value: Token,
    }
    pub struct ParsedLog {
        pub params: Vec<LogParam>,
    }
    #[derive(Clone, Debug)]
    pub struct Event(pub u8);
    impl Event {
        pub fn parse_log(&self, log: RawLog) -> Result<ParsedLog, Error> {
            if log.topics.first().map(|t| t.0[0]) != Some(self.0) {
                return Err(Error("another event".into()));
            }
            let v: Value = serde_json::from_slice(&log.data).unwrap();
            Ok(ParsedLog {
                params: vec![
                    LogParam { name: "queryId".into(), value: Token::Uint(v[0].as_u64().unwrap().into()) },
                    LogParam { name: "reason".into(), value: Token::String(v[1].as_str().unwrap().into()) },
                ],
            })
        }
    }
    #[derive(Clone, Debug)]
    pub struct Function;
    impl Function {
        pub fn encode_input(&self, tokens: &[Token]) -> Result<Vec<u8>, Error> {
            Ok(tokens.iter().map(Token::json).collect::<Value>().to_string().into_bytes())
        }
    }
}
pub mod contract {
    use super::*;
    pub use super::Error;
    use ethabi::{Event, Function, Token};
    use std::marker::PhantomData;
    use types::{H160, H256, TransactionReceipt, U256, U64};
    #[derive(Default, Clone, Debug)]
    pub struct Options {
        pub gas: Option<U256>,
        pub gas_price: Option<U256>,
        pub nonce: Option<U256>,
        pub value: Option<U256>,
    }
    impl Options {
        pub fn with<F: FnOnce(&mut Options)>(f: F) -> Options {
            let mut o = Options::default();
            f(&mut o);
            o
        }
    }
    pub mod tokens {
        use super::Token;
        pub trait Tokenize {
            fn into_tokens(self) -> Vec<Token>;
        }
        impl Tokenize for () {
            fn into_tokens(self) -> Vec<Token> {
                vec![]
            }
        }
        impl Tokenize for Vec<Token> {
            fn into_tokens(self) -> Vec<Token> {
                vec![Token::Array(self)]
            }
        }
        impl Tokenize for Token {
            fn into_tokens(self) -> Vec<Token> {
                vec![self]
            }
        }
        impl Tokenize for (Token, Token, Token, Token) {
            fn into_tokens(self) -> Vec<Token> {
                vec![self.0, self.1, self.2, self.3]
            }
        }
    }
    use tokens::Tokenize;
    pub trait Detokenize: Sized {
        fn from(v: Value) -> Self;
    }
    impl Detokenize for U256 {
        fn from(v: Value) -> Self {
            v.as_u64().unwrap().into()
        }
    }
    impl Detokenize for Vec<Token> {
        fn from(v: Value) -> Self {
            v.as_array().unwrap().iter().map(|x| Token::Uint(x.as_u64().unwrap().into())).collect()
        }
    }
    impl Detokenize for Vec<Vec<u8>> {
        fn from(v: Value) -> Self {
            v.as_array().unwrap().iter().map(|x| hex::decode(x.as_str().unwrap()).unwrap()).collect()
        }
    }
    impl Detokenize for (U256, U256) {
        fn from(v: Value) -> Self {
            (v[0].as_u64().unwrap().into(), v[1].as_u64().unwrap().into())
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct Abi;
    thread_local! { static EVENTS: &'static Vec<Event> = Box::leak(Box::new(vec![Event(9)])); }
    impl Abi {
        pub fn events_by_name(&self, name: &str) -> Result<&'static Vec<Event>, Error> {
            if name == "BatchReportError" { Ok(EVENTS.with(|e| *e)) } else { Err(Error("no such event".into())) }
        }
        pub fn function(&self, _name: &str) -> Result<&'static Function, Error> {
            Ok(&Function)
        }
    }
    #[derive(Clone, Debug)]
    pub struct Contract<T>(pub Abi, pub PhantomData<T>);
    fn args(p: impl Tokenize) -> Value {
        p.into_tokens().iter().map(Token::json).collect()
    }
    impl<T> Contract<T> {
        pub fn address(&self) -> H160 {
            H160::default()
        }
        pub fn abi(&self) -> &Abi {
            &self.0
        }
        pub async fn query<R: Detokenize, A: Into<Option<H160>>, B: Into<Option<u64>>, P: Tokenize>(&self, func: &str, params: P, _from: A, _o: Options, _block: B) -> Result<R, Error> {
            let v = ask(func, args(params)).await?;
            Ok(R::from(v))
        }
        pub async fn estimate_gas<P: Tokenize>(&self, _func: &str, params: P, _from: H160, _o: Options) -> Result<U256, Error> {
            let v = ask("estimate_gas", args(params)).await?;
            Ok(Detokenize::from(v))
        }
        pub async fn call_with_confirmations<P: Tokenize>(&self, func: &str, params: P, _from: H160, _o: Options, _confirmations: usize) -> Result<TransactionReceipt, Error> {
            let v = ask(func, args(params)).await?;
            Ok(TransactionReceipt {
                transaction_hash: H256::default(),
                status: v["status"].as_u64().map(U64),
                logs: v["logs"].as_array().unwrap().iter().map(|l| types::Log {
                    topics: vec![H256([l["topic"].as_u64().unwrap() as u8; 32])],
                    data: types::Bytes(l["data"].to_string().into_bytes()),
                }).collect(),
            })
        }
    }
}
