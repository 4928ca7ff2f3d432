//! `witnet_net` reduced to its HTTP client (the rest needs actix and JSON-RPC git dependencies).
pub type Uri = reqwest::Url;
pub mod client {
    #[path = "/repo/net/src/client/http/mod.rs"]
    pub mod http;
    pub mod tcp {
        pub mod jsonrpc {
            /// Stand-in: name only
            #[derive(Clone, Debug)]
            pub struct Subscribe;
        }
    }
}
