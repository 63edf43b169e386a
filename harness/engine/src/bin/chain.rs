//! The client's view of the chain, fed with slot and account messages.
#![allow(dead_code)]
#[path = "/repo/lib/client/src/account_update_stream.rs"]
mod account_update_stream;
#[path = "/repo/lib/client/src/chain_data.rs"]
mod chain_data;
#[path = "../chaining.rs"]
mod chaining;
#[path = "../parts.rs"]
mod parts;
#[path = "../rng.rs"]
mod rng;
#[path = "../watch.rs"]
mod watch;

mod chain_data_fetcher {
    pub struct AccountFetcher;
}

fn main() {
    parts::main::<chaining::Chain>();
}
