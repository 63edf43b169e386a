//! Registries of open orders accounts and the accounts they list.
#![allow(dead_code)]
#[path = "../abi.rs"]
mod abi;
#[path = "../parts.rs"]
mod parts;
#[path = "../reg.rs"]
mod reg;
#[path = "../rng.rs"]
mod rng;
#[path = "../watch.rs"]
mod watch;
#[path = "../rt.rs"]
mod rt;
#[path = "../tsc.rs"]
mod tsc;
#[path = "../world.rs"]
mod world;

fn main() {
    parts::main::<reg::Registry>();
}
