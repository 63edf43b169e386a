//! Creating markets with all sorts of parameters and accounts.
#![allow(dead_code)]
#[path = "../abi.rs"]
mod abi;
#[path = "../making.rs"]
mod making;
#[path = "../parts.rs"]
mod parts;
#[path = "../rng.rs"]
mod rng;
#[path = "../watch.rs"]
mod watch;
#[path = "../rt.rs"]
mod rt;
#[path = "../tsc.rs"]
mod tsc;
#[path = "../world.rs"]
mod world;

fn main() {
    parts::main::<making::Create>();
}
