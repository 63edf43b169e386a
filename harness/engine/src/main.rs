#![allow(dead_code)]
mod abi;
mod cli;
mod rng;
mod rt;
mod scenario;
mod walk;
mod watch;
mod world;

fn main() {
    watch::over(cli::main);
}
