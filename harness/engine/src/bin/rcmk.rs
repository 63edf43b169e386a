//! Creating markets through the Rust client.
#![allow(dead_code)]
#[path = "../abi.rs"]
mod abi;
#[path = "/repo/lib/client/src/account_fetcher.rs"]
mod account_fetcher;
#[path = "/repo/lib/client/src/client.rs"]
mod client;
#[path = "/repo/lib/client/src/gpa.rs"]
mod gpa;
#[path = "../making.rs"]
mod making;
#[path = "../parts.rs"]
mod parts;
#[path = "../rng.rs"]
mod rng;
#[path = "../rsc.rs"]
mod rsc;
#[path = "../watch.rs"]
mod watch;
#[path = "../rt.rs"]
mod rt;
#[path = "../tsc.rs"]
mod tsc;
#[path = "../world.rs"]
mod world;

use openbook_v2::state::OracleConfigParams;
use rt::{Done, Fail};
use serde_json::Value;
use solana_program::pubkey::Pubkey;
use world::*;

/// The market has to sign, and only who pays the fees does besides the owner.
fn make(w: &mut World, k: &mut MarketKeys, v: &Value, name: &str) -> Result<Done, Fail> {
    k.market = person(150);
    k.authority = Pubkey::find_program_address(&[b"Market", k.market.as_ref()], &abi::PROGRAM).0;
    k.base_vault = abi::ata(&k.authority, &k.base_mint);
    k.quote_vault = abi::ata(&k.authority, &k.quote_mint);
    let event = Pubkey::find_program_address(&[b"__event_authority"], &abi::PROGRAM).0;
    let (c, k, name) = (k.cfg.clone(), k.clone(), name.to_string());
    let admin = |on: bool, p: usize| on.then(|| person(p));
    let (oo, ce, cm) = (admin(c.oo_admin, OO_ADMIN), admin(c.ce_admin, CE_ADMIN), admin(c.cm_admin, CM_ADMIN));
    let config = OracleConfigParams { conf_filter: v["cn"].as_i64().unwrap() as f32 / 16.0, max_staleness_slots: c.staleness };
    rsc::last(rsc::with(w, 150, true, |r| async move {
        let r = rsc::of(r, 1, Pubkey::default());
        r.create_market(
            k.market, k.authority, k.bids, k.asks, k.heap, k.base_mint, k.quote_mint, k.oracle_a, k.oracle_b, person(FEE_ADMIN), oo, ce, cm,
            event, name, config, c.bls, c.qls, c.mf, c.tf, c.exp,
        )
        .await
    }))
}

fn main() {
    making::RUST.set(make).ok();
    parts::main::<making::Create>();
}
