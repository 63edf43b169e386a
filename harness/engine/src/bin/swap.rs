//! The market, with the client library's quotes for it.
#![allow(dead_code)]
#[path = "../abi.rs"]
mod abi;
#[path = "/repo/lib/client/src/book.rs"]
mod book;
#[path = "../cli.rs"]
mod cli;
#[path = "/repo/lib/client/src/jup.rs"]
mod jup;
#[path = "../rng.rs"]
mod rng;
#[path = "../watch.rs"]
mod watch;
#[path = "../rt.rs"]
mod rt;
#[path = "../scenario.rs"]
mod scenario;
#[path = "../walk.rs"]
mod walk;
#[path = "../world.rs"]
mod world;

#[path = "/repo/lib/client/src/util.rs"]
mod util;

use book::remaining_accounts_to_crank;
use jup::OpenBookMarket;
use jupiter_amm_interface::{AccountMap, Amm, KeyedAccount, QuoteParams, SwapParams};
use serde_json::{json, Value};
use solana_sdk::account::Account;
use solana_sdk::pubkey::Pubkey;
use std::panic::{catch_unwind, AssertUnwindSafe};
use world::*;

fn account(w: &World, k: &Pubkey) -> Account {
    let a = w.rt.get(k);
    Account { lamports: a.lamports, data: a.data, owner: a.owner, executable: a.exec, rent_epoch: 0 }
}

/// Amounts the person's wallet holds: of the base and of the quote token.
fn holds(w: &World, p: usize, m: &MarketKeys) -> (i64, i64) {
    let of = |mint: &Pubkey| abi::token_amount(&w.rt.get(&wallet(p, mint)).data) as i64;
    (of(&m.base_mint), of(&m.quote_mint))
}

fn ask(w: &World, v: &Value) -> anyhow::Result<Value> {
    let i = |k: &str| v[k].as_i64().unwrap();
    let m = &w.m[0];
    let bid = i("sd") == 0;
    let mut amm = OpenBookMarket::from_keyed_account(&KeyedAccount { key: m.market, account: account(w, &m.market), params: None })?;
    let mut map = AccountMap::new();
    for k in amm.get_accounts_to_update() {
        let a = if k == solana_sdk::sysvar::clock::ID {
            Account { data: bincode::serialize(&w.rt.clock)?, ..Account::default() }
        } else {
            account(w, &k)
        };
        map.insert(k, a);
    }
    amm.update(&map)?;
    let (from, to) = if bid { (m.quote_mint, m.base_mint) } else { (m.base_mint, m.quote_mint) };
    let amount = i("amt");
    let q = amm.quote(&QuoteParams { in_amount: amount as u64, input_mint: from, output_mint: to })?;
    // the same swap, with the accounts the client suggests
    let who = i("sg") as usize;
    let s = amm.get_swap_and_account_metas(&SwapParams {
        in_amount: amount as u64,
        source_mint: from,
        destination_mint: to,
        user_source_token_account: wallet(who, &from),
        user_destination_token_account: wallet(who, &to),
        user_transfer_authority: person(who),
    })?;
    let permissioned = s.account_metas.is_empty();
    let makers: Vec<i64> = s.account_metas.iter().skip(16).map(|x| w.ooa_no(&x.pubkey)).collect();
    let (b, l) = (m.cfg.bls, m.cfg.qls);
    let (mb, mq) = if bid { (i64::MAX / b, amount / l) } else { (amount / b, i64::MAX / l) };
    let data = abi::W::ix("place_take_order").u8(!bid as u8).i64(i64::MAX).i64(mb).i64(mq).u8(3).u8(book::MAXIMUM_TAKEN_ORDERS);
    let mut w2 = w.clone();
    for mint in [m.base_mint, m.quote_mint] {
        w2.put_token(wallet(who, &mint), mint, person(who), 1_000_000_000);
    }
    let before = holds(&w2, who, m);
    let accs = s.account_metas.iter().map(|x| a("rem", x.pubkey, x.is_signer, x.is_writable)).collect();
    let ok = !permissioned && w2.run(&Ix { accs, data: data.0 }).is_ok();
    let after = holds(&w2, who, m);
    let (paid, got) = if bid { (before.1 - after.1, after.0 - before.0) } else { (before.0 - after.0, after.1 - before.1) };
    let small = |x: u64| x.min(BIG as u64) as i64;
    Ok(json!([1, small(q.in_amount), small(q.out_amount), small(q.fee_amount), q.not_enough_liquidity as i64,
        (q.fee_mint == m.quote_mint) as i64, makers, ok as i64, paid, got]))
}

fn quote(w: &World, v: &Value) -> Value {
    match catch_unwind(AssertUnwindSafe(|| ask(w, v))) {
        Ok(Ok(x)) => x,
        Ok(Err(_)) => json!([0]),
        Err(_) => json!([-1]),
    }
}

fn main() {
    QUOTES.set(quote).ok();
    watch::over(cli::main);
}
