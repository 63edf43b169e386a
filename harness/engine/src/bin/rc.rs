//! The market, used through the Rust client.
#![allow(dead_code)]
#[path = "../abi.rs"]
mod abi;
#[path = "/repo/lib/client/src/account_fetcher.rs"]
mod account_fetcher;
#[path = "../cli.rs"]
mod cli;
#[path = "/repo/lib/client/src/client.rs"]
mod client;
#[path = "/repo/lib/client/src/gpa.rs"]
mod gpa;
#[path = "../rng.rs"]
mod rng;
#[path = "../rsc.rs"]
mod rsc;
#[path = "../rt.rs"]
mod rt;
#[path = "../scenario.rs"]
mod scenario;
#[path = "../walk.rs"]
mod walk;
#[path = "../watch.rs"]
mod watch;
#[path = "../world.rs"]
mod world;

use anchor_lang::AccountDeserialize;
use openbook_v2::state::{Market, PlaceOrderType, SelfTradeBehavior, Side};
use openbook_v2::PlaceMultipleOrdersArgs;
use rt::{Done, Fail};
use serde_json::{json, Value};
use world::*;

fn side(x: i64) -> Side {
    if x == 0 {
        Side::Bid
    } else {
        Side::Ask
    }
}

fn kind(x: i64) -> Option<PlaceOrderType> {
    Some(match x {
        0 => PlaceOrderType::Limit,
        1 => PlaceOrderType::ImmediateOrCancel,
        2 => PlaceOrderType::PostOnly,
        3 => PlaceOrderType::Market,
        4 => PlaceOrderType::PostOnlySlide,
        5 => PlaceOrderType::FillOrKill,
        _ => return None,
    })
}

fn own(x: i64) -> Option<SelfTradeBehavior> {
    Some(match x {
        0 => SelfTradeBehavior::DecrementTake,
        1 => SelfTradeBehavior::CancelProvide,
        2 => SelfTradeBehavior::AbortTransaction,
        _ => return None,
    })
}

fn client(w: &mut World, v: &Value) -> Option<(Result<Done, Fail>, Value)> {
    let mi = gi(v, "m") as usize;
    let k = w.m[mi].clone();
    let op = v["op"].as_str().unwrap();
    let data = w.rt.get(&k.market).data;
    let market = Market::try_deserialize(&mut &data[..]).ok()?;
    let s = w.state(mi).ok()?;
    let (sg, ad) = (gi(v, "sg") as usize, gi(v, "ad"));
    let ooa = w.ooa(gi(v, "oo"));
    let mut did = v.clone();
    // who pays the fee besides; an admin has no other way to sign
    let others = [sg, 5, 6];
    let mut payer = others[(gi(v, "px") + gi(v, "lim") + gi(v, "oo")).unsigned_abs() as usize % 3];
    let signs = |f: &str, payer: &mut usize, did: &mut Value| {
        let admin = gi(&s["m"], f);
        if ad != 0 {
            if ad != admin {
                return false;
            }
            *payer = ad as usize;
        }
        if admin == sg as i64 || admin == *payer as i64 {
            did["ad"] = json!(admin);
        }
        true
    };
    let (base, quote) = (wallet(sg, &k.base_mint), wallet(sg, &k.quote_mint));
    let px = |v: &Value, f: &str| if f == "plim" && gi(v, f) == -1 { -1 } else { w.price_arg(mi, gi(v, f)) };
    let mq = |v: &Value| w.quote_arg(mi, gi(v, "mq"));
    let r = match op {
        "place" => {
            if ad != 0 {
                return None;
            }
            let bid = gi(v, "sd") == 0;
            let (token, vault) = if bid { (quote, k.quote_vault) } else { (base, k.base_vault) };
            let (price, limit, mb, mq, cid) = (px(v, "px"), px(v, "plim"), unbig(gi(v, "mb")), mq(v), w.cid_arg(v, "cid"));
            let (sd, ty, stp, exp, lim) = (side(gi(v, "sd")), kind(gi(v, "ty"))?, own(gi(v, "stp"))?, gi(v, "exp") as u64, gi(v, "lim") as u8);
            // the client brings no makers along
            did["rem"] = json!([]);
            if gi(v, "pg") == 1 {
                rsc::last(rsc::with(w, payer, true, |c| async move {
                    let c = rsc::of(c, sg, ooa);
                    c.place_order_pegged(market, k.market, sd, price, limit, mb, mq, cid, ty, exp, lim, token, vault, stp).await
                }))
            } else {
                rsc::last(rsc::with(w, payer, true, |c| async move {
                    let c = rsc::of(c, sg, ooa);
                    c.place_order(market, k.market, sd, price, mb, mq, cid, ty, exp, lim, token, vault, stp).await
                }))
            }
        }
        "multi" if gi(v, "can") == 1 => {
            if !signs("ooadm", &mut payer, &mut did) {
                return None;
            }
            let l = |f: &str| -> Vec<PlaceMultipleOrdersArgs> {
                let l = v[f].as_array().unwrap().iter();
                l.map(|o| PlaceMultipleOrdersArgs {
                    price_lots: px(o, "px"),
                    max_quote_lots_including_fees: mq(o),
                    expiry_timestamp: gi(o, "exp") as u64,
                })
                .collect()
            };
            let (bids, asks, ty, lim) = (l("bids"), l("asks"), kind(gi(v, "ty"))?, gi(v, "lim") as u8);
            did["rem"] = json!([]);
            rsc::last(rsc::with(w, payer, true, |c| async move {
                let c = rsc::of(c, sg, ooa);
                c.cancel_all_and_place_orders(market, k.market, base, quote, ty, bids, asks, lim).await
            }))
        }
        "cancel" => {
            let id = if gi(v, "seq") < 0 {
                0
            } else {
                abi::make_key(gi(v, "tr") == 1, gi(v, "pd").saturating_mul(k.cfg.zp), gi(v, "seq") as u64, gi(v, "sd") == 0)
            };
            rsc::last(rsc::with(w, payer, true, |c| async move { rsc::of(c, sg, ooa).cancel_order(market, k.market, id).await }))
        }
        "call" => {
            let (sd, lim) = ((gi(v, "sd") >= 0).then(|| side(gi(v, "sd"))), gi(v, "lim") as u8);
            rsc::last(rsc::with(w, payer, true, |c| async move { rsc::of(c, sg, ooa).cancel_all_orders(market, k.market, sd, lim).await }))
        }
        "consume" => {
            if !signs("ceadm", &mut payer, &mut did) {
                return None;
            }
            let lim = gi(v, "lim") as usize;
            // it names the accounts itself
            did["rem"] = json!((1..=w.ooas.len()).collect::<Vec<_>>());
            rsc::last(rsc::with(w, payer, true, |c| async move { rsc::of(c, sg, ooa).consume_events(market, k.market, lim).await }))
        }
        "deposit" => {
            let (b, q) = ((gi(v, "b") * k.cfg.zn) as u64, (gi(v, "q") * k.cfg.zn * k.cfg.zp) as u64);
            rsc::last(rsc::with(w, payer, true, |c| async move {
                let c = rsc::of(c, sg, ooa);
                c.deposit(k.market, b, q, base, quote, k.base_vault, k.quote_vault).await
            }))
        }
        "settle" => {
            let to = |f: &str, mint| wallet(gi(v, f) as usize, mint);
            let (b, q) = (to("db", &k.base_mint), to("dq", &k.quote_mint));
            let rf = (gi(v, "ref") != 0).then(|| to("ref", &k.quote_mint));
            rsc::last(rsc::with(w, payer, true, |c| async move {
                let c = rsc::of(c, sg, ooa);
                c.settle_funds(market, k.market, b, q, k.base_vault, k.quote_vault, rf).await
            }))
        }
        _ => return None,
    };
    did["by"] = json!("rust");
    Some((r, did))
}

fn main() {
    CLIENT.set(client).ok();
    watch::over(cli::main);
}
