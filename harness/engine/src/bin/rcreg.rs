//! Registries of open orders accounts, used through the Rust client.
#![allow(dead_code)]
#[path = "../abi.rs"]
mod abi;
#[path = "/repo/lib/client/src/account_fetcher.rs"]
mod account_fetcher;
#[path = "/repo/lib/client/src/client.rs"]
mod client;
#[path = "/repo/lib/client/src/gpa.rs"]
mod gpa;
#[path = "../parts.rs"]
mod parts;
#[path = "../reg.rs"]
mod reg;
#[path = "../rng.rs"]
mod rng;
#[path = "../rsc.rs"]
mod rsc;
#[path = "../watch.rs"]
mod watch;
#[path = "../rt.rs"]
mod rt;
#[path = "../tsc.rs"]
mod tsc;
#[path = "../world.rs"]
mod world;

use client::OpenBookClient;
use reg::{Registry, OWNERS};
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use std::sync::Arc;
use world::*;

fn act(reg: &mut Registry, v: &Value) -> Option<(bool, i64)> {
    let g = |k: &str| v[k].as_i64().unwrap_or(0);
    let op = v["op"].as_str().unwrap();
    let (of, pay) = (g("of") as usize, g("pay") as usize);
    let market = reg.market(g("m"));
    let name = "x".repeat(g("nm") as usize);
    if op != "find" && (g("sf") != 1 || g("ix") != of as i64) {
        return None;
    }
    let (owner, payer) = (keypair(of), keypair(pay));
    let w = &mut reg.w;
    match op {
        "mkidx" => {
            let at = w.indexer(of);
            let r = rsc::with(w, pay, false, |c| async move { OpenBookClient::create_open_orders_indexer(&c, &owner, &payer).await });
            Some((r.1.map_or(false, |r| r.0 == at), 0))
        }
        "mkoo" => {
            let at = w.ooa_key(of, g("num") as u32);
            let (dl, num) = ((g("dl") > 0).then(|| person(g("dl") as usize)), g("num") as u32);
            let r = rsc::with(w, pay, false, |c| async move {
                OpenBookClient::create_open_orders_account(&c, market, &owner, &payer, dl, num, &name).await
            });
            Some((r.1.map_or(false, |r| r.0 == at), 0))
        }
        "find" => {
            let r = rsc::with(w, pay, false, |c| async move {
                OpenBookClient::find_or_create_account(&c, &owner, &payer, market, &name).await
            });
            let most = w.created(of).min(1000);
            let no = |k: Pubkey| (1..=most).find(|j| w.ooa_key(of, *j) == k).map_or(-1, |j| j as i64);
            Some((r.1.is_ok(), r.1.map_or(0, no)))
        }
        _ => None,
    }
}

/// What the client finds for each person: their accounts, and those it takes for them.
fn look(reg: &Registry) -> Value {
    let mut w = reg.w.clone();
    let mut all = vec![];
    for p in 1..=OWNERS + 1 {
        let found = rsc::with(&mut w, 5, true, |c| async move { OpenBookClient::find_accounts(&c, &keypair(p)).await }).1;
        let market = |k: &Pubkey| (1..=2).find(|m| reg.market(*m) == *k).unwrap_or(0);
        let place = |k: &Pubkey| {
            let at = (1..=OWNERS).flat_map(|o| (1..=reg.most).map(move |j| (o, j))).find(|(o, j)| reg.w.ooa_key(*o, *j) == *k);
            at.map_or((0, 0), |x| x)
        };
        let found: Vec<Value> = found.map_or(vec![json!({"err": 1})], |l| {
            l.iter()
                .map(|(k, a)| {
                    let at = place(k);
                    json!({"ow": at.0, "num": at.1, "who": reg.w.who(&a.owner), "no": a.account_num, "m": market(&a.market),
                        "dl": Option::<Pubkey>::from(a.delegate).map_or(0, |d| reg.w.who(&d)), "nm": a.name().len()})
                })
                .collect()
        });
        let mut own = vec![];
        for o in 1..=OWNERS {
            for j in 1..=reg.most {
                let k = reg.w.ooa_key(o, j);
                let r = rsc::with(&mut w, 5, true, |c| async move {
                    let c = OpenBookClient::new_for_existing_account(c, k, Arc::new(keypair(p))).await?;
                    let a = c.openorders_account().await?;
                    Ok((c.owner(), a.owner, a.account_num))
                })
                .1;
                if let Ok((a, b, n)) = r {
                    own.push(json!([o, j, reg.w.who(&a), reg.w.who(&b), n]));
                }
            }
        }
        all.push(json!({"found": found, "own": own}));
    }
    Value::Array(all)
}

fn main() {
    reg::RUST.set((act, look)).ok();
    parts::main::<Registry>();
}
