//! The client's chain data, fed with messages.
use crate::account_update_stream::{AccountUpdate, Message};
use crate::chain_data::{AccountAndSlot, ChainData, SlotData, SlotStatus};
use crate::parts::{attempt, Part};
use crate::rng;
use serde_json::{json, Value};
use solana_client::rpc_response::{self as rpc, SlotUpdate};
use solana_sdk::account::{AccountSharedData, ReadableAccount};
use solana_sdk::pubkey::Pubkey;
use std::sync::{Arc, OnceLock, RwLock};

pub const ACCOUNTS: i64 = 2;

pub type Shared = Arc<RwLock<ChainData>>;

/// A client on top of the chain data: it fetches from a node, is looked through, and its accounts' data.
pub struct Through {
    pub fetch: fn(&Shared, &Value, i64) -> Value,
    pub look: fn(&Shared) -> Value,
    pub data: fn(i64) -> AccountSharedData,
}

pub static THROUGH: OnceLock<Through> = OnceLock::new();

pub struct Chain {
    c: Shared,
    past: Vec<Value>,
    said: Value,
}

impl Clone for Chain {
    fn clone(&self) -> Self {
        let mut c = Chain { c: Arc::new(RwLock::new(ChainData::new())), past: vec![], said: Value::Null };
        for a in &self.past {
            c.apply(a);
        }
        c
    }
}

pub fn account(k: i64) -> Pubkey {
    Pubkey::new_from_array([k as u8 + 1; 32])
}

fn data(n: i64) -> AccountSharedData {
    if let Some(t) = THROUGH.get() {
        return (t.data)(n);
    }
    AccountSharedData::new(n as u64, 8, &account(99))
}

impl Chain {
    /// Account data is the number of the message that brought it.
    fn apply(&mut self, v: &Value) {
        self.past.push(v.clone());
        let n = self.past.len() as i64;
        let i = |k: &str| v[k].as_i64().unwrap();
        let slot = || i("s") as u64;
        let said = |u: SlotUpdate| Message::Slot(Arc::new(u));
        let at = 0;
        if let (Some(t), "rpc" | "alt" | "gone") = (THROUGH.get(), v["op"].as_str().unwrap()) {
            self.said = (t.fetch)(&self.c, v, n);
            return;
        }
        let mut c = self.c.write().unwrap();
        let m = match v["op"].as_str().unwrap() {
            "bank" => said(SlotUpdate::CreatedBank { slot: slot(), parent: i("p") as u64, timestamp: at }),
            "conf" => said(SlotUpdate::OptimisticConfirmation { slot: slot(), timestamp: at }),
            "root" => said(SlotUpdate::Root { slot: slot(), timestamp: at }),
            "dead" => said(SlotUpdate::Dead { slot: slot(), timestamp: at, err: String::new() }),
            "shred" => said(SlotUpdate::FirstShredReceived { slot: slot(), timestamp: at }),
            "write" => Message::Account(
                AccountUpdate::from_rpc(rpc::Response {
                    context: rpc::RpcResponseContext { slot: slot() },
                    value: rpc::RpcKeyedAccount { pubkey: account(i("k")).to_string(), account: rpc::UiAccount(Some(data(n))) },
                })
                .unwrap(),
            ),
            "snap" => Message::Snapshot(
                (1..=ACCOUNTS).map(|k| AccountUpdate { pubkey: account(k), slot: slot(), account: data(n) }).collect(),
            ),
            "rpc" => {
                c.update_from_rpc(&account(i("k")), AccountAndSlot { slot: slot(), account: data(n) });
                return;
            }
            "slot" => {
                c.update_slot(SlotData {
                    slot: slot(),
                    parent: (i("p") >= 0).then(|| i("p") as u64),
                    status: [SlotStatus::Processed, SlotStatus::Confirmed, SlotStatus::Rooted][i("st") as usize],
                    chain: 0,
                });
                return;
            }
            x => panic!("unknown {x}"),
        };
        m.update_chain_data(&mut c);
    }

    fn seen(&self) -> Value {
        let c = self.c.read().unwrap();
        let one = |x: Option<&AccountAndSlot>| match x {
            None => json!([-1, -1]),
            Some(a) => json!([a.slot, a.account.lamports()]),
        };
        let keys: Vec<Pubkey> = (1..=ACCOUNTS).map(account).collect();
        let ans: Vec<Value> = keys.iter().map(|k| one(c.account_and_slot(k).ok())).collect();
        let snap = c.accounts_snapshot();
        let all: Vec<Value> = keys.iter().map(|k| one(snap.get(k))).collect();
        let iter: std::collections::HashMap<_, _> = c.iter_accounts().collect();
        let each: Vec<Value> = keys.iter().map(|k| one(iter.get(k).copied())).collect();
        let raw: Vec<i64> = keys.iter().map(|k| c.account(k).map_or(-1, |a| a.lamports() as i64)).collect();
        let mut j = json!({"ans": ans, "all": all, "each": each, "raw": raw, "extra": snap.len() > keys.len() || iter.len() > keys.len(),
            "writes": c.account_writes_count(), "slots": c.slots_count()});
        drop(c);
        if let Some(t) = THROUGH.get() {
            j["via"] = (t.look)(&self.c);
            j["said"] = self.said.clone();
        }
        j
    }
}

impl Part for Chain {
    fn init(_: &Value) -> Self {
        Chain { c: Arc::new(RwLock::new(ChainData::new())), past: vec![], said: Value::Null }
    }

    fn act(&mut self, v: &Value) -> Value {
        let r = attempt(|| {
            self.said = json!({});
            if v["op"] != "look" {
                self.apply(v);
            }
            self.seen()
        });
        r.unwrap_or_else(|| json!({"broken": 1}))
    }

    /// Messages about a growing tree of slots, mostly near its tips, some late, repeated or left out.
    fn random(&mut self, r: &mut rng::Rng) -> Value {
        let top = self.past.iter().map(|a| a["s"].as_i64().unwrap()).max().unwrap_or(0);
        let parents: std::collections::HashMap<i64, i64> = self
            .past
            .iter()
            .filter(|a| a["p"].as_i64().map_or(false, |p| p >= 0))
            .map(|a| (a["s"].as_i64().unwrap(), a["p"].as_i64().unwrap()))
            .collect();
        let rooted = self.past.iter().filter(|a| a["op"] == "root").map(|a| a["s"].as_i64().unwrap()).max().unwrap_or(0);
        let head = if r.r(0, 39) == 0 { top } else { parents.keys().copied().max().unwrap_or(1) };
        let near = |r: &mut rng::Rng| (top - r.r(0, 6)).max(1);
        match r.r(0, 19) {
            0..=6 => {
                let s = if r.r(0, 3) == 0 { near(r) } else { top + 1 + (r.r(0, 5) == 0) as i64 };
                let p = match parents.get(&s) {
                    Some(p) => *p,
                    None => (s - 1 - if r.r(0, 2) == 0 { r.r(0, 3) } else { 0 }).max(0),
                };
                json!({"op": "bank", "s": s, "p": p})
            }
            7 | 8 => json!({"op": "conf", "s": near(r)}),
            9 | 10 => json!({"op": "root", "s": (rooted + r.r(-1, 4)).clamp(1, head.max(1))}),
            11 => json!({"op": if r.r(0, 1) == 0 { "dead" } else { "shred" }, "s": near(r)}),
            12..=15 => json!({"op": "write", "s": near(r), "k": r.r(1, ACCOUNTS)}),
            16 => json!({"op": "snap", "s": near(r)}),
            17 => {
                let op = if THROUGH.get().is_some() { ["rpc", "rpc", "alt", "gone"][r.r(0, 3) as usize] } else { "rpc" };
                json!({"op": op, "s": near(r) + r.r(0, 2), "k": r.r(1, ACCOUNTS)})
            }
            _ => {
                let s = near(r);
                let p = match parents.get(&s) {
                    Some(p) if r.r(0, 2) > 0 => *p,
                    Some(_) => -1,
                    None => if r.r(0, 1) == 0 { -1 } else { s - 1 },
                };
                json!({"op": "slot", "s": s, "p": p, "st": if s <= rooted + 2 { r.r(0, 2) } else { r.r(0, 1) }})
            }
        }
    }
}
