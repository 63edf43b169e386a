//! The client's source of snapshots, over a node whose answers take a while.
#![allow(dead_code)]
#[path = "/repo/lib/client/src/account_update_stream.rs"]
mod account_update_stream;
#[path = "/repo/lib/client/src/chain_data.rs"]
mod chain_data;
#[path = "../parts.rs"]
mod parts;
#[path = "../rng.rs"]
mod rng;
#[path = "/repo/lib/client/src/snapshot_source.rs"]
mod snapshot_source;
#[path = "/repo/lib/client/src/util.rs"]
mod util;
#[path = "../watch.rs"]
mod watch;

mod chain_data_fetcher {
    pub struct AccountFetcher;
}

use account_update_stream::Message;
use parts::{attempt, Part};
use serde_json::{json, Value};
use solana_client::node::{self, Answer, Node};
use solana_client::rpc_request::RpcRequest;
use solana_sdk::account::{Account, AccountSharedData, ReadableAccount};
use solana_sdk::pubkey::Pubkey;
use solana_sdk::transaction::{TransactionError, VersionedTransaction};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Wake};
use std::time::Duration;
pub use util::AnyhowWrap;

fn key(k: i64) -> Pubkey {
    Pubkey::new_from_array([k as u8 + 1; 32])
}

fn number(k: &Pubkey) -> i64 {
    k.to_bytes()[0] as i64 - 1
}

fn data(v: i64) -> AccountSharedData {
    AccountSharedData::new(v as u64, 8, &openbook_v2::id())
}

struct Asked {
    /// the oracles asked for; none if for the program's accounts
    oracles: Option<Vec<i64>>,
    answer: Option<Result<Answer, String>>,
}

#[derive(Default)]
struct Chain {
    accounts: BTreeMap<i64, i64>,
    slot: u64,
    min: u64,
    asked: BTreeMap<usize, Asked>,
    count: usize,
    begun: i64,
    /// requests that ask for the wrong thing
    odd: i64,
}

impl Node for Chain {
    fn slot(&mut self) -> u64 {
        self.slot
    }

    fn account(&mut self, _: &Pubkey) -> Result<Option<Account>, String> {
        unreachable!()
    }

    fn owned(&mut self, _: &Pubkey) -> Vec<(Pubkey, Account)> {
        unreachable!()
    }

    fn send(&mut self, _: &VersionedTransaction) -> Result<(), TransactionError> {
        unreachable!()
    }

    fn begin(&mut self, r: RpcRequest, params: String) -> usize {
        let p: Value = serde_json::from_str(&params).unwrap();
        let c = &p[1];
        let fits = c["commitment"] == "finalized" && c["encoding"] == "base64" && c["dataSlice"].is_null() && c["minContextSlot"] == self.min;
        let fits = fits && match r {
            RpcRequest::GetProgramAccounts => p[0] == openbook_v2::id().to_string() && c["filters"].is_null(),
            _ => true,
        };
        self.odd += !fits as i64;
        let oracles = (r == RpcRequest::GetMultipleAccounts)
            .then(|| p[0].as_array().unwrap().iter().map(|k| number(&k.as_str().unwrap().parse().unwrap())).collect());
        self.begun += oracles.is_none() as i64;
        self.count += 1;
        let untold = oracles.is_none() && c["withContext"] != true;
        self.odd += untold as i64;
        self.asked.insert(self.count, Asked { oracles, answer: None });
        self.count
    }

    fn answer(&mut self, no: usize) -> Option<Result<Answer, String>> {
        let a = self.asked.get_mut(&no)?.answer.take()?;
        self.asked.remove(&no);
        Some(a)
    }
}

impl Chain {
    fn open(&self) -> Vec<(usize, Vec<i64>)> {
        self.asked.iter().filter_map(|(i, a)| a.oracles.clone().map(|o| (*i, o))).collect()
    }

    fn let_through(&mut self, no: Option<usize>, v: i64) {
        let Some(no) = no else { return };
        let accounts = match &self.asked[&no].oracles {
            None => self.accounts.iter().filter(|(k, _)| **k < 10).map(|(k, v)| (key(*k), Some(data(*v)))).collect(),
            Some(l) => l.iter().map(|k| (key(*k), self.accounts.get(k).map(|v| data(*v)))).collect(),
        };
        let a = Answer { slot: self.slot, told: v == 1, accounts };
        self.asked.get_mut(&no).unwrap().answer = Some(if v == 0 { Err("no answer".into()) } else { Ok(a) });
    }
}

struct Idle;

impl Wake for Idle {
    fn wake(self: Arc<Self>) {}
}

struct Source {
    cfg: Value,
    node: Chain,
    now: u64,
    tasks: Vec<Pin<Box<dyn Future<Output = ()>>>>,
    from: async_channel::Receiver<Message>,
    past: Vec<Value>,
}

fn fresh(cfg: &Value) -> Source {
    let i = |k: &str| cfg[k].as_u64().unwrap();
    let (to, from) = async_channel::bounded(1000);
    let config = snapshot_source::Config {
        rpc_http_url: "".into(),
        get_multiple_accounts_count: i("per") as usize,
        parallel_rpc_requests: i("par") as usize,
        snapshot_interval: Duration::from_secs(i("every")),
        min_slot: i("min"),
    };
    tokio::set_clock(Duration::ZERO);
    tokio::take_tasks();
    snapshot_source::start(config, (1..=i("n") as i64).map(|k| key(10 + k)).collect(), to);
    let node = Chain { min: i("min"), ..Chain::default() };
    Source { cfg: cfg.clone(), node, now: 0, tasks: tokio::take_tasks(), from, past: vec![] }
}

impl Clone for Source {
    fn clone(&self) -> Self {
        let mut c = fresh(&self.cfg);
        for a in &self.past {
            attempt(|| c.apply(a));
        }
        c
    }
}

impl Source {
    fn apply(&mut self, v: &Value) -> Vec<Value> {
        self.past.push(v.clone());
        let i = |k: &str| v[k].as_i64().unwrap_or(0);
        match v["op"].as_str().unwrap() {
            "slot" => self.node.slot = self.node.slot.max(i("s") as u64),
            "wait" => self.now += i("t") as u64,
            "write" => {
                self.node.accounts.remove(&i("k"));
                if i("v") > 0 {
                    self.node.accounts.insert(i("k"), i("v"));
                }
            }
            "accounts" => {
                let no = self.node.asked.iter().find(|(_, a)| a.oracles.is_none()).map(|x| *x.0);
                self.node.let_through(no, i("v"));
            }
            "oracles" => {
                let no = self.node.open().get(i("i") as usize - 1).map(|x| x.0);
                self.node.let_through(no, i("v"));
            }
            _ => {}
        }
        tokio::set_clock(Duration::from_secs(self.now));
        let waker = Arc::new(Idle).into();
        let tasks = &mut self.tasks;
        node::with(&mut self.node, || tasks.retain_mut(|t| t.as_mut().poll(&mut Context::from_waker(&waker)).is_pending()));
        let mut out = vec![];
        while let Some(m) = self.from.try_recv() {
            let Message::Snapshot(l) = m else { continue };
            let account = |a: &account_update_stream::AccountUpdate| {
                let same = a.account == data(a.account.lamports() as i64);
                json!([number(&a.pubkey), if same { a.account.lamports() as i64 } else { -1 }, a.slot])
            };
            out.push(json!(l.iter().map(account).collect::<Vec<_>>()));
        }
        out
    }
}

impl Part for Source {
    fn init(s: &Value) -> Self {
        fresh(&s["cfg"])
    }

    fn act(&mut self, v: &Value) -> Value {
        let r = attempt(|| {
            let msgs = self.apply(v);
            let open: Vec<_> = self.node.open().into_iter().map(|x| x.1).collect();
            json!({"msgs": msgs, "begun": self.node.begun, "open": open, "odd": self.node.odd, "dead": self.tasks.is_empty() as i64})
        });
        r.unwrap_or_else(|| json!({"broken": 1}))
    }

    fn random(&mut self, r: &mut rng::Rng) -> Value {
        match r.r(0, 19) {
            0 => json!({"op": "slot", "s": self.node.slot as i64 + r.r(1, 4)}),
            1..=3 => json!({"op": "wait", "t": if r.pct(30) { r.r(12, 30) } else { r.r(1, 5) }}),
            4..=5 => json!({"op": "write", "k": if r.pct(40) { r.r(1, 2) } else { r.r(11, 13) }, "v": if r.pct(30) { 0 } else { r.r(1, 99) }}),
            6..=11 => json!({"op": "accounts", "v": if r.pct(85) { 1 } else { 2 * r.r(0, 1) }}),
            _ => json!({"op": "oracles", "i": r.r(1, 3), "v": !r.pct(10) as i64}),
        }
    }
}

fn main() {
    parts::main::<Source>();
}
