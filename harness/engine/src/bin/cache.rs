//! The client's fetcher that remembers accounts, over a node whose answers take a while.
#![allow(dead_code)]
#[path = "/repo/lib/client/src/account_fetcher.rs"]
mod account_fetcher;
#[path = "../parts.rs"]
mod parts;
#[path = "../rng.rs"]
mod rng;
#[path = "../watch.rs"]
mod watch;

use account_fetcher::{
    account_fetcher_fetch_anchor_account, account_fetcher_fetch_openorders_account, AccountFetcher, CachedAccountFetcher,
    RpcAccountFetcher,
};
use anchor_lang::{AccountDeserialize, AccountSerialize, Discriminator};
use openbook_v2::state::{OpenOrdersAccount, OpenOrdersIndexer};
use parts::{attempt, Part};
use serde_json::{json, Value};
use solana_client::nonblocking::rpc_client::RpcClient;
use solana_client::node::{self, Node};
use solana_sdk::account::{Account, AccountSharedData, ReadableAccount};
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::transaction::{TransactionError, VersionedTransaction};
use std::collections::BTreeMap;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake};

const KINDS: [i64; 4] = [0, 1, 1, 2];
const REQUESTS: usize = 3;

fn key(k: i64) -> Pubkey {
    Pubkey::new_from_array([k as u8 + 1; 32])
}

fn disc(c: i64) -> [u8; 8] {
    if c == 1 { OpenOrdersAccount::discriminator() } else { OpenOrdersIndexer::discriminator() }
}

fn bytes(kind: i64, v: i64) -> Vec<u8> {
    if kind == 1 {
        let mut a = *OpenOrdersAccount::default_for_tests();
        a.account_num = v as u32;
        [&disc(1)[..], bytemuck::bytes_of(&a)].concat()
    } else {
        let mut d = vec![];
        OpenOrdersIndexer { created_counter: v as u32, ..Default::default() }.try_serialize(&mut d).unwrap();
        d
    }
}

fn value(a: &AccountSharedData) -> i64 {
    let mut d = a.data();
    if d[..8] == disc(1) {
        OpenOrdersAccount::try_deserialize(&mut d).map_or(-2, |a| a.account_num as i64)
    } else {
        OpenOrdersIndexer::try_deserialize(&mut d).map_or(-2, |a| a.created_counter as i64)
    }
}

/// The accounts of the node.
#[derive(Default)]
struct Chain(BTreeMap<i64, i64>);

fn account(kind: i64, v: i64, owner: Pubkey) -> Account {
    Account { lamports: 1, data: bytes(kind, v), owner, executable: false, rent_epoch: 0 }
}

impl Node for Chain {
    fn slot(&mut self) -> u64 {
        1
    }

    fn account(&mut self, k: &Pubkey) -> Result<Option<Account>, String> {
        Ok(self.owned(&openbook_v2::id()).into_iter().find(|(p, _)| p == k).map(|x| x.1))
    }

    fn owned(&mut self, p: &Pubkey) -> Vec<(Pubkey, Account)> {
        if *p == openbook_v2::id() {
            self.0.iter().map(|(k, v)| (key(*k), account(KINDS[*k as usize], *v, *p))).collect()
        } else {
            vec![(key(90), account(1, 9, *p)), (key(91), account(2, 9, *p))]
        }
    }

    fn send(&mut self, _: &VersionedTransaction) -> Result<(), TransactionError> {
        unreachable!()
    }
}

/// Fetches over the network, where answers arrive when they are let through.
struct Slow {
    rpc: RpcAccountFetcher,
    calls: Mutex<usize>,
    /// what is let through: the target, and whether the fetch succeeds
    open: Mutex<Option<(String, bool)>>,
}

impl Slow {
    async fn gate(&self, target: String) -> anyhow::Result<()> {
        *self.calls.lock().unwrap() += 1;
        let ok = poll_fn(|_| match &*self.open.lock().unwrap() {
            Some((t, ok)) if *t == target => Poll::Ready(*ok),
            _ => Poll::Pending,
        })
        .await;
        if ok { Ok(()) } else { anyhow::bail!("no answer") }
    }
}

#[async_trait::async_trait]
impl AccountFetcher for Slow {
    async fn fetch_raw_account(&self, address: &Pubkey) -> anyhow::Result<AccountSharedData> {
        self.gate(address.to_string()).await?;
        self.rpc.fetch_raw_account(address).await
    }

    async fn fetch_program_accounts(&self, program: &Pubkey, d: [u8; 8]) -> anyhow::Result<Vec<(Pubkey, AccountSharedData)>> {
        self.gate(format!("{program} {d:?}")).await?;
        self.rpc.fetch_program_accounts(program, d).await
    }
}

struct Idle;

impl Wake for Idle {
    fn wake(self: Arc<Self>) {}
}

type Request = Pin<Box<dyn Future<Output = Value>>>;

struct Cache {
    node: Chain,
    slow: Arc<Slow>,
    fetcher: CachedAccountFetcher<Slow>,
    asked: Vec<Option<Request>>,
    past: Vec<Value>,
}

fn fresh() -> Cache {
    let rpc = RpcClient::new_with_commitment("".into(), CommitmentConfig::processed());
    let slow = Arc::new(Slow { rpc: RpcAccountFetcher { rpc }, calls: Mutex::new(0), open: Mutex::new(None) });
    Cache {
        node: Chain::default(),
        fetcher: CachedAccountFetcher::new(slow.clone()),
        slow,
        asked: (0..REQUESTS).map(|_| None).collect(),
        past: vec![],
    }
}

impl Clone for Cache {
    fn clone(&self) -> Self {
        let mut c = fresh();
        for a in &self.past {
            attempt(|| c.apply(a));
        }
        c
    }
}

impl Cache {
    /// Answers that are there now.
    fn poll(&mut self) -> Vec<Value> {
        let waker = Arc::new(Idle).into();
        let mut out = vec![];
        let asked = &mut self.asked;
        node::with(&mut self.node, || {
            for (i, q) in asked.iter_mut().enumerate() {
                if let Some(f) = q {
                    if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
                        out.push(json!([i + 1, x]));
                        *q = None;
                    }
                }
            }
        });
        out
    }

    fn apply(&mut self, v: &Value) -> Vec<Value> {
        self.past.push(v.clone());
        let i = |k: &str| v[k].as_i64().unwrap_or(0);
        let r = (i("r") - 1).max(0) as usize;
        let program = openbook_v2::id();
        match v["op"].as_str().unwrap() {
            "one" if self.asked[r].is_none() => {
                let (f, k, way) = (self.fetcher.clone(), i("k"), self.past.len() % 3);
                self.asked[r] = Some(Box::pin(async move {
                    let at = key(k);
                    let x = match (way, KINDS[k as usize]) {
                        (0, _) => f.fetch_raw_account(&at).await.map(|a| value(&a)),
                        (1, _) => f.fetch_raw_account_lookup_table(&at).await.map(|a| value(&a)),
                        (_, 1) => account_fetcher_fetch_openorders_account(&f, &at).await.map(|a| a.account_num as i64),
                        _ => account_fetcher_fetch_anchor_account::<OpenOrdersIndexer>(&f, &at).await.map(|a| a.created_counter as i64),
                    };
                    json!([x.unwrap_or(-1)])
                }));
            }
            "all" if self.asked[r].is_none() => {
                let (f, c) = (self.fetcher.clone(), i("c"));
                self.asked[r] = Some(Box::pin(async move {
                    match f.fetch_program_accounts(&program, disc(c)).await {
                        Err(_) => json!([-1]),
                        Ok(all) => {
                            let number = |p: &Pubkey| p.to_bytes()[0] as i64 - 1;
                            let mut all: Vec<_> = all.iter().map(|(p, a)| [number(p), value(a)]).collect();
                            all.sort();
                            json!(all)
                        }
                    }
                }));
            }
            op @ ("answer" | "fail") => {
                let target = if v["k"].is_i64() { key(i("k")).to_string() } else { format!("{program} {:?}", disc(i("c"))) };
                *self.slow.open.lock().unwrap() = Some((target, op == "answer"));
                let out = self.poll();
                *self.slow.open.lock().unwrap() = None;
                return out;
            }
            "write" => {
                self.node.0.remove(&i("k"));
                if i("v") > 0 {
                    self.node.0.insert(i("k"), i("v"));
                }
            }
            "clear" => self.fetcher.clear_cache(),
            "drop" => self.asked[r] = None,
            _ => {}
        }
        self.poll()
    }
}

impl Part for Cache {
    fn init(_: &Value) -> Self {
        fresh()
    }

    fn act(&mut self, v: &Value) -> Value {
        let r = attempt(|| {
            let ans = if v["op"] == "look" { vec![] } else { self.apply(v) };
            json!({"ans": ans, "calls": *self.slow.calls.lock().unwrap(),
                "open": self.asked.iter().map(|q| q.is_some() as i64).collect::<Vec<_>>()})
        });
        r.unwrap_or_else(|| json!({"broken": 1}))
    }

    fn random(&mut self, r: &mut rng::Rng) -> Value {
        let (k, c, q) = (r.r(1, 3), r.r(1, 2), r.r(1, REQUESTS as i64));
        match r.r(0, 19) {
            0..=4 => json!({"op": "one", "r": q, "k": k}),
            5..=7 => json!({"op": "all", "r": q, "c": c}),
            8..=10 => json!({"op": "answer", "k": k}),
            11..=12 => json!({"op": "answer", "c": c}),
            13 => json!({"op": "fail", "k": k}),
            14 => json!({"op": "fail", "c": c}),
            15..=17 => json!({"op": "write", "k": k, "v": if r.r(0, 3) == 0 { 0 } else { r.r(1, 50) }}),
            18 => json!({"op": "clear"}),
            _ => json!({"op": "drop", "r": q}),
        }
    }
}

fn main() {
    parts::main::<Cache>();
}
