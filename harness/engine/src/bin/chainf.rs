//! The client's view of the chain, through the fetcher that keeps it current.
#![allow(dead_code)]
#[path = "/repo/lib/client/src/account_fetcher.rs"]
mod account_fetcher;
#[path = "/repo/lib/client/src/account_update_stream.rs"]
mod account_update_stream;
#[path = "/repo/lib/client/src/chain_data.rs"]
mod chain_data;
#[path = "/repo/lib/client/src/chain_data_fetcher.rs"]
mod chain_data_fetcher;
#[path = "../chaining.rs"]
mod chaining;
#[path = "../parts.rs"]
mod parts;
#[path = "../rng.rs"]
mod rng;
#[path = "../watch.rs"]
mod watch;

pub use account_fetcher::AccountFetcher;

use anchor_lang::Discriminator;
use chaining::{account, Shared, Through, ACCOUNTS, THROUGH};
use openbook_v2::state::OpenOrdersAccount;
use serde_json::{json, Value};
use solana_client::nonblocking::rpc_client::RpcClient;
use solana_client::node::{self, Node};
use solana_sdk::account::{Account, AccountSharedData, ReadableAccount};
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Signature;
use solana_sdk::transaction::{TransactionError, VersionedTransaction};
use std::future::Future;
use std::pin::pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake};
use std::time::Duration;

struct Idle;

impl Wake for Idle {
    fn wake(self: Arc<Self>) {}
}

fn wait<T>(f: impl Future<Output = T>) -> T {
    let waker = Arc::new(Idle).into();
    let mut f = pin!(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
            return x;
        }
    }
}

/// A node that is at some slot and has some data for one account.
struct At {
    slot: u64,
    key: Pubkey,
    data: Option<AccountSharedData>,
}

impl Node for At {
    fn slot(&mut self) -> u64 {
        self.slot
    }

    fn account(&mut self, k: &Pubkey) -> Result<Option<Account>, String> {
        Ok(self.data.clone().filter(|_| *k == self.key).map(Into::into))
    }

    fn owned(&mut self, _: &Pubkey) -> Vec<(Pubkey, Account)> {
        vec![]
    }

    fn send(&mut self, _: &VersionedTransaction) -> Result<(), TransactionError> {
        unreachable!()
    }

    /// Signatures tell the slot they were processed in.
    fn status(&mut self, s: &Signature) -> Option<u64> {
        let b: &[u8] = s.as_ref();
        (b[0] > 0).then(|| b[0] as u64)
    }
}

fn fetcher(c: &Shared) -> chain_data_fetcher::AccountFetcher {
    let rpc = RpcClient::new_with_commitment("".into(), CommitmentConfig::processed());
    chain_data_fetcher::AccountFetcher { chain_data: c.clone(), rpc }
}

fn data(n: i64) -> AccountSharedData {
    let mut a = *OpenOrdersAccount::default_for_tests();
    a.account_num = n as u32;
    let mut d = OpenOrdersAccount::discriminator().to_vec();
    d.extend_from_slice(bytemuck::bytes_of(&a));
    AccountSharedData::from(Account { lamports: n as u64, data: d, owner: openbook_v2::id(), executable: false, rent_epoch: 0 })
}

fn fetch(c: &Shared, v: &Value, n: i64) -> Value {
    let (k, s) = (account(v["k"].as_i64().unwrap()), v["s"].as_u64().unwrap());
    let f = fetcher(c);
    let num = |r: anyhow::Result<OpenOrdersAccount>| json!({"got": r.map_or(-1, |a| a.account_num as i64)});
    let slot = |r: anyhow::Result<u64>| r.map_or_else(|_| json!({"got": -1}), |s| json!({"slot": s}));
    let op = v["op"].as_str().unwrap();
    let mut at = At { slot: s, key: k, data: (op != "gone").then(|| data(n)) };
    node::with(&mut at, || match (op, n % 4) {
        ("alt", _) => json!({"got": wait(f.fetch_raw_account_lookup_table(&k)).map_or(-1, |a| a.lamports() as i64)}),
        (_, 0) => slot(wait(f.refresh_account_via_rpc(&k))),
        (_, 1) => num(wait(f.fetch_fresh::<OpenOrdersAccount>(&k))),
        (_, 2) => num(wait(f.fetch_fresh_openbook_account(&k))),
        _ => slot(wait(f.refresh_accounts_via_rpc_until_slot(&[k], s - (n as u64 / 4) % 2, Duration::from_secs(2))).map(|_| s)),
    })
}

fn look(c: &Shared) -> Value {
    let f = fetcher(c);
    let num = |r: anyhow::Result<OpenOrdersAccount>| r.map_or(-1, |a| a.account_num as i64);
    let keys: Vec<Pubkey> = (1..=ACCOUNTS).map(account).collect();
    let each = |g: &dyn Fn(&Pubkey) -> i64| -> Vec<i64> { keys.iter().map(g).collect() };
    let of = |p: &Pubkey, d: [u8; 8]| wait(f.fetch_program_accounts(p, d)).unwrap();
    let listed = of(&openbook_v2::id(), OpenOrdersAccount::discriminator());
    let inside = |k: &Pubkey| {
        let all: Vec<_> = listed.iter().filter(|(p, _)| p == k).collect();
        if all.len() > 1 { -2 } else { all.first().map_or(-1, |(_, a)| a.lamports() as i64) }
    };
    let mut near = OpenOrdersAccount::discriminator();
    near[7] ^= 1;
    let others = of(&openbook_v2::id(), [0; 8]).len() + of(&openbook_v2::id(), near).len() + of(&account(50), OpenOrdersAccount::discriminator()).len();
    let w = c.read().unwrap().account_writes_count() as u8;
    let slots = [0, 3, w % 7, 0, 2];
    let sigs: Vec<Signature> = slots.iter().map(|s| Signature::new(&[*s; 64])).collect();
    let mut at = At { slot: 9, key: account(50), data: None };
    json!({
        "ways": [
            each(&|k| f.fetch_raw(k).map_or(-1, |a| a.lamports() as i64)),
            each(&|k| wait(f.fetch_raw_account(k)).map_or(-1, |a| a.lamports() as i64)),
            each(&|k| num(f.fetch::<OpenOrdersAccount>(k))),
            each(&|k| num(f.fetch_openbook_account(k))),
            each(&inside),
        ],
        "others": others,
        "slots": slots,
        "latest": node::with(&mut at, || wait(f.transaction_max_slot(&sigs)).map_or(-1, |s| s as i64)),
        "never": node::with(&mut at, || wait(f.transaction_max_slot(&[])).map_or(-1, |s| s as i64)),
    })
}

fn main() {
    THROUGH.set(Through { fetch, look, data }).ok();
    parts::main::<chaining::Chain>();
}
