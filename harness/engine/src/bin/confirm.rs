//! The Rust client waiting for a transaction it sent, over a node that answers from a script; and its channels.
#![allow(dead_code)]
#[path = "../parts.rs"]
mod parts;
#[path = "../rng.rs"]
mod rng;
#[path = "/repo/lib/client/src/util.rs"]
mod util;
#[path = "../watch.rs"]
mod watch;

use parts::{attempt, Part};
use serde_json::{json, Value};
use solana_client::client_error::ClientErrorKind;
use solana_client::node::{self, Node};
use solana_client::rpc_client::RpcClient;
use solana_sdk::account::Account;
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::hash::Hash;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::{Keypair, Signature, Signer};
use solana_sdk::system_instruction;
use solana_sdk::transaction::{Transaction, TransactionError, VersionedTransaction};
use std::cell::Cell;
use std::collections::VecDeque;
use std::time::Duration;
use util::AsyncChannelSendUnlessFull;

thread_local! {
    /// How often the client paused, while it runs.
    static NAPS: Cell<Option<i64>> = Cell::new(None);
}

#[repr(C)]
pub struct Time {
    s: i64,
    ns: i64,
}

/// The client pauses between questions; here that takes no time.
unsafe fn pause(t: *const Time) -> i32 {
    match NAPS.with(|n| n.get()) {
        Some(n) => NAPS.with(|c| c.set(Some(n + 1))),
        None => std::thread::park_timeout(Duration::new((*t).s as u64, (*t).ns as u32)),
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const Time, _: *mut Time) -> i32 {
    pause(t)
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_: i32, _: i32, t: *const Time, _: *mut Time) -> i32 {
    pause(t)
}

struct Script {
    take: i64,
    recent: i64,
    polls: VecDeque<(i64, i64)>,
    now: (i64, i64),
    of: Signature,
    hash: Hash,
    sent: i64,
    asked: [i64; 2],
    /// questions about other transactions and hashes
    other: i64,
}

fn hash(n: u8) -> Hash {
    Hash::new_from_array([n; 32])
}

impl Node for Script {
    fn slot(&mut self) -> u64 {
        50
    }

    fn account(&mut self, _: &Pubkey) -> Result<Option<Account>, String> {
        Ok(None)
    }

    fn owned(&mut self, _: &Pubkey) -> Vec<(Pubkey, Account)> {
        vec![]
    }

    fn send(&mut self, tx: &VersionedTransaction) -> Result<(), TransactionError> {
        self.sent += 1;
        self.other += (tx.signatures[0] != self.of) as i64;
        if self.take == 1 { Ok(()) } else { Err(TransactionError::AccountInUse) }
    }

    fn recent(&mut self) -> Result<Hash, String> {
        if self.recent == 9 { Err("no answer".into()) } else { Ok(hash(8)) }
    }

    fn poll(&mut self, s: &Signature) -> Result<Option<(u64, u8, Option<TransactionError>)>, String> {
        self.other += (*s != self.of) as i64;
        let slot = 100 + self.asked[0] as u64;
        self.asked[0] += 1;
        self.now = self.polls.pop_front().unwrap_or((3, 1));
        match self.now.0 {
            9 => Err("no answer".into()),
            0 => Ok(None),
            v => Ok(Some((slot, v.unsigned_abs() as u8, (v < 0).then_some(TransactionError::InsufficientFundsForFee)))),
        }
    }

    fn valid(&mut self, h: &Hash) -> Result<bool, String> {
        self.asked[1] += 1;
        self.other += (*h != self.hash) as i64;
        if self.now.1 == 9 { Err("no answer".into()) } else { Ok(self.now.1 == 1) }
    }
}

#[derive(Clone)]
struct Confirm;

fn send(v: &Value) -> Value {
    let i = |k: &str| v[k].as_i64().unwrap();
    let who = Keypair::from_bytes(&keypair()).unwrap();
    let k = who.pubkey();
    let pay = system_instruction::transfer(&k, &Pubkey::new_from_array([9; 32]), 1);
    let ixs = if i("nonce") == 1 { vec![system_instruction::advance_nonce_account(&Pubkey::new_from_array([6; 32]), &k), pay] } else { vec![pay] };
    let tx = Transaction::new_signed_with_payer(&ixs, Some(&k), &[&who], hash(7));
    let polls = v["polls"].as_array().unwrap().iter().map(|p| (p[0].as_i64().unwrap(), p[1].as_i64().unwrap())).collect();
    let mut node = Script {
        take: i("take"), recent: i("recent"), polls, now: (0, 1), of: tx.signatures[0],
        hash: if i("nonce") == 1 { hash(8) } else { hash(7) }, sent: 0, asked: [0, 0], other: 0,
    };
    let com = [CommitmentConfig::processed(), CommitmentConfig::confirmed(), CommitmentConfig::finalized()][i("com") as usize - 1];
    NAPS.with(|n| n.set(Some(0)));
    let r = node::with(&mut node, || util::send_and_confirm_transaction(&RpcClient::new_with_commitment("".into(), com), &tx));
    let naps = NAPS.with(|n| n.take());
    let (out, slot, sig) = match r {
        Ok((s, slot)) => ("done", slot, (s == tx.signatures[0]) as i64),
        Err(e) => (if let ClientErrorKind::TransactionError(_) = e.kind() { "failed" } else { "unknown" }, 0, 0),
    };
    json!({"out": out, "slot": slot, "sig": sig, "sent": node.sent, "polls": node.asked[0], "valids": node.asked[1],
        "other": node.other, "naps": naps})
}

fn keypair() -> [u8; 64] {
    let seed = [3; 32];
    solana_sdk::signature::keypair_from_seed(&seed).unwrap().to_bytes()
}

/// Messages for a channel nobody reads from meanwhile.
fn full(v: &Value) -> Value {
    let i = |k: &str| v[k].as_i64().unwrap();
    let (to, from) = async_channel::bounded(i("room") as usize);
    let ok = (1..=i("sends")).all(|n| to.send_unless_full(n).is_ok());
    if i("shut") == 1 {
        from.close();
    }
    let got: Vec<i64> = std::iter::from_fn(|| from.try_recv()).collect();
    let late = to.send_unless_full(99).is_err();
    json!({"ok": ok as i64, "got": got, "late": late as i64})
}

impl Part for Confirm {
    fn init(_: &Value) -> Self {
        Confirm
    }

    fn act(&mut self, v: &Value) -> Value {
        let r = attempt(|| match v["op"].as_str().unwrap() {
            "send" => send(v),
            "full" => full(v),
            _ => json!({}),
        });
        r.unwrap_or_else(|| json!({"broken": 1}))
    }

    fn random(&mut self, r: &mut rng::Rng) -> Value {
        let com = r.r(1, 3);
        let n = r.r(0, 30);
        let polls: Vec<[i64; 2]> = (0..n)
            .map(|_| {
                let low = if r.pct(50) { 0 } else { r.r(1 - com, com - 1) };
                [if r.pct(95) { low } else { r.r(-3, 3) }, if r.pct(97) { 1 } else { 9 * r.r(0, 1) }]
            })
            .collect();
        json!({"op": "send", "com": com, "nonce": r.r(0, 1), "take": !r.pct(3) as i64, "recent": if r.pct(3) { 9 } else { 1 }, "polls": polls})
    }
}

fn main() {
    parts::main::<Confirm>();
}
