//! The Rust client, with this world as the node it talks to.
use crate::client::{Client, OpenBookClient, TransactionBuilderConfig};
use crate::rt::{Done, Fail, Meta};
use crate::world::{keypair, person, World};
use crate::{abi, account_fetcher};
use anchor_client::Cluster;
use solana_client::node::{self, Node};
use solana_program::pubkey::Pubkey;
use solana_sdk::account::Account;
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::instruction::InstructionError;
use solana_sdk::transaction::{TransactionError, VersionedTransaction};
use std::future::Future;
use std::pin::pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake};

struct Idle;

impl Wake for Idle {
    fn wake(self: Arc<Self>) {}
}

fn wait<T>(f: impl Future<Output = T>) -> T {
    let waker = Arc::new(Idle).into();
    let mut f = pin!(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
            return x;
        }
    }
}

struct Here<'a> {
    w: &'a mut World,
    /// who is to pay, and the price for the computation they ask for
    payer: Pubkey,
    price: Option<u64>,
    done: Vec<Result<Done, Fail>>,
}

fn shared(a: crate::rt::Acct) -> Account {
    Account { lamports: a.lamports, data: a.data, owner: a.owner, executable: a.exec, rent_epoch: 0 }
}

impl Node for Here<'_> {
    fn slot(&mut self) -> u64 {
        self.w.rt.clock.slot
    }

    fn account(&mut self, k: &Pubkey) -> Result<Option<Account>, String> {
        let a = self.w.rt.get(k);
        Ok((a.lamports > 0).then(|| shared(a)))
    }

    fn owned(&mut self, p: &Pubkey) -> Vec<(Pubkey, Account)> {
        let all = self.w.rt.accts.iter().filter(|(_, a)| a.owner == *p && a.lamports > 0);
        all.map(|(k, a)| (*k, shared(a.clone()))).collect()
    }

    fn send(&mut self, tx: &VersionedTransaction) -> Result<(), TransactionError> {
        let m = &tx.message;
        let keys = m.static_account_keys();
        let before = self.w.rt.accts.clone();
        let mut price = None;
        let mut fail = None;
        if keys[0] != self.payer {
            fail = Some(Fail::Client("somebody else pays".into()));
        }
        for i in m.instructions() {
            if fail.is_some() {
                break;
            }
            let program = keys[i.program_id_index as usize];
            if program == solana_sdk::compute_budget::ID {
                if i.data[0] == 3 {
                    price = Some(abi::r64(&i.data, 1));
                }
                continue;
            }
            if program != abi::PROGRAM {
                fail = Some(Fail::Client("another program".into()));
                continue;
            }
            let meta = |k: &u8| {
                let k = *k as usize;
                Meta { key: keys[k], signer: m.is_signer(k), writable: m.is_maybe_writable(k) }
            };
            let metas: Vec<Meta> = i.accounts.iter().map(meta).collect();
            match self.w.rt.exec(&metas, &i.data) {
                Ok(d) => self.done.push(Ok(d)),
                Err(e) => fail = Some(e),
            }
        }
        if fail.is_none() && price != self.price {
            fail = Some(Fail::Client("another price".into()));
        }
        match fail {
            None => Ok(()),
            Some(e) => {
                self.w.rt.accts = before;
                self.done.push(Err(e));
                Err(TransactionError::InstructionError(0, InstructionError::GenericError))
            }
        }
    }
}

/// Has a client whose transactions this person pays for do something. Gives what came of the transactions it
/// sent, and what it said.
pub fn with<T, F: Future<Output = anyhow::Result<T>>>(
    w: &mut World,
    payer: usize,
    as_payer: bool,
    f: impl FnOnce(Client) -> F,
) -> (Vec<Result<Done, Fail>>, anyhow::Result<T>) {
    let price = (payer % 2 == 0).then_some(7_000_000_001);
    let config = TransactionBuilderConfig { prioritization_micro_lamports: price };
    // the fee payer of the client itself may be somebody else
    let own = Arc::new(keypair(if as_payer { payer } else { 77 }));
    let client = Client::new(Cluster::Localnet, CommitmentConfig::processed(), own, None, config);
    let mut here = Here { w, payer: person(payer), price, done: vec![] };
    let r = node::with(&mut here, || wait(f(client)));
    (here.done, r)
}

/// The client of this person for this account.
pub fn of(client: Client, owner: usize, account: Pubkey) -> OpenBookClient {
    let rpc = client.rpc_async();
    let fetcher = account_fetcher::CachedAccountFetcher::new(Arc::new(account_fetcher::RpcAccountFetcher { rpc }));
    OpenBookClient::new_detail(client, account, Arc::new(keypair(owner)), Arc::new(fetcher)).unwrap()
}

/// The last of what came of them, unless the client said otherwise.
pub fn last<T>(r: (Vec<Result<Done, Fail>>, anyhow::Result<T>)) -> Result<Done, Fail> {
    match (r.0.into_iter().last(), r.1) {
        (Some(Err(e)), _) => Err(e),
        (Some(Ok(d)), Ok(_)) => Ok(d),
        (_, Err(e)) => Err(Fail::Client(format!("{e:#}"))),
        (None, Ok(_)) => Err(Fail::Client("nothing sent".into())),
    }
}
