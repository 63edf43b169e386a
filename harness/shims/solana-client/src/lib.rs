//! What lib/client takes from solana-client, against a node in the same process; the crate itself is not
//! available offline.
pub mod rpc_response {
    pub struct RpcResponseContext {
        pub slot: u64,
    }

    pub struct Response<T> {
        pub context: RpcResponseContext,
        pub value: T,
    }

    pub use solana_account_decoder::UiAccount;

    pub enum OptionalContext<T> {
        Context(Response<T>),
        NoContext(T),
    }

    pub struct RpcKeyedAccount {
        pub pubkey: String,
        pub account: UiAccount,
    }

    pub struct SlotTransactionStats;

    pub enum SlotUpdate {
        FirstShredReceived { slot: u64, timestamp: u64 },
        Completed { slot: u64, timestamp: u64 },
        CreatedBank { slot: u64, parent: u64, timestamp: u64 },
        Frozen { slot: u64, timestamp: u64, stats: SlotTransactionStats },
        Dead { slot: u64, timestamp: u64, err: String },
        OptimisticConfirmation { slot: u64, timestamp: u64 },
        Root { slot: u64, timestamp: u64 },
    }
}

/// The node clients talk to.
pub mod node {
    use crate::rpc_request::RpcRequest;
    use crate::rpc_response::{OptionalContext, Response, RpcKeyedAccount, RpcResponseContext, UiAccount};
    use solana_sdk::account::{Account, AccountSharedData};
    use solana_sdk::hash::Hash;
    use solana_sdk::pubkey::Pubkey;
    use solana_sdk::signature::Signature;
    use solana_sdk::transaction::{TransactionError, VersionedTransaction};
    use std::cell::Cell;

    /// Accounts as of a slot, and whether the slot is told.
    pub struct Answer {
        pub slot: u64,
        pub told: bool,
        pub accounts: Vec<(Pubkey, Option<AccountSharedData>)>,
    }

    impl From<Answer> for OptionalContext<Vec<RpcKeyedAccount>> {
        fn from(a: Answer) -> Self {
            let account = |(k, x): (Pubkey, _)| RpcKeyedAccount { pubkey: k.to_string(), account: UiAccount(x) };
            let value = a.accounts.into_iter().map(account).collect();
            if a.told {
                OptionalContext::Context(Response { context: RpcResponseContext { slot: a.slot }, value })
            } else {
                OptionalContext::NoContext(value)
            }
        }
    }

    impl From<Answer> for Response<Vec<Option<UiAccount>>> {
        fn from(a: Answer) -> Self {
            let value = a.accounts.into_iter().map(|(_, x)| x.map(|x| UiAccount(Some(x)))).collect();
            Response { context: RpcResponseContext { slot: a.slot }, value }
        }
    }

    pub trait Node {
        fn slot(&mut self) -> u64;
        fn account(&mut self, key: &Pubkey) -> Result<Option<Account>, String>;
        fn owned(&mut self, program: &Pubkey) -> Vec<(Pubkey, Account)>;
        fn send(&mut self, tx: &VersionedTransaction) -> Result<(), TransactionError>;
        /// the slot it was processed in
        fn status(&mut self, _: &Signature) -> Option<u64> {
            None
        }
        /// a request that takes a while, and its answer once there is one
        fn begin(&mut self, _: RpcRequest, _params: String) -> usize {
            unreachable!()
        }
        fn answer(&mut self, _: usize) -> Option<Result<Answer, String>> {
            unreachable!()
        }
        /// its status: slot, level of commitment and error
        fn poll(&mut self, s: &Signature) -> Result<Option<(u64, u8, Option<TransactionError>)>, String> {
            Ok(self.status(s).map(|slot| (slot, 3, None)))
        }
        fn recent(&mut self) -> Result<Hash, String> {
            Ok(Hash::new_from_array([5; 32]))
        }
        /// whether transactions with this hash can be taken
        fn valid(&mut self, h: &Hash) -> Result<bool, String> {
            Ok(*h == Hash::new_from_array([5; 32]))
        }
    }

    thread_local! {
        static NODE: Cell<Option<*mut dyn Node>> = Cell::new(None);
    }

    /// Has clients talk to this node meanwhile.
    pub fn with<R>(n: &mut dyn Node, f: impl FnOnce() -> R) -> R {
        struct Reset(Option<*mut dyn Node>);
        impl Drop for Reset {
            fn drop(&mut self) {
                NODE.with(|c| c.set(self.0));
            }
        }
        // the pointer is gone before the borrow ends
        let p: *mut (dyn Node + '_) = n;
        let p: *mut (dyn Node + 'static) = unsafe { std::mem::transmute(p) };
        let _r = Reset(NODE.with(|c| c.replace(Some(p))));
        f()
    }

    pub fn ask<R>(f: impl FnOnce(&mut dyn Node) -> R) -> R {
        let p = NODE.with(|c| c.get()).expect("no node");
        f(unsafe { &mut *p })
    }
}

pub mod rpc_config {
    use serde::Serialize;
    pub use solana_account_decoder::UiAccountEncoding;
    use solana_sdk::commitment_config::{CommitmentConfig, CommitmentLevel};

    #[derive(Clone, Copy, Debug, Default)]
    pub struct RpcSendTransactionConfig {
        pub skip_preflight: bool,
        pub preflight_commitment: Option<CommitmentLevel>,
        pub max_retries: Option<usize>,
        pub min_context_slot: Option<u64>,
    }

    #[derive(Clone, Debug, Default)]
    pub struct RpcContextConfig {
        pub commitment: Option<CommitmentConfig>,
        pub min_context_slot: Option<u64>,
    }

    #[derive(Clone, Copy, Debug, Serialize)]
    pub struct UiDataSliceConfig {
        pub offset: usize,
        pub length: usize,
    }

    #[derive(Clone, Debug, Default, Serialize)]
    #[serde(rename_all = "camelCase")]
    pub struct RpcAccountInfoConfig {
        pub encoding: Option<UiAccountEncoding>,
        pub data_slice: Option<UiDataSliceConfig>,
        #[serde(flatten)]
        pub commitment: Option<CommitmentConfig>,
        pub min_context_slot: Option<u64>,
    }

    #[derive(Clone, Debug, Default, Serialize)]
    #[serde(rename_all = "camelCase")]
    pub struct RpcProgramAccountsConfig {
        pub filters: Option<Vec<crate::rpc_filter::RpcFilterType>>,
        #[serde(flatten)]
        pub account_config: RpcAccountInfoConfig,
        pub with_context: Option<bool>,
    }
}

pub mod rpc_filter {
    use serde::Serialize;

    #[derive(Clone, Debug, Serialize)]
    pub struct Memcmp {
        offset: usize,
        bytes: Vec<u8>,
    }

    impl Memcmp {
        pub fn new_raw_bytes(offset: usize, bytes: Vec<u8>) -> Self {
            Self { offset, bytes }
        }
    }

    #[derive(Clone, Debug, Serialize)]
    pub enum RpcFilterType {
        DataSize(u64),
        Memcmp(Memcmp),
    }

    impl RpcFilterType {
        pub fn allows(&self, data: &[u8]) -> bool {
            match self {
                RpcFilterType::DataSize(n) => data.len() as u64 == *n,
                RpcFilterType::Memcmp(m) => data.get(m.offset..m.offset + m.bytes.len()) == Some(&m.bytes[..]),
            }
        }
    }
}

pub mod rpc_request {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum RpcRequest {
        GetProgramAccounts,
        GetMultipleAccounts,
    }

    use solana_sdk::transaction::TransactionError;

    #[derive(Debug)]
    pub struct RpcSimulateTransactionResult {
        pub err: Option<TransactionError>,
        pub logs: Option<Vec<String>>,
    }

    #[derive(Debug)]
    pub enum RpcResponseErrorData {
        Empty,
        SendTransactionPreflightFailure(RpcSimulateTransactionResult),
    }

    #[derive(Debug, thiserror::Error)]
    pub enum RpcError {
        #[error("RPC response error {code}: {message}")]
        RpcResponseError { code: i64, message: String, data: RpcResponseErrorData },
        #[error("{0}")]
        ForUser(String),
    }
}

pub mod client_error {
    use solana_sdk::transaction::TransactionError;

    #[derive(Debug, thiserror::Error)]
    pub enum ClientErrorKind {
        #[error("{0}")]
        RpcError(#[from] crate::rpc_request::RpcError),
        #[error("{0}")]
        TransactionError(#[from] TransactionError),
    }

    #[derive(Debug, thiserror::Error)]
    #[error("{kind}")]
    pub struct ClientError {
        kind: ClientErrorKind,
    }

    impl ClientError {
        pub fn kind(&self) -> &ClientErrorKind {
            &self.kind
        }
    }

    impl<T: Into<ClientErrorKind>> From<T> for ClientError {
        fn from(x: T) -> Self {
            Self { kind: x.into() }
        }
    }

    pub type Result<T> = std::result::Result<T, ClientError>;
}

pub mod rpc_client {
    use crate::client_error::Result;
    use crate::node;
    use crate::nonblocking::rpc_client::{self as other, Status};
    use crate::rpc_response::Response;
    use solana_sdk::commitment_config::CommitmentConfig;
    use solana_sdk::hash::Hash;
    use solana_sdk::signature::Signature;
    use solana_sdk::transaction::Transaction;

    pub struct RpcClient {
        commitment: CommitmentConfig,
    }

    impl RpcClient {
        pub fn new_with_commitment(_: String, commitment: CommitmentConfig) -> Self {
            Self { commitment }
        }

        pub fn commitment(&self) -> CommitmentConfig {
            self.commitment
        }

        pub fn send_transaction(&self, tx: &Transaction) -> Result<Signature> {
            other::send(&tx.clone().into())
        }

        pub fn get_latest_blockhash_with_commitment(&self, _: CommitmentConfig) -> Result<(Hash, u64)> {
            Ok((node::ask(|n| n.recent()).map_err(other::user)?, 0))
        }

        pub fn get_signature_statuses(&self, of: &[Signature]) -> Result<Response<Vec<Option<Status>>>> {
            other::statuses(of)
        }

        pub fn is_blockhash_valid(&self, h: &Hash, _: CommitmentConfig) -> Result<bool> {
            node::ask(|n| n.valid(h)).map_err(other::user)
        }
    }
}

pub mod nonblocking {
    pub mod rpc_client {
        use crate::client_error::{ClientErrorKind, Result};
        use crate::node;
        use crate::rpc_config::{RpcProgramAccountsConfig, RpcSendTransactionConfig};
        use crate::rpc_request::RpcError;
        use crate::rpc_response::{Response, RpcResponseContext};
        use solana_sdk::account::Account;
        use solana_sdk::commitment_config::CommitmentConfig;
        use solana_sdk::hash::Hash;
        use solana_sdk::pubkey::Pubkey;
        use solana_sdk::signature::Signature;
        use solana_sdk::transaction::{TransactionError, VersionedTransaction};
        use std::time::Duration;

        #[derive(Clone, Debug)]
        pub struct Status {
            pub slot: u64,
            pub err: Option<TransactionError>,
            /// 1 processed, 2 confirmed, 3 final
            level: u8,
        }

        impl Status {
            pub fn satisfies_commitment(&self, c: CommitmentConfig) -> bool {
                self.level >= if c.is_finalized() { 3 } else if c.is_confirmed() { 2 } else { 1 }
            }
        }

        pub struct RpcClient {
            commitment: CommitmentConfig,
        }

        pub(crate) fn blockhash() -> Hash {
            Hash::new_from_array([5; 32])
        }

        pub(crate) fn statuses(of: &[Signature]) -> Result<Response<Vec<Option<Status>>>> {
            let status = |s| Ok(node::ask(|n| n.poll(s)).map_err(user)?.map(|(slot, level, err)| Status { slot, err, level }));
            let value = of.iter().map(status).collect::<Result<Vec<_>>>()?;
            Ok(Response { context: RpcResponseContext { slot: node::ask(|n| n.slot()) }, value })
        }

        pub(crate) fn send(tx: &VersionedTransaction) -> Result<Signature> {
            if tx.signatures.is_empty() || tx.verify_with_results().iter().any(|ok| !ok) {
                return Err(TransactionError::SignatureFailure.into());
            }
            node::ask(|n| n.send(tx))?;
            Ok(tx.signatures[0])
        }

        pub(crate) fn user(e: String) -> crate::client_error::ClientError {
            ClientErrorKind::RpcError(RpcError::ForUser(e)).into()
        }

        impl RpcClient {
            pub fn new_with_commitment(_: String, commitment: CommitmentConfig) -> Self {
                Self { commitment }
            }

            pub fn new_with_timeout_and_commitment(url: String, _: Duration, commitment: CommitmentConfig) -> Self {
                Self::new_with_commitment(url, commitment)
            }

            pub fn commitment(&self) -> CommitmentConfig {
                self.commitment
            }

            pub async fn get_account_with_commitment(&self, k: &Pubkey, _: CommitmentConfig) -> Result<Response<Option<Account>>> {
                let value = node::ask(|n| n.account(k)).map_err(user)?;
                Ok(Response { context: RpcResponseContext { slot: node::ask(|n| n.slot()) }, value })
            }

            pub async fn get_account(&self, k: &Pubkey) -> Result<Account> {
                let a = node::ask(|n| n.account(k)).map_err(user)?;
                a.ok_or_else(|| user(format!("AccountNotFound: pubkey={k}")))
            }

            pub async fn get_multiple_accounts(&self, keys: &[Pubkey]) -> Result<Vec<Option<Account>>> {
                keys.iter().map(|k| node::ask(|n| n.account(k)).map_err(user)).collect()
            }

            pub async fn get_program_accounts_with_config(&self, p: &Pubkey, c: RpcProgramAccountsConfig) -> Result<Vec<(Pubkey, Account)>> {
                let filters = c.filters.unwrap_or_default();
                let all = node::ask(|n| n.owned(p));
                Ok(all.into_iter().filter(|(_, a)| filters.iter().all(|f| f.allows(&a.data))).collect())
            }

            pub async fn get_latest_blockhash(&self) -> Result<Hash> {
                Ok(blockhash())
            }

            pub async fn send_transaction_with_config(&self, tx: &VersionedTransaction, _: RpcSendTransactionConfig) -> Result<Signature> {
                send(tx)
            }

            pub async fn send_and_confirm_transaction(&self, tx: &VersionedTransaction) -> Result<Signature> {
                send(tx)
            }

            pub async fn get_signature_statuses(&self, of: &[Signature]) -> Result<Response<Vec<Option<Status>>>> {
                statuses(of)
            }
        }
    }
}
