//! What lib/client takes from anchor-client; the crate itself is not available offline.
#[derive(Clone, Debug)]
pub enum Cluster {
    Localnet,
    Custom(String, String),
}

impl Cluster {
    pub fn url(&self) -> &str {
        match self {
            Cluster::Localnet => "http://127.0.0.1:8899",
            Cluster::Custom(url, _) => url,
        }
    }
}

#[derive(Debug, thiserror::Error)]
pub enum ClientError {
    #[error("Account not found")]
    AccountNotFound,
    #[error("{0}")]
    SolanaClientError(#[from] solana_client::client_error::ClientError),
}
