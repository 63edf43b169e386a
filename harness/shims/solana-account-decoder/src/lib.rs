//! How accounts are encoded; the crate itself is not available offline.
use solana_sdk::account::AccountSharedData;

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize)]
pub enum UiAccountEncoding {
    #[serde(rename = "base58")]
    Base58,
    #[serde(rename = "base64")]
    Base64,
}

pub struct UiAccount(pub Option<AccountSharedData>);

impl UiAccount {
    pub fn decode<T: From<AccountSharedData>>(&self) -> Option<T> {
        self.0.clone().map(T::from)
    }
}
