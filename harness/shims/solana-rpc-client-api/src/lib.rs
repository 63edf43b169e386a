pub mod client_error {
    pub use solana_client::client_error::ClientError as Error;
    pub use solana_client::client_error::{ClientErrorKind as ErrorKind, Result};
}
