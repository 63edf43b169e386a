//! Connecting to a node; the crate itself is not available offline.
pub mod transports {
    pub mod http {
        pub async fn connect<C: Default>(_: &str) -> Result<C, String> {
            Ok(C::default())
        }
    }
}
