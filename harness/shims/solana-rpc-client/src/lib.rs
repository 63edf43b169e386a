//! Requests to a node that answers when it is let; the crate itself is not available offline.
pub mod nonblocking {
    pub mod rpc_client {
        use serde_json::Value;
        use solana_client::client_error::{ClientErrorKind, Result};
        use solana_client::node::{self, Answer};
        use solana_client::rpc_request::{RpcError, RpcRequest};
        use std::future::poll_fn;
        use std::task::Poll;

        pub struct RpcClient;

        impl RpcClient {
            pub fn new(_: String) -> Self {
                Self
            }

            pub async fn send<T: From<Answer>>(&self, request: RpcRequest, params: Value) -> Result<T> {
                let no = node::ask(|n| n.begin(request, params.to_string()));
                let r = poll_fn(|_| node::ask(|n| n.answer(no)).map_or(Poll::Pending, Poll::Ready)).await;
                r.map(T::from).map_err(|e| ClientErrorKind::RpcError(RpcError::ForUser(e)).into())
            }
        }
    }
}
