//! What lib/client asks a node about its epoch; the crate itself is not available offline.
pub mod rpc {
    pub mod rpc_minimal {
        use solana_client::node;
        use solana_client::rpc_config::RpcContextConfig;
        use solana_sdk::epoch_info::EpochInfo;

        #[derive(Default)]
        pub struct MinimalClient;

        impl MinimalClient {
            pub async fn get_epoch_info(&self, c: Option<RpcContextConfig>) -> Result<EpochInfo, String> {
                let finalized = c.and_then(|c| c.commitment).map_or(true, |c| c.is_finalized());
                // what is not final yet is some slots ahead
                let absolute_slot = node::ask(|n| n.slot()) + if finalized { 0 } else { 40 };
                Ok(EpochInfo { epoch: 0, slot_index: 7, slots_in_epoch: 432_000, absolute_slot, block_height: 3, transaction_count: None })
            }
        }
    }
}
