//! Stand-in for `pyth-sdk-solana`, which is not available offline. Only what the program reads
//! exists; the layout after the magic number is this crate's own.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Price {
    pub price: i64,
    pub conf: u64,
    pub expo: i32,
    pub publish_time: i64,
}

pub mod state {
    use bytemuck::{Pod, Zeroable};

    pub const MAGIC: u32 = 0xa1b2c3d4;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    #[repr(u8)]
    pub enum PriceStatus {
        #[default]
        Unknown,
        Trading,
        Halted,
        Auction,
        Ignored,
    }

    #[derive(Clone, Copy, Debug, Default)]
    pub struct PriceInfo {
        pub price: i64,
        pub conf: u64,
        pub status: PriceStatus,
        pub pub_slot: u64,
    }

    #[derive(Clone, Copy, Debug, Default)]
    pub struct SolanaPriceAccount {
        pub expo: i32,
        pub timestamp: i64,
        pub prev_slot: u64,
        pub prev_price: i64,
        pub prev_conf: u64,
        pub prev_timestamp: i64,
        pub agg: PriceInfo,
    }

    #[derive(Debug)]
    pub struct PythError;

    #[derive(Clone, Copy, Debug, Default, Pod, Zeroable)]
    #[repr(C)]
    struct Raw {
        magic: u32,
        expo: i32,
        prev_slot: u64,
        prev_price: i64,
        prev_conf: u64,
        price: i64,
        conf: u64,
        pub_slot: u64,
        status: u64,
    }

    impl SolanaPriceAccount {
        pub fn encode(&self) -> Vec<u8> {
            let raw = Raw {
                magic: MAGIC,
                expo: self.expo,
                prev_slot: self.prev_slot,
                prev_price: self.prev_price,
                prev_conf: self.prev_conf,
                price: self.agg.price,
                conf: self.agg.conf,
                pub_slot: self.agg.pub_slot,
                status: self.agg.status as u64,
            };
            bytemuck::bytes_of(&raw).to_vec()
        }
    }

    /// The real one casts in place; the caller only ever reads through the reference.
    pub fn load_price_account(data: &[u8]) -> Result<&SolanaPriceAccount, PythError> {
        let n = std::mem::size_of::<Raw>();
        if data.len() < n {
            return Err(PythError);
        }
        let raw: Raw = bytemuck::pod_read_unaligned(&data[..n]);
        if raw.magic != MAGIC {
            return Err(PythError);
        }
        Ok(Box::leak(Box::new(SolanaPriceAccount {
            expo: raw.expo,
            timestamp: 0,
            prev_slot: raw.prev_slot,
            prev_price: raw.prev_price,
            prev_conf: raw.prev_conf,
            prev_timestamp: 0,
            agg: PriceInfo {
                price: raw.price,
                conf: raw.conf,
                pub_slot: raw.pub_slot,
                status: match raw.status {
                    1 => PriceStatus::Trading,
                    2 => PriceStatus::Halted,
                    3 => PriceStatus::Auction,
                    4 => PriceStatus::Ignored,
                    _ => PriceStatus::Unknown,
                },
            },
        })))
    }
}
