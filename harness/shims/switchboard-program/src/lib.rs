//! Stand-in for `switchboard-program` (Switchboard v1), which is not available offline.
//! The byte layout is this crate's own (the harness writes what it reads): the three f64 fields and
//! the slot the program uses, little-endian, after a one-byte tag.
#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResult {
    pub num_success: i32,
    pub num_error: i32,
    pub result: f64,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub min_response: f64,
    pub max_response: f64,
    pub decimals: [u8; 20],
}

#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResultAccountData {
    pub parent: [u8; 32],
    pub result: FastRoundResult,
}

#[derive(Debug)]
pub struct SwitchboardError;

impl FastRoundResultAccountData {
    pub const TAG: u8 = 9;
    pub const LEN: usize = 1 + 4 * 8;

    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![Self::TAG];
        v.extend_from_slice(&self.result.result.to_le_bytes());
        v.extend_from_slice(&self.result.min_response.to_le_bytes());
        v.extend_from_slice(&self.result.max_response.to_le_bytes());
        v.extend_from_slice(&self.result.round_open_slot.to_le_bytes());
        v
    }

    pub fn deserialize(data: &[u8]) -> Result<Self, SwitchboardError> {
        if data.len() < Self::LEN || data[0] != Self::TAG {
            return Err(SwitchboardError);
        }
        let at = |i: usize| -> [u8; 8] { data[1 + 8 * i..9 + 8 * i].try_into().unwrap() };
        let mut res = Self::default();
        res.result.result = f64::from_le_bytes(at(0));
        res.result.min_response = f64::from_le_bytes(at(1));
        res.result.max_response = f64::from_le_bytes(at(2));
        res.result.round_open_slot = u64::from_le_bytes(at(3));
        Ok(res)
    }
}
