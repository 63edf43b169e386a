//! Stand-in for `switchboard-solana` (Switchboard v2), which is not available offline. Only the
//! fields the program reads exist; the layout is this crate's own.
use bytemuck::{Pod, Zeroable};

#[derive(Clone, Copy, Debug, Default, Pod, Zeroable)]
#[repr(C)]
pub struct SwitchboardDecimal {
    /// The mantissa, split to keep the struct 8-aligned.
    pub mantissa: i64,
    pub scale: u32,
    pub padding: u32,
}

#[derive(Debug)]
pub struct SwitchboardError(pub &'static str);

impl std::fmt::Display for SwitchboardError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}

impl TryFrom<SwitchboardDecimal> for f64 {
    type Error = SwitchboardError;
    fn try_from(d: SwitchboardDecimal) -> Result<f64, SwitchboardError> {
        if d.scale > 28 {
            return Err(SwitchboardError("decimal scale out of range"));
        }
        Ok(d.mantissa as f64 / 10f64.powi(d.scale as i32))
    }
}

#[derive(Clone, Copy, Debug, Default, Pod, Zeroable)]
#[repr(C)]
pub struct AggregatorRound {
    pub num_success: u32,
    pub num_error: u32,
    pub round_open_slot: u64,
    pub result: SwitchboardDecimal,
    pub std_deviation: SwitchboardDecimal,
}

#[derive(Clone, Copy, Debug, Default, Pod, Zeroable)]
#[repr(C)]
pub struct AggregatorAccountData {
    pub min_oracle_results: u64,
    pub latest_confirmed_round: AggregatorRound,
}

impl AggregatorAccountData {
    pub fn get_result(&self) -> Result<SwitchboardDecimal, SwitchboardError> {
        if self.min_oracle_results > u64::from(self.latest_confirmed_round.num_success) {
            return Err(SwitchboardError("invalid aggregator round"));
        }
        Ok(self.latest_confirmed_round.result)
    }
}
