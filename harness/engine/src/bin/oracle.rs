//! The oracle price of a market, read from accounts of every supported kind.
#![allow(dead_code)]
#[path = "../parts.rs"]
mod parts;
#[path = "../rng.rs"]
mod rng;
#[path = "../watch.rs"]
mod watch;

use anchor_lang::prelude::Pubkey;
use anchor_lang::Discriminator;
use openbook_v2::accounts_zerocopy::KeyedAccount;
use openbook_v2::state::{oracle_state_unchecked, Market, OracleConfig, OracleType, StubOracle};
use parts::{attempt, zeroed, Part};
use serde_json::{json, Value};
use solana_sdk::account::Account;

#[derive(Clone)]
struct Oracle;

fn account(x: &Value, key: Pubkey) -> Option<KeyedAccount> {
    let g = |k: &str| x[k].as_i64().unwrap_or(0);
    let ten = |e: i64| 10f64.powi(e as i32);
    let value = |p: i64| if g("e") < 0 { p as f64 / ten(-g("e")) } else { p as f64 * ten(g("e")) };
    let (owner, data) = match g("k") {
        0 => {
            let mut s: Box<StubOracle> = zeroed();
            s.price = value(g("p"));
            s.deviation = value(g("d"));
            s.last_update_slot = g("sl") as u64;
            let mut d = StubOracle::discriminator().to_vec();
            d.extend_from_slice(bytemuck::bytes_of(&*s));
            (openbook_v2::ID, d)
        }
        1 => {
            use pyth_sdk_solana::state::*;
            let a = SolanaPriceAccount {
                expo: g("e") as i32,
                timestamp: 0,
                prev_slot: g("psl") as u64,
                prev_price: g("pp"),
                prev_conf: g("pd") as u64,
                prev_timestamp: 0,
                agg: PriceInfo {
                    price: g("p"),
                    conf: g("d") as u64,
                    status: if g("tr") == 1 { PriceStatus::Trading } else { PriceStatus::Halted },
                    pub_slot: g("sl") as u64,
                },
            };
            (Pubkey::default(), a.encode())
        }
        2 => {
            use switchboard_solana::*;
            let dec = |m: i64| {
                let more = 10i64.pow(g("e").max(0) as u32);
                SwitchboardDecimal { mantissa: (m * more).into(), scale: (-g("e")).max(0) as u32, ..Default::default() }
            };
            let a = AggregatorAccountData {
                min_oracle_results: 3,
                latest_confirmed_round: AggregatorRound {
                    num_success: if g("tr") == 1 { 3 } else { 2 },
                    num_error: 0,
                    round_open_slot: g("sl") as u64,
                    result: dec(g("p")),
                    std_deviation: dec(g("d")),
                },
            };
            let mut d = vec![217, 230, 65, 101, 201, 162, 27, 125];
            d.extend_from_slice(bytemuck::bytes_of(&a));
            (Pubkey::default(), d)
        }
        3 => {
            use switchboard_program::*;
            let mut a = FastRoundResultAccountData::default();
            a.result.result = value(g("p"));
            a.result.min_response = value(g("p")) - value(g("d")) / 2.0;
            a.result.max_response = value(g("p")) + value(g("d")) / 2.0;
            a.result.round_open_slot = g("sl") as u64;
            (openbook_v2::state::switchboard_v2_mainnet_oracle::ID, a.encode())
        }
        4 => {
            // the pool's published layout: decimals at 225, the root of the price (64 bits below the point) at 245
            let mut d = vec![0; 1544];
            d[8 + 225] = (6 + g("e")) as u8;
            d[8 + 226] = 6;
            d[8 + 245..8 + 261].copy_from_slice(&((g("p") as u128) << 63).to_le_bytes());
            d[..8].copy_from_slice(&[1; 8]);
            ("CAMMCzo5YL8w4VFF8KVHrK22GGUsp5VTaW7grrKgrWqK".parse().unwrap(), d)
        }
        5 => (Pubkey::default(), vec![5; 300]),
        _ => return None,
    };
    Some(KeyedAccount { key, account: Account { lamports: 1, data, owner, executable: false, rent_epoch: 0 } })
}

impl Part for Oracle {
    fn init(_: &Value) -> Self {
        Oracle
    }

    fn act(&mut self, a: &Value) -> Value {
        if a["op"] == "look" {
            return json!({"ok": true, "ret": 0});
        }
        let g = |k: &str| a[k].as_i64().unwrap();
        let (ka, kb) = (Pubkey::new_from_array([1; 32]), Pubkey::new_from_array([2; 32]));
        let (x, y) = (account(&a["a"], ka), account(&a["b"], kb));
        let mut m: Box<Market> = zeroed();
        m.oracle_a = x.as_ref().map(|_| if g("odd") == 1 { kb } else { ka }).into();
        m.oracle_b = y.as_ref().map(|_| if g("odd") == 2 { ka } else { kb }).into();
        m.oracle_config =
            OracleConfig { conf_filter: g("fn") as f64 / g("fd") as f64, max_staleness_slots: g("stale"), reserved: [0; 72] };
        m.base_decimals = g("bd") as u8;
        m.quote_decimals = g("qd") as u8;
        m.base_lot_size = g("bls");
        m.quote_lot_size = g("qls");
        let r = attempt(|| m.oracle_price_lots(x.as_ref(), y.as_ref(), g("now") as u64).ok()).flatten();
        let ret = match r {
            None => -2,
            Some(None) => -1,
            Some(Some(p)) if p < 0 => -9,
            Some(Some(p)) => p,
        };
        let kind = x
            .as_ref()
            .and_then(|x| attempt(|| oracle_state_unchecked(x).ok()).flatten())
            .map_or(-1, |s| match s.oracle_type {
                OracleType::Stub => 0,
                OracleType::Pyth => 1,
                OracleType::SwitchboardV2 => 2,
                OracleType::SwitchboardV1 => 3,
                OracleType::RaydiumCLMM => 4,
            });
        json!({"ok": r.is_some(), "ret": ret, "kind": kind})
    }

    fn random(&mut self, r: &mut rng::Rng) -> Value {
        let two = r.pct(50);
        let k = r.r(0, 4);
        let calm = r.pct(40);
        let src = |r: &mut rng::Rng| {
            let small = two && !calm;
            let p = if k == 4 || small { r.r(1, 16) } else { r.r(0, 900) };
            let d = if calm || k == 4 { 0 } else if small { r.r(0, 4) } else { r.r(0, p / 3 + 1) };
            json!({"k": k, "p": p, "e": -r.r(0, 2), "d": d, "sl": r.r(0, 40), "tr": r.pct(70) as i64,
                   "pp": r.r(1, 16), "pd": if calm { 0 } else { r.r(0, 3) }, "psl": r.r(1, 40)})
        };
        let x = src(r);
        let y = if two { src(r) } else { json!({"k": -1}) };
        let qd = r.r(4, 7);
        json!({"op": "price", "odd": 0, "a": x, "b": y, "fn": r.r(0, 9), "fd": 16, "stale": r.of(&[-1, 0, 1, 5, 10, 20]),
               "now": r.r(1, 45), "bd": qd + r.r(-1, 1), "qd": qd, "bls": r.of(&[1, 10, 100, 7]), "qls": r.of(&[1, 10, 3])})
    }
}

fn main() {
    parts::main::<Oracle>();
}
