//! Byte-level interface of the program: instruction encodings and account layouts.
//!
//! Nothing here uses the program's own Rust types; offsets follow the published account layout.

use solana_program::hash::hash;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::HashMap;

pub const PROGRAM: Pubkey = solana_program::pubkey!("opnb2LAfJYbRMAHHvqjCwQxanZn7ReEHp1k81EohpZb");

pub fn ata_program() -> Pubkey {
    solana_program::pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL")
}

pub fn ata(wallet: &Pubkey, mint: &Pubkey) -> Pubkey {
    pda(&[wallet.as_ref(), spl_token::ID.as_ref(), mint.as_ref()], &ata_program())
}

thread_local! {
    static PDAS: RefCell<HashMap<(Vec<u8>, Pubkey), Pubkey>> = Default::default();
}

/// Program derived address, remembered.
pub fn pda(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    let k = (seeds.concat(), *program);
    PDAS.with(|p| {
        *p.borrow_mut()
            .entry(k)
            .or_insert_with(|| Pubkey::find_program_address(seeds, program).0)
    })
}

pub fn disc(space: &str, name: &str) -> [u8; 8] {
    hash(format!("{space}:{name}").as_bytes()).to_bytes()[..8]
        .try_into()
        .unwrap()
}

/// Little-endian borsh writer.
#[derive(Default)]
pub struct W(pub Vec<u8>);

impl W {
    pub fn ix(name: &str) -> W {
        W(disc("global", name).to_vec())
    }
    pub fn u8(mut self, v: u8) -> W {
        self.0.push(v);
        self
    }
    pub fn u32(mut self, v: u32) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn i64(mut self, v: i64) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u128(mut self, v: u128) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn f64(mut self, v: f64) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn f32(mut self, v: f32) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn str(self, s: &str) -> W {
        let mut w = self.u32(s.len() as u32);
        w.0.extend(s.as_bytes());
        w
    }
}

pub fn r8(d: &[u8], o: usize) -> u8 {
    d[o]
}
pub fn r16(d: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(d[o..o + 2].try_into().unwrap())
}
pub fn r32(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
pub fn r64(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn ri64(d: &[u8], o: usize) -> i64 {
    r64(d, o) as i64
}
pub fn r128(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}
pub fn rk(d: &[u8], o: usize) -> Pubkey {
    Pubkey::try_from(&d[o..o + 32]).unwrap()
}

// ---- market -------------------------------------------------------------------------------

pub mod mk {
    //! Offsets in the market account (discriminator included).
    pub const BUMP: usize = 8;
    pub const BASE_DEC: usize = 9;
    pub const QUOTE_DEC: usize = 10;
    pub const AUTHORITY: usize = 16;
    pub const EXPIRY: usize = 48;
    pub const FEE_ADMIN: usize = 56;
    pub const OO_ADMIN: usize = 88;
    pub const CE_ADMIN: usize = 120;
    pub const CM_ADMIN: usize = 152;
    pub const NAME: usize = 184;
    pub const BIDS: usize = 200;
    pub const ASKS: usize = 232;
    pub const HEAP: usize = 264;
    pub const ORACLE_A: usize = 296;
    pub const ORACLE_B: usize = 328;
    pub const ORACLE_CFG: usize = 360; // conf_filter f64, max_staleness i64, reserved [u8; 72]
    pub const QLS: usize = ORACLE_CFG + 88;
    pub const BLS: usize = QLS + 8;
    pub const SEQ: usize = BLS + 8;
    pub const REG_TIME: usize = SEQ + 8;
    pub const MAKER_FEE: usize = REG_TIME + 8;
    pub const TAKER_FEE: usize = MAKER_FEE + 8;
    pub const FEES_ACCRUED: usize = TAKER_FEE + 8;
    pub const FEES_TO_REF: usize = FEES_ACCRUED + 16;
    pub const REF_ACCRUED: usize = FEES_TO_REF + 16;
    pub const FEES_AVAIL: usize = REF_ACCRUED + 8;
    pub const MAKER_VOL: usize = FEES_AVAIL + 8;
    pub const TAKER_VOL: usize = MAKER_VOL + 16;
    pub const BASE_MINT: usize = TAKER_VOL + 16;
    pub const QUOTE_MINT: usize = BASE_MINT + 32;
    pub const BASE_VAULT: usize = QUOTE_MINT + 32;
    pub const BASE_TOTAL: usize = BASE_VAULT + 32;
    pub const QUOTE_VAULT: usize = BASE_TOTAL + 8;
    pub const QUOTE_TOTAL: usize = QUOTE_VAULT + 32;
    pub const END: usize = QUOTE_TOTAL + 8 + 128;
}

pub const MARKET_LEN: usize = 848;
pub const BOOKSIDE_LEN: usize = 8 + 90944;
pub const HEAP_LEN: usize = 8 + 91280;
pub const OOA_LEN: usize = 8 + 1256;

// ---- book side ----------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct Leaf {
    pub pegged: bool,
    pub slot: u8,
    pub tif: u16,
    pub key: u128,
    pub owner: Pubkey,
    pub qty: i64,
    pub ts: u64,
    pub peg_limit: i64,
    pub cid: u64,
}

impl Leaf {
    pub fn price(&self) -> i64 {
        key_price(self.key, self.pegged)
    }
    pub fn seq(&self, bid: bool) -> u64 {
        key_seq(self.key, bid)
    }
}

pub fn key_price(key: u128, pegged: bool) -> i64 {
    let p = (key >> 64) as u64;
    if pegged {
        p.wrapping_sub(1 << 63) as i64
    } else {
        p as i64
    }
}

pub fn make_key(pegged: bool, pd: i64, seq: u64, bid: bool) -> u128 {
    let p = if pegged { (pd as u64).wrapping_add(1 << 63) } else { pd as u64 };
    (p as u128) << 64 | (if bid { !seq } else { seq }) as u128
}

pub fn key_seq(key: u128, bid: bool) -> u64 {
    let s = key as u64;
    if bid {
        !s
    } else {
        s
    }
}

const NODES: usize = 8 + 48 + 256 + 528;
const NODE: usize = 88;

/// All leaves of one book side account: the fixed tree from best to worst, then the pegged one.
/// Walks the raw nodes and fails if the walk does not fit the leaf counts or does not end.
pub fn leaves(d: &[u8], bid: bool) -> Result<Vec<Leaf>, String> {
    let mut out = vec![];
    for tree in 0..2 {
        let root = r32(d, 8 + 8 * tree);
        let count = r32(d, 12 + 8 * tree) as usize;
        let from = out.len();
        if count > 0 {
            let mut stack = vec![root];
            let mut steps = 0;
            while let Some(h) = stack.pop() {
                steps += 1;
                if h as usize >= 1024 || steps > 3000 {
                    return Err(format!("bad node {h}"));
                }
                let o = NODES + h as usize * NODE;
                match r8(d, o) {
                    1 => {
                        let (l, r) = (r32(d, o + 24), r32(d, o + 28));
                        // the better child is visited first
                        if bid {
                            stack.push(l);
                            stack.push(r);
                        } else {
                            stack.push(r);
                            stack.push(l);
                        }
                    }
                    2 => out.push(Leaf {
                        pegged: tree == 1,
                        slot: r8(d, o + 1),
                        tif: r16(d, o + 2),
                        key: r128(d, o + 8),
                        owner: rk(d, o + 24),
                        qty: ri64(d, o + 56),
                        ts: r64(d, o + 64),
                        peg_limit: ri64(d, o + 72),
                        cid: r64(d, o + 80),
                    }),
                    t => return Err(format!("bad tag {t}")),
                }
            }
        }
        if out.len() - from != count {
            return Err(format!("{} leaves, count {}", out.len() - from, count));
        }
    }
    Ok(out)
}

// ---- event heap ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Fill {
        taker_side: u8,
        out: u8,
        slot: u8,
        ts: u64,
        seq: u64,
        maker: Pubkey,
        mts: u64,
        taker: Pubkey,
        tcid: u64,
        px: i64,
        plim: i64,
        qty: i64,
        mcid: u64,
    },
    Out {
        side: u8,
        slot: u8,
        ts: u64,
        owner: Pubkey,
        qty: i64,
    },
    Other(u8),
}

pub fn event(d: &[u8]) -> Ev {
    match d[0] {
        0 => Ev::Fill {
            taker_side: d[1],
            out: d[2],
            slot: d[3],
            ts: r64(d, 8),
            seq: r64(d, 16),
            maker: rk(d, 24),
            mts: r64(d, 56),
            taker: rk(d, 64),
            tcid: r64(d, 96),
            px: ri64(d, 104),
            plim: ri64(d, 112),
            qty: ri64(d, 120),
            mcid: r64(d, 128),
        },
        1 => Ev::Out {
            side: d[1],
            slot: d[2],
            ts: r64(d, 8),
            owner: rk(d, 24),
            qty: ri64(d, 56),
        },
        t => Ev::Other(t),
    }
}

/// Events in queue order with their positions.
pub fn events(d: &[u8]) -> Result<Vec<(usize, Ev)>, String> {
    let used = r16(d, 10) as usize;
    let count = r16(d, 12) as usize;
    let mut out = vec![];
    let mut at = used;
    for _ in 0..count {
        if at >= 600 {
            return Err(format!("bad heap slot {at}"));
        }
        let o = 24 + at * 152;
        out.push((at, event(&d[o + 8..o + 152])));
        at = r16(d, o) as usize;
    }
    if count > 0 && at != used {
        return Err("heap list does not close".into());
    }
    Ok(out)
}

// ---- open orders account -------------------------------------------------------------------

pub mod oo {
    pub const OWNER: usize = 8;
    pub const MARKET: usize = 40;
    pub const DELEGATE: usize = 104;
    pub const NUM: usize = 136;
    pub const VERSION: usize = 141;
    pub const POS: usize = 144;
    pub const ORDERS: usize = 144 + 160;
}

pub fn token_amount(d: &[u8]) -> u64 {
    r64(d, 64)
}
