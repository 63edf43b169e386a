//! One world of markets, people and accounts; executes abstract actions on the real program
//! and reads back the abstract state.

use crate::abi::{self, mk, oo, W};
use crate::rt::{min_rent, Acct, Done, Fail, Meta, Rt};
use serde_json::{json, Map, Value};
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::{keypair_from_seed, Keypair, Signer};
use solana_program::system_program;

pub const PEOPLE: usize = 10;
pub const FEE_ADMIN: usize = 6;
pub const OO_ADMIN: usize = 7;
pub const CE_ADMIN: usize = 8;
pub const CM_ADMIN: usize = 9;
pub const ORC_ADMIN: usize = 10;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub qls: i64,
    pub bls: i64,
    pub mf: i64,
    pub tf: i64,
    pub exp: i64,
    /// number of oracles: 0, 1 or 2
    pub orc: usize,
    pub staleness: Option<u32>,
    pub oo_admin: bool,
    pub ce_admin: bool,
    pub cm_admin: bool,
    pub base_dec: u8,
    pub quote_dec: u8,
    pub wallet: u64,
    /// what one token unit of the specification stands for, one price or quote lot, and one client id
    pub zn: i64,
    pub zp: i64,
    pub zc: i64,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            qls: 10,
            bls: 100,
            mf: 0,
            tf: 0,
            exp: 0,
            orc: 1,
            staleness: None,
            oo_admin: false,
            ce_admin: false,
            cm_admin: true,
            base_dec: 6,
            quote_dec: 6,
            wallet: 1_000_000,
            zn: 1,
            zp: 1,
            zc: 1,
        }
    }
}

pub const T0: i64 = 1_000_000;
pub const SLOT0: u64 = 1_000;

#[derive(Clone)]
pub struct MarketKeys {
    pub market: Pubkey,
    pub authority: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub heap: Pubkey,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub oracle_a: Option<Pubkey>,
    pub oracle_b: Option<Pubkey>,
    pub cfg: Cfg,
    pub lamports0: u64,
}

#[derive(Clone)]
pub struct World {
    pub rt: Rt,
    pub m: Vec<MarketKeys>,
    /// every open orders account ever created: address, market index, owner
    pub ooas: Vec<(Pubkey, usize, usize)>,
    /// tags to name things uniquely
    pub salt: u8,
    /// what the last instruction announced
    pub lg: Vec<Value>,
    /// the action a client made of the last one
    pub did: Option<Value>,
}

/// Reads the fields of a log; amounts beyond what the specification computes with count as -2.
struct Reader<'a> {
    d: &'a [u8],
    o: usize,
    fine: bool,
    zn: i64,
    zp: i64,
    zc: i64,
}

impl Reader<'_> {
    fn take(&mut self, n: usize) -> Vec<u8> {
        let r = self.d.get(self.o..self.o + n).map(|x| x.to_vec());
        self.o += n;
        self.fine &= r.is_some();
        r.unwrap_or_else(|| vec![0; n])
    }
    fn num(&mut self, n: usize) -> i64 {
        let mut b = self.take(n);
        b.resize(16, 0);
        let v = u128::from_le_bytes(b.try_into().unwrap());
        if v < 1 << 31 { v as i64 } else { -2 }
    }
    fn u8(&mut self) -> i64 {
        self.num(1)
    }
    fn u32(&mut self) -> i64 {
        self.num(4)
    }
    fn u64(&mut self) -> i64 {
        self.num(8)
    }
    fn scaled(&mut self, n: usize, z: i64) -> i64 {
        if z == 1 {
            return self.num(n);
        }
        let mut b = self.take(n);
        b.resize(16, 0);
        units(i128::from_le_bytes(b.try_into().unwrap()), z)
    }
    fn cid(&mut self) -> i64 {
        self.scaled(8, self.zc)
    }
    fn base(&mut self) -> i64 {
        self.scaled(8, self.zn)
    }
    fn quote(&mut self) -> i64 {
        self.scaled(8, self.zn * self.zp)
    }
    fn price(&mut self) -> i64 {
        self.scaled(8, self.zp)
    }
    fn volume(&mut self) -> i64 {
        self.scaled(16, self.zn * self.zp)
    }
    fn key(&mut self) -> Pubkey {
        Pubkey::new_from_array(self.take(32).try_into().unwrap())
    }
    fn opt(&mut self) -> Option<Pubkey> {
        (self.u8() == 1).then(|| self.key())
    }
}

/// What person i signs with.
pub fn keypair(i: usize) -> Keypair {
    let mut b = [7u8; 32];
    b[0] = 101;
    b[1] = i as u8;
    keypair_from_seed(&b).unwrap()
}

pub fn person(i: usize) -> Pubkey {
    static ALL: std::sync::OnceLock<Vec<Pubkey>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| (0..256).map(|i| keypair(i).pubkey()).collect())[i % 256]
}

pub fn key(tag: u8, a: u8, b: u8) -> Pubkey {
    let mut x = [3u8; 32];
    x[0] = tag;
    x[1] = a;
    x[2] = b;
    Pubkey::new_from_array(x)
}

pub fn wallet(p: usize, mint: &Pubkey) -> Pubkey {
    abi::ata(&person(p), mint)
}

/// A named account of an instruction.
#[derive(Clone, Debug)]
pub struct A {
    pub name: &'static str,
    pub key: Pubkey,
    pub s: bool,
    pub w: bool,
}

pub fn a(name: &'static str, key: Pubkey, s: bool, w: bool) -> A {
    A { name, key, s, w }
}

/// An optional account: the program's own id stands for "none".
pub fn opt(name: &'static str, key: Option<Pubkey>, s: bool, w: bool) -> A {
    match key {
        Some(key) => A { name, key, s, w },
        None => A {
            name,
            key: abi::PROGRAM,
            s: false,
            w: false,
        },
    }
}

pub struct Ix {
    pub accs: Vec<A>,
    pub data: Vec<u8>,
}

pub fn gi(v: &Value, k: &str) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or(0)
}

pub fn gl(v: &Value, k: &str) -> Vec<i64> {
    v.get(k)
        .and_then(|x| x.as_array())
        .map(|l| l.iter().map(|x| x.as_i64().unwrap()).collect())
        .unwrap_or_default()
}

/// What answers the questions for quotes.
pub static QUOTES: std::sync::OnceLock<fn(&World, &Value) -> Value> = std::sync::OnceLock::new();

/// A client that carries out actions with instructions of its own, where it can express them; it also
/// gives the action it took.
pub type Client = fn(&mut World, &Value) -> Option<(Result<Done, Fail>, Value)>;
pub static CLIENT: std::sync::OnceLock<Client> = std::sync::OnceLock::new();

/// A reader of logs that stands between the program and what is recorded.
pub static REREAD: std::sync::OnceLock<fn(&[Vec<u8>]) -> Vec<Vec<u8>>> = std::sync::OnceLock::new();

/// Parameters of this size stand for "as large as the type allows" in the model.
pub const BIG: i64 = 2_147_483_647;

pub fn unbig(x: i64) -> i64 {
    match x {
        BIG => i64::MAX,
        x => x,
    }
}

pub fn big(x: i64) -> i64 {
    x.clamp(-BIG, BIG)
}

/// A number nothing in the specification equals.
const ODD: i64 = 1_999_999_999;

/// An amount in units of `z`.
pub fn units(x: i128, z: i64) -> i64 {
    let z = z as i128;
    if x % z == 0 && (x / z).abs() < ODD as i128 { (x / z) as i64 } else { ODD }
}

/// A price in units of `z`; one beyond the range counts as the end of it.
pub fn price_units(x: i64, z: i64) -> i64 {
    if z == 1 || x == i64::MAX {
        big(x)
    } else {
        units(x as i128, z)
    }
}

/// The same, where -1 means none.
pub fn limit_units(x: i64, z: i64) -> i64 {
    if x == -1 { -1 } else { price_units(x, z) }
}

impl World {
    pub fn new() -> Self {
        let mut rt = Rt::new();
        rt.clock.unix_timestamp = T0;
        rt.clock.slot = SLOT0;
        for p in 1..=PEOPLE {
            rt.accts.insert(
                person(p),
                Acct {
                    lamports: 1_000_000_000_000,
                    data: vec![],
                    owner: system_program::ID,
                    exec: false,
                },
            );
        }
        World {
            rt,
            m: vec![],
            ooas: vec![],
            salt: 0,
            lg: vec![],
            did: None,
        }
    }

    pub fn now(&self) -> i64 {
        self.rt.clock.unix_timestamp
    }

    pub fn put_mint(&mut self, k: Pubkey, dec: u8) {
        let m = spl_token::state::Mint {
            mint_authority: None.into(),
            supply: 1 << 60,
            decimals: dec,
            is_initialized: true,
            freeze_authority: None.into(),
        };
        let mut d = vec![0; spl_token::state::Mint::LEN];
        m.pack_into_slice(&mut d);
        self.rt.accts.insert(
            k,
            Acct {
                lamports: min_rent(d.len()),
                data: d,
                owner: spl_token::ID,
                exec: false,
            },
        );
    }

    pub fn put_token(&mut self, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
        let t = spl_token::state::Account {
            mint,
            owner,
            amount,
            delegate: None.into(),
            state: spl_token::state::AccountState::Initialized,
            is_native: None.into(),
            delegated_amount: 0,
            close_authority: None.into(),
        };
        let mut d = vec![0; spl_token::state::Account::LEN];
        t.pack_into_slice(&mut d);
        self.rt.accts.insert(
            k,
            Acct {
                lamports: min_rent(d.len()),
                data: d,
                owner: spl_token::ID,
                exec: false,
            },
        );
    }

    pub fn put_zeroed(&mut self, k: Pubkey, len: usize) {
        self.rt.accts.insert(
            k,
            Acct {
                lamports: min_rent(len),
                data: vec![0; len],
                owner: abi::PROGRAM,
                exec: false,
            },
        );
    }

    pub fn run(&mut self, ix: &Ix) -> Result<Done, Fail> {
        let metas: Vec<Meta> = ix
            .accs
            .iter()
            .map(|a| Meta {
                key: a.key,
                signer: a.s,
                writable: a.w,
            })
            .collect();
        self.rt.exec(&metas, &ix.data)
    }

    pub fn stub_key(&self, mint: &Pubkey) -> Pubkey {
        abi::pda(
            &[b"StubOracle", person(ORC_ADMIN).as_ref(), mint.as_ref()],
            &abi::PROGRAM,
        )
    }

    pub fn create_stub(&mut self, mint: Pubkey, price: f64) -> Result<Pubkey, Fail> {
        let k = self.stub_key(&mint);
        self.run(&Ix {
            accs: vec![
                a("payer", person(ORC_ADMIN), true, true),
                a("owner", person(ORC_ADMIN), true, false),
                a("oracle", k, false, true),
                a("mint", mint, false, false),
                a("sys", system_program::ID, false, false),
            ],
            data: W::ix("stub_oracle_create").f64(price).0,
        })?;
        Ok(k)
    }

    pub fn set_stub(&mut self, k: Pubkey, price: f64) -> Result<Done, Fail> {
        self.run(&Ix {
            accs: vec![
                a("owner", person(ORC_ADMIN), true, false),
                a("oracle", k, false, true),
            ],
            data: W::ix("stub_oracle_set").f64(price).0,
        })
    }

    /// Mints, wallets, oracles and zeroed book accounts for a new market; returns its addresses.
    pub fn prepare_market(&mut self, cfg: &Cfg) -> MarketKeys {
        self.salt += 1;
        let n = self.salt;
        // The address decides the bump of the authority; any will do.
        let market = key(20, n, 0);
        let authority =
            abi::pda(&[b"Market", market.as_ref()], &abi::PROGRAM);
        let (base_mint, quote_mint) = (key(21, n, 0), key(21, n, 1));
        self.put_mint(base_mint, cfg.base_dec);
        self.put_mint(quote_mint, cfg.quote_dec);
        for p in 1..=PEOPLE {
            let w = if p <= 5 { cfg.wallet } else { 0 };
            self.put_token(wallet(p, &base_mint), base_mint, person(p), w * cfg.zn as u64);
            self.put_token(wallet(p, &quote_mint), quote_mint, person(p), w * (cfg.zn * cfg.zp) as u64);
        }
        let (bids, asks, heap) = (key(22, n, 0), key(22, n, 1), key(22, n, 2));
        self.put_zeroed(bids, abi::BOOKSIDE_LEN);
        self.put_zeroed(asks, abi::BOOKSIDE_LEN);
        self.put_zeroed(heap, abi::HEAP_LEN);
        let oracle_a = (cfg.orc >= 1).then(|| self.create_stub(base_mint, 10.0 * cfg.zp as f64).unwrap());
        let oracle_b = (cfg.orc >= 2).then(|| self.create_stub(quote_mint, 1.0).unwrap());
        MarketKeys {
            market,
            authority,
            bids,
            asks,
            heap,
            base_mint,
            quote_mint,
            base_vault: abi::ata(&authority, &base_mint),
            quote_vault: abi::ata(&authority, &quote_mint),
            oracle_a,
            oracle_b,
            cfg: cfg.clone(),
            lamports0: 0,
        }
    }

    pub fn create_market_ix(&self, k: &MarketKeys, name: &str, conf: f32) -> Ix {
        let c = &k.cfg;
        let w = W::ix("create_market").str(name).f32(conf);
        let w = match c.staleness {
            None => w.u8(0),
            Some(s) => w.u8(1).u32(s),
        };
        let event_authority =
            abi::pda(&[b"__event_authority"], &abi::PROGRAM);
        Ix {
            accs: vec![
                a("market", k.market, true, true),
                a("authority", k.authority, false, false),
                a("bids", k.bids, false, true),
                a("asks", k.asks, false, true),
                a("heap", k.heap, false, true),
                a("payer", person(1), true, true),
                a("base_vault", k.base_vault, false, true),
                a("quote_vault", k.quote_vault, false, true),
                a("base_mint", k.base_mint, false, false),
                a("quote_mint", k.quote_mint, false, false),
                a("sys", system_program::ID, false, false),
                a("token", spl_token::ID, false, false),
                a("ata", abi::ata_program(), false, false),
                opt("oracle_a", k.oracle_a, false, false),
                opt("oracle_b", k.oracle_b, false, false),
                a("fee_admin", person(FEE_ADMIN), false, false),
                opt("oo_admin", c.oo_admin.then(|| person(OO_ADMIN)), false, false),
                opt("ce_admin", c.ce_admin.then(|| person(CE_ADMIN)), false, false),
                opt("cm_admin", c.cm_admin.then(|| person(CM_ADMIN)), false, false),
                a("event_authority", event_authority, false, false),
                a("program", abi::PROGRAM, false, false),
            ],
            data: w.i64(c.qls.wrapping_mul(c.zn)).i64(c.bls.wrapping_mul(c.zn)).i64(c.mf).i64(c.tf).i64(c.exp).0,
        }
    }

    pub fn add_market(&mut self, cfg: &Cfg) -> Result<usize, Fail> {
        let mut k = self.prepare_market(cfg);
        let ix = self.create_market_ix(&k, "MKT", 0.1);
        self.run(&ix)?;
        k.lamports0 = self.rt.get(&k.market).lamports;
        self.m.push(k);
        Ok(self.m.len() - 1)
    }

    pub fn indexer(&self, p: usize) -> Pubkey {
        abi::pda(&[b"OpenOrdersIndexer", person(p).as_ref()], &abi::PROGRAM)
    }

    pub fn ooa_key(&self, p: usize, num: u32) -> Pubkey {
        abi::pda(
            &[b"OpenOrders", person(p).as_ref(), &num.to_le_bytes()],
            &abi::PROGRAM,
        )
    }

    pub fn create_indexer(&mut self, p: usize) -> Result<Done, Fail> {
        self.run(&Ix {
            accs: vec![
                a("payer", person(p), true, true),
                a("owner", person(p), true, false),
                a("indexer", self.indexer(p), false, true),
                a("sys", system_program::ID, false, false),
            ],
            data: W::ix("create_open_orders_indexer").0,
        })
    }

    /// The counter in a person's indexer, 0 if there is none.
    pub fn created(&self, p: usize) -> u32 {
        let d = self.rt.get(&self.indexer(p)).data;
        if d.len() < 13 {
            0
        } else {
            abi::r32(&d, 9)
        }
    }

    pub fn create_ooa(&mut self, p: usize, m: usize, delegate: Option<usize>) -> Result<usize, Fail> {
        let k = self.ooa_key(p, self.created(p) + 1);
        self.run(&Ix {
            accs: vec![
                a("payer", person(p), true, true),
                a("owner", person(p), true, false),
                opt("delegate", delegate.map(person), false, false),
                a("indexer", self.indexer(p), false, true),
                a("ooa", k, false, true),
                a("market", self.m[m].market, false, false),
                a("sys", system_program::ID, false, false),
            ],
            data: W::ix("create_open_orders_account").str("x").0,
        })?;
        self.ooas.push((k, m, p));
        Ok(self.ooas.len())
    }

    // ---- actions ---------------------------------------------------------------------------

    /// Address of open orders account number `i` (from 1); an unknown one gets a fresh address.
    pub fn ooa(&self, i: i64) -> Pubkey {
        if i >= 1 && (i as usize) <= self.ooas.len() {
            self.ooas[i as usize - 1].0
        } else {
            key(30, i as u8, 0)
        }
    }

    /// BIG is the largest quote limit the market allows, BIG - 1 one that is too large.
    pub fn quote_arg(&self, mi: usize, x: i64) -> i64 {
        let c = &self.m[mi].cfg;
        match x {
            BIG => i64::MAX / (c.qls * c.zn),
            x if x == BIG - 1 => i64::MAX,
            x => x.saturating_mul(c.zp),
        }
    }

    pub fn price_arg(&self, mi: usize, x: i64) -> i64 {
        match x {
            BIG => i64::MAX,
            x => x.saturating_mul(self.m[mi].cfg.zp),
        }
    }

    pub fn cid_arg(&self, v: &Value, k: &str) -> u64 {
        (gi(v, k) * self.m[gi(v, "m") as usize].cfg.zc) as u64
    }

    /// Translates an abstract action into an instruction of the program.
    pub fn ix(&self, v: &Value) -> Option<Ix> {
        let mi = gi(v, "m") as usize;
        let k = &self.m[mi];
        let op = v["op"].as_str().unwrap();
        let sg = gi(v, "sg") as usize;
        let who = person(sg);
        let ooa = self.ooa(gi(v, "oo"));
        let (base, quote) = (wallet(sg, &k.base_mint), wallet(sg, &k.quote_mint));
        let ad = gi(v, "ad") as usize;
        let admin = (ad != 0).then(|| person(ad));
        let token = a("token", spl_token::ID, false, false);
        let sys = a("sys", system_program::ID, false, false);
        let mut rem: Vec<A> = gl(v, "rem")
            .iter()
            .map(|i| a("rem", self.ooa(*i), false, true))
            .collect();
        let market = a("market", k.market, false, true);
        let bids = a("bids", k.bids, false, true);
        let asks = a("asks", k.asks, false, true);
        let heap = a("heap", k.heap, false, true);
        let base_vault = a("base_vault", k.base_vault, false, true);
        let quote_vault = a("quote_vault", k.quote_vault, false, true);
        let authority = a("authority", k.authority, false, false);
        let oracle_a = opt("oracle_a", k.oracle_a, false, false);
        let oracle_b = opt("oracle_b", k.oracle_b, false, false);

        let order_args = |w: W| -> W {
            let w = w.u8(gi(v, "sd") as u8).i64(self.price_arg(mi, gi(v, "px")));
            let w = if gi(v, "pg") == 1 { w.i64(if gi(v, "plim") == -1 { -1 } else { self.price_arg(mi, gi(v, "plim")) }) } else { w };
            w.i64(unbig(gi(v, "mb")))
                .i64(self.quote_arg(mi, gi(v, "mq")))
                .u64(self.cid_arg(v, "cid"))
                .u8(gi(v, "ty") as u8)
                .u64(gi(v, "exp") as u64)
                .u8(gi(v, "stp") as u8)
                .u8(gi(v, "lim") as u8)
        };
        let place_accs = || {
            let bid = gi(v, "sd") == 0;
            vec![
                a("signer", who, true, false),
                a("ooa", ooa, false, true),
                opt("oo_admin", admin, true, false),
                a("user_token", if bid { quote } else { base }, false, true),
                market.clone(),
                bids.clone(),
                asks.clone(),
                heap.clone(),
                a("vault", if bid { k.quote_vault } else { k.base_vault }, false, true),
                oracle_a.clone(),
                oracle_b.clone(),
                token.clone(),
            ]
        };
        let cancel_accs = || {
            vec![
                a("signer", who, true, false),
                a("ooa", ooa, false, true),
                a("market", k.market, false, false),
                bids.clone(),
                asks.clone(),
            ]
        };
        let deposit_accs = || {
            vec![
                a("owner", who, true, false),
                a("user_base", base, false, true),
                a("user_quote", quote, false, true),
                a("ooa", ooa, false, true),
                market.clone(),
                base_vault.clone(),
                quote_vault.clone(),
                token.clone(),
            ]
        };
        let settle_accs = || {
            let rf = gi(v, "ref") as usize;
            vec![
                a("owner", who, true, op == "settlex"),
                a("penalty_payer", who, true, true),
                a("ooa", ooa, false, true),
                market.clone(),
                authority.clone(),
                base_vault.clone(),
                quote_vault.clone(),
                a("user_base", wallet(gi(v, "db") as usize, &k.base_mint), false, true),
                a("user_quote", wallet(gi(v, "dq") as usize, &k.quote_mint), false, true),
                opt(
                    "referrer",
                    (rf != 0).then(|| wallet(rf, &k.quote_mint)),
                    false,
                    true,
                ),
                token.clone(),
                sys.clone(),
            ]
        };
        let mut out = match op {
            "place" => Ix {
                accs: place_accs(),
                data: order_args(W::ix(if gi(v, "pg") == 1 { "place_order_pegged" } else { "place_order" })).0,
            },
            "edit" => Ix {
                accs: place_accs(),
                data: order_args(
                    W::ix(if gi(v, "pg") == 1 { "edit_order_pegged" } else { "edit_order" })
                        .u64(self.cid_arg(v, "ecid"))
                        .i64(gi(v, "esz")),
                )
                .0,
            },
            "take" => Ix {
                accs: vec![
                    a("signer", who, true, true),
                    a("penalty_payer", who, true, true),
                    market,
                    authority,
                    bids,
                    asks,
                    base_vault,
                    quote_vault,
                    heap,
                    a("user_base", base, false, true),
                    a("user_quote", quote, false, true),
                    oracle_a,
                    oracle_b,
                    token,
                    sys,
                    opt("oo_admin", admin, true, false),
                ],
                data: W::ix("place_take_order")
                    .u8(gi(v, "sd") as u8)
                    .i64(self.price_arg(mi, gi(v, "px")))
                    .i64(unbig(gi(v, "mb")))
                    .i64(self.quote_arg(mi, gi(v, "mq")))
                    .u8(gi(v, "ty") as u8)
                    .u8(gi(v, "lim") as u8)
                    .0,
            },
            "multi" => {
                let mut w = W::ix(if gi(v, "can") == 1 { "cancel_all_and_place_orders" } else { "place_orders" })
                    .u8(gi(v, "ty") as u8);
                for s in ["bids", "asks"] {
                    let l = v[s].as_array().unwrap();
                    w = w.u32(l.len() as u32);
                    for o in l {
                        w = w.i64(self.price_arg(mi, gi(o, "px"))).i64(self.quote_arg(mi, gi(o, "mq"))).u64(gi(o, "exp") as u64);
                    }
                }
                Ix {
                    accs: vec![
                        a("signer", who, true, false),
                        a("ooa", ooa, false, true),
                        opt("oo_admin", admin, true, false),
                        a("user_quote", quote, false, true),
                        a("user_base", base, false, true),
                        market,
                        bids,
                        asks,
                        heap,
                        quote_vault,
                        base_vault,
                        oracle_a,
                        oracle_b,
                        token,
                    ],
                    data: w.u8(gi(v, "lim") as u8).0,
                }
            }
            "cancel" => Ix {
                accs: cancel_accs(),
                data: W::ix("cancel_order")
                    .u128(if gi(v, "seq") < 0 {
                        0
                    } else {
                        abi::make_key(gi(v, "tr") == 1, gi(v, "pd").saturating_mul(k.cfg.zp), gi(v, "seq") as u64, gi(v, "sd") == 0)
                    })
                    .0,
            },
            "ccid" => Ix {
                accs: cancel_accs(),
                data: W::ix("cancel_order_by_client_order_id").u64(self.cid_arg(v, "cid")).0,
            },
            "call" => {
                let w = W::ix("cancel_all_orders");
                let w = match gi(v, "sd") {
                    -1 => w.u8(0),
                    s => w.u8(1).u8(s as u8),
                };
                Ix {
                    accs: cancel_accs(),
                    data: w.u8(gi(v, "lim") as u8).0,
                }
            }
            "prune" => Ix {
                accs: vec![
                    a("cm_admin", admin.unwrap_or(who), true, false),
                    a("ooa", ooa, false, true),
                    a("market", k.market, false, false),
                    bids,
                    asks,
                ],
                data: W::ix("prune_orders").u8(gi(v, "lim") as u8).0,
            },
            "consume" => Ix {
                accs: vec![opt("ce_admin", admin, true, false), market, heap],
                data: W::ix("consume_events").u64(gi(v, "lim") as u64).0,
            },
            "consumeg" => {
                let sl = gl(v, "sl");
                let mut w = W::ix("consume_given_events").u32(sl.len() as u32);
                for s in sl {
                    w = w.u64(s as u64);
                }
                Ix {
                    accs: vec![opt("ce_admin", admin, true, false), market, heap],
                    data: w.0,
                }
            }
            "deposit" | "refill" => Ix {
                accs: deposit_accs(),
                data: W::ix(op).u64((gi(v, "b") * k.cfg.zn) as u64).u64((gi(v, "q") * k.cfg.zn * k.cfg.zp) as u64).0,
            },
            "settle" => Ix {
                accs: settle_accs(),
                data: W::ix("settle_funds").0,
            },
            "settlex" => {
                let mut accs = settle_accs();
                accs.insert(0, a("cm_admin", admin.unwrap_or(who), true, false));
                Ix {
                    accs,
                    data: W::ix("settle_funds_expired").0,
                }
            }
            "sweep" => Ix {
                accs: vec![
                    a("fee_admin", admin.unwrap_or(who), true, false),
                    market,
                    authority,
                    quote_vault,
                    a("receiver", wallet(gi(v, "dq") as usize, &k.quote_mint), false, true),
                    token,
                ],
                data: W::ix("sweep_fees").0,
            },
            "setexp" => Ix {
                accs: vec![a("cm_admin", admin.unwrap_or(who), true, false), market],
                data: W::ix("set_market_expired").0,
            },
            "setdel" => {
                let dl = gi(v, "dl") as usize;
                Ix {
                    accs: vec![
                        a("owner", who, true, true),
                        a("ooa", ooa, false, true),
                        opt("delegate", (dl != 0).then(|| person(dl)), false, false),
                    ],
                    data: W::ix("set_delegate").0,
                }
            }
            "closem" => Ix {
                accs: vec![
                    a("cm_admin", admin.unwrap_or(who), true, false),
                    market,
                    bids,
                    asks,
                    heap,
                    a("dest", person(CM_ADMIN), false, true),
                    token,
                ],
                data: W::ix("close_market").0,
            },
            "closeooa" => Ix {
                accs: vec![
                    a("owner", who, true, false),
                    a("indexer", self.indexer(sg), false, true),
                    a("ooa", ooa, false, true),
                    a("dest", who, false, true),
                    sys,
                ],
                data: W::ix("close_open_orders_account").0,
            },
            _ => return None,
        };
        out.accs.append(&mut rem);
        Some(out)
    }

    /// Executes an action; returns its outcome: success, a return value and the failure reason.
    pub fn act(&mut self, v: &Value) -> (bool, Value, String) {
        let op = v["op"].as_str().unwrap();
        self.lg.clear();
        self.did = None;
        if op == "quote" || op == "view" {
            return (true, QUOTES.get().expect("no quotes here")(self, v), String::new());
        }
        let r = match op {
            "tick" => {
                self.rt.clock.unix_timestamp += gi(v, "dt");
                self.rt.clock.slot += gi(v, "ds") as u64;
                return (true, json!(0), String::new());
            }
            "orc" => {
                let m = &self.m[gi(v, "m") as usize];
                let k = if gi(v, "which") == 1 { m.oracle_a } else { m.oracle_b };
                match k {
                    Some(k) => {
                        let z = if gi(v, "which") == 1 { m.cfg.zp } else { 1 };
                        self.set_stub(k, (gi(v, "p") * z) as f64)
                    }
                    None => return (false, json!(0), "no oracle".into()),
                }
            }
            _ => match CLIENT.get().and_then(|f| f(self, v)) {
                Some((r, did)) => {
                    self.did = Some(did);
                    r
                }
                None => {
                    let ix = self.ix(v).unwrap_or_else(|| panic!("unknown op {op}"));
                    self.run(&ix)
                }
            },
        };
        match r {
            Err(f) => (false, json!(0), format!("{f:?}")),
            Ok(d) => {
                let logs = match REREAD.get() {
                    Some(f) if !d.logs.is_empty() => f(&d.logs),
                    _ => d.logs.clone(),
                };
                self.lg = logs.iter().map(|l| self.log_state(l)).collect();
                let opt_seq = |d: &[u8], bid: bool| -> (i64, usize) {
                    if d.is_empty() || d[0] == 0 {
                        (0, 1)
                    } else {
                        (abi::key_seq(abi::r128(d, 1), bid) as i64, 17)
                    }
                };
                let ret = match op {
                    "place" | "edit" => json!(opt_seq(&d.ret, gi(v, "sd") == 0).0),
                    "ccid" => {
                        if d.ret.len() >= 8 {
                            json!(abi::ri64(&d.ret, 0))
                        } else {
                            json!(0)
                        }
                    }
                    "multi" => {
                        // A list of optional ids; their sides follow from the bids that were not skipped.
                        let now = self.now();
                        let live = |o: &&Value| gi(o, "exp") == 0 || gi(o, "exp") > now;
                        let nb = v["bids"].as_array().unwrap().iter().filter(live).count();
                        let mut out = vec![];
                        if d.ret.len() >= 4 {
                            let n = abi::r32(&d.ret, 0) as usize;
                            let mut o = 4;
                            for i in 0..n {
                                let (s, l) = opt_seq(&d.ret[o.min(d.ret.len())..], i < nb);
                                out.push(s);
                                o += l;
                            }
                        }
                        json!(out)
                    }
                    _ => json!(0),
                };
                (true, ret, String::new())
            }
        }
    }

    // ---- abstract state --------------------------------------------------------------------

    pub fn who(&self, k: &Pubkey) -> i64 {
        (1..=PEOPLE).find(|p| person(*p) == *k).map(|p| p as i64).unwrap_or(0)
    }

    pub fn ooa_no(&self, k: &Pubkey) -> i64 {
        self.ooas
            .iter()
            .position(|o| o.0 == *k)
            .map(|i| i as i64 + 1)
            .unwrap_or(0)
    }

    pub fn leaves(&self, mi: usize, bid: bool) -> Result<Vec<abi::Leaf>, String> {
        let m = &self.m[mi];
        let d = self.rt.get(if bid { &m.bids } else { &m.asks }).data;
        if d.is_empty() {
            return Ok(vec![]);
        }
        abi::leaves(&d, bid)
    }

    fn side_state(&self, mi: usize, bid: bool) -> Result<Value, String> {
        let Cfg { zp, zc, .. } = self.m[mi].cfg;
        Ok(Value::Array(
            self.leaves(mi, bid)?
                .iter()
                .map(|l| {
                    json!({
                        "pg": l.pegged as i64,
                        "pd": price_units(l.price(), zp),
                        "seq": l.seq(bid) as i64,
                        "own": self.ooa_no(&l.owner),
                        "slot": l.slot,
                        "q": l.qty,
                        "ts": l.ts,
                        "tif": l.tif,
                        "cid": units(l.cid as i128, zc),
                        "plim": limit_units(l.peg_limit, zp),
                    })
                })
                .collect(),
        ))
    }

    pub fn heap_events(&self, mi: usize) -> Result<Vec<(usize, abi::Ev)>, String> {
        let d = self.rt.get(&self.m[mi].heap).data;
        if d.is_empty() {
            return Ok(vec![]);
        }
        abi::events(&d)
    }

    /// One log of the program, as a list of numbers that starts with its kind.
    fn log_state(&self, l: &[u8]) -> Value {
        let Cfg { zn, zp, zc, .. } = self.m[0].cfg;
        let mut d = Reader { d: l, o: 8, fine: l.len() >= 8, zn, zp, zc };
        let market = |k: Pubkey| self.m.iter().position(|m| m.market == k).map_or(-1, |i| i as i64);
        let acct = |k: Pubkey| {
            let t = self.ooa_no(&k);
            if t > 0 { t } else { 100 + self.who(&k) }
        };
        let paid = |k: Option<Pubkey>| {
            k.map_or(0, |k| {
                let own = |m: &MarketKeys, p: usize| wallet(p, &m.quote_mint) == k || wallet(p, &m.base_mint) == k;
                (1..=PEOPLE).find(|p| self.m.iter().any(|m| own(m, *p))).map_or(-1, |p| p as i64)
            })
        };
        let is = |n: &str| l.len() >= 8 && l[..8] == abi::disc("event", n);
        let v = if is("TakerSignatureLog") {
            vec![1, market(d.key()), d.u64()]
        } else if is("FillLog") {
            vec![2, market(d.key()), d.u8(), d.u8(), d.u8(), d.u64(), d.u64(), acct(d.key()), d.cid(), d.quote(), d.u64(),
                acct(d.key()), d.cid(), d.quote(), d.price(), d.u64()]
        } else if is("OpenOrdersPositionLog") {
            vec![3, self.who(&d.key()), d.u32(), market(d.key()), d.u64(), d.price(), d.u64(), d.base(), d.quote(), d.quote(), d.quote(),
                d.volume(), d.volume()]
        } else if is("TotalOrderFillEvent") {
            let bid = d.u8();
            let who = acct(d.key());
            let (paid, got) = if bid == 0 { (d.quote(), d.base()) } else { (d.base(), d.quote()) };
            vec![4, bid, who, paid, got, d.quote()]
        } else if is("DepositLog") {
            vec![5, acct(d.key()), self.who(&d.key()), d.base(), d.quote()]
        } else if is("SettleFundsLog") {
            vec![6, acct(d.key()), d.base(), d.quote(), d.quote(), paid(d.opt())]
        } else if is("SweepFeesLog") {
            vec![7, market(d.key()), d.quote(), paid(Some(d.key()))]
        } else if is("SetDelegateLog") {
            vec![8, acct(d.key()), d.opt().map_or(0, |k| self.who(&k))]
        } else {
            vec![0]
        };
        json!(if d.fine && d.o == l.len() { v } else { vec![0] })
    }

    fn heap_state(&self, mi: usize) -> Result<Value, String> {
        let Cfg { zp, zc, .. } = self.m[mi].cfg;
        let mut out = vec![];
        for (sl, e) in self.heap_events(mi)? {
            out.push(match e {
                abi::Ev::Fill {
                    taker_side,
                    out,
                    slot,
                    ts,
                    seq,
                    maker,
                    mts,
                    taker,
                    tcid,
                    px,
                    plim,
                    qty,
                    mcid,
                } => {
                    let t = self.ooa_no(&taker);
                    json!({"sl": sl, "ty": 0, "sd": taker_side, "out": out, "slot": slot, "ts": ts,
                        "seq": seq, "own": self.ooa_no(&maker), "mts": mts,
                        "tk": if t > 0 { t } else { 100 + self.who(&taker) },
                        "tcid": units(tcid as i128, zc), "px": price_units(px, zp), "plim": limit_units(plim, zp), "q": qty,
                        "mcid": units(mcid as i128, zc)})
                }
                abi::Ev::Out {
                    side,
                    slot,
                    ts,
                    owner,
                    qty,
                } => json!({"sl": sl, "ty": 1, "sd": side, "out": 1, "slot": slot, "ts": ts,
                        "seq": 0, "own": self.ooa_no(&owner), "mts": 0, "tk": 0, "tcid": 0,
                        "px": 0, "plim": 0, "q": qty, "mcid": 0}),
                abi::Ev::Other(t) => return Err(format!("event type {t}")),
            });
        }
        Ok(Value::Array(out))
    }

    fn ooa_state(&self, i: usize) -> Value {
        let (k, m, owner) = self.ooas[i];
        let Cfg { zn, zp, zc, .. } = self.m[m].cfg;
        let native = |x: u128, z: i64| if z == 1 { x as u64 } else { units(x as i128, z) as u64 };
        let acct = self.rt.get(&k);
        let d = &acct.data;
        if acct.owner != abi::PROGRAM || d.len() != abi::OOA_LEN {
            return json!({"ex": 0, "m": m, "ow": owner, "dl": 0, "num": 0, "bb": 0, "ab": 0, "bf": 0, "qf": 0,
                "lf": 0, "rr": 0, "pen": 0, "mv": 0, "tv": 0, "bq": 0, "oo": []});
        }
        let p = oo::POS;
        let mut orders = vec![];
        for s in 0..24 {
            let o = oo::ORDERS + s * 40;
            if abi::r8(d, o + 32) != 0 {
                continue;
            }
            let st = abi::r8(d, o + 33);
            let (sd, tr) = match st {
                0 => (0, 0),
                1 => (1, 0),
                2 => (0, 1),
                3 => (1, 1),
                _ => (9, 9),
            };
            let id = abi::r128(d, o);
            orders.push(json!({"s": s, "pd": price_units(abi::key_price(id, tr == 1), zp),
                "seq": abi::key_seq(id, sd == 0) as i64, "sd": sd, "tr": tr,
                "cid": native(abi::r64(d, o + 16) as u128, zc), "lp": price_units(abi::ri64(d, o + 24), zp)}));
        }
        json!({"ex": 1, "m": m, "ow": self.who(&abi::rk(d, oo::OWNER)), "dl": self.who(&abi::rk(d, oo::DELEGATE)),
            "num": abi::r32(d, oo::NUM),
            "bb": abi::ri64(d, p), "ab": abi::ri64(d, p + 8), "bf": native(abi::r64(d, p + 16) as u128, zn),
            "qf": native(abi::r64(d, p + 24) as u128, zn * zp), "lf": native(abi::r64(d, p + 32) as u128, zn * zp),
            "rr": native(abi::r64(d, p + 40) as u128, zn * zp),
            "pen": abi::r64(d, p + 48), "mv": native(abi::r128(d, p + 56), zn * zp),
            "tv": native(abi::r128(d, p + 72), zn * zp),
            "bq": if zp == 1 { abi::ri64(d, p + 88) } else { units(abi::ri64(d, p + 88) as i128, zp) },
            "oo": orders})
    }

    pub fn token(&self, k: &Pubkey) -> u64 {
        let d = self.rt.get(k).data;
        if d.len() < 72 {
            0
        } else {
            abi::token_amount(&d)
        }
    }

    /// How many nodes of a book side were ever in use.
    fn hw(&self, k: &Pubkey) -> u32 {
        let d = self.rt.get(k).data;
        if d.is_empty() {
            0
        } else {
            abi::r32(&d, 316)
        }
    }

    fn stub_state(&self, k: &Option<Pubkey>, z: i64) -> (i64, i64) {
        // disc, owner 32, mint 32, price f64, last_update_ts i64, last_update_slot u64
        match k {
            None => (0, 0),
            Some(k) => {
                let d = self.rt.get(k).data;
                (
                    f64::from_bits(abi::r64(&d, 72)) as i64 / z,
                    abi::r64(&d, 88) as i64,
                )
            }
        }
    }

    /// The abstract state of market `mi`, or what is wrong with its accounts.
    pub fn state(&self, mi: usize) -> Result<Value, String> {
        let k = &self.m[mi];
        let acct = self.rt.get(&k.market);
        let d = &acct.data;
        let mut m = Map::new();
        let open = acct.owner == abi::PROGRAM && d.len() == abi::MARKET_LEN;
        macro_rules! f {
            ($n:expr, $v:expr) => {
                m.insert($n.into(), json!(if open { $v as i64 } else { 0 }));
            };
        }
        let z = vec![0u8; abi::MARKET_LEN];
        let d: &[u8] = if open { d } else { &z };
        f!("open", 1);
        let (zb, zq) = (k.cfg.zn, k.cfg.zn * k.cfg.zp);
        let native = |x: u128, z: i64| if z == 1 { x as i64 } else { units(x as i128, z) };
        f!("qls", abi::ri64(d, mk::QLS) / zb);
        f!("bls", abi::ri64(d, mk::BLS) / zb);
        f!("mf", abi::ri64(d, mk::MAKER_FEE));
        f!("tf", abi::ri64(d, mk::TAKER_FEE));
        f!("exp", abi::ri64(d, mk::EXPIRY));
        f!("seq", abi::r64(d, mk::SEQ));
        f!("facc", native(abi::r128(d, mk::FEES_ACCRUED) as u128, zq));
        f!("fref", native(abi::r128(d, mk::FEES_TO_REF) as u128, zq));
        f!("rracc", native(abi::r64(d, mk::REF_ACCRUED) as u128, zq));
        f!("favail", native(abi::r64(d, mk::FEES_AVAIL) as u128, zq));
        f!("mvol", native(abi::r128(d, mk::MAKER_VOL) as u128, zq));
        f!("tvol", native(abi::r128(d, mk::TAKER_VOL) as u128, zq));
        f!("bdt", native(abi::r64(d, mk::BASE_TOTAL) as u128, zb));
        f!("qdt", native(abi::r64(d, mk::QUOTE_TOTAL) as u128, zq));
        f!("feeadm", self.who(&abi::rk(d, mk::FEE_ADMIN)));
        f!("ooadm", self.who(&abi::rk(d, mk::OO_ADMIN)));
        f!("ceadm", self.who(&abi::rk(d, mk::CE_ADMIN)));
        f!("cmadm", self.who(&abi::rk(d, mk::CM_ADMIN)));
        f!("stale", abi::ri64(d, mk::ORACLE_CFG + 8));
        f!("ml", acct.lamports as i64 - k.lamports0 as i64);
        let (pa, sa) = self.stub_state(&k.oracle_a, k.cfg.zp);
        let (pb, sb) = self.stub_state(&k.oracle_b, 1);
        let wb: Vec<i64> = (1..=PEOPLE).map(|p| native(self.token(&wallet(p, &k.base_mint)) as u128, zb)).collect();
        let wq: Vec<i64> = (1..=PEOPLE).map(|p| native(self.token(&wallet(p, &k.quote_mint)) as u128, zq)).collect();
        Ok(json!({
            "t": self.rt.clock.unix_timestamp,
            "sl": self.rt.clock.slot,
            "orc": {"n": k.cfg.orc, "pa": pa, "sa": sa, "pb": pb, "sb": sb},
            "m": m,
            "bids": self.side_state(mi, true)?,
            "asks": self.side_state(mi, false)?,
            "heap": self.heap_state(mi)?,
            "oos": (0..self.ooas.len()).map(|i| self.ooa_state(i)).collect::<Vec<_>>(),
            "hwb": self.hw(&k.bids), "hwa": self.hw(&k.asks),
            "vb": native(self.token(&k.base_vault) as u128, zb),
            "vq": native(self.token(&k.quote_vault) as u128, zq),
            "wb": wb,
            "wq": wq,
            "lg": [],
        }))
    }
}
