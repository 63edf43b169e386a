//! Creating markets with all sorts of parameters and accounts.
use crate::abi::{self, mk};
use crate::parts::Part;
use crate::rt::{min_rent, Acct, Done, Fail};
use crate::world::*;
use crate::{rng, rt, tsc};
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use std::sync::OnceLock;

/// The Rust client; it has a market of its own.
pub static RUST: OnceLock<fn(&mut World, &mut MarketKeys, &Value, &str) -> Result<Done, Fail>> = OnceLock::new();

#[derive(Clone)]
pub struct Create {
    w: World,
}

/// Something that passes for an oracle of the given kind, or does not.
fn oracle(w: &mut World, kind: i64, mint: Pubkey) -> Option<Pubkey> {
    let put = |w: &mut World, k: Pubkey, owner: Pubkey, data: Vec<u8>| {
        w.rt.accts.insert(k, Acct { lamports: min_rent(data.len()), data, owner, exec: false });
        Some(k)
    };
    let k = key(40, kind as u8, 0);
    let start = |head: &[u8]| {
        let mut d = vec![0; 400];
        d[..head.len()].copy_from_slice(head);
        d
    };
    match kind {
        0 => None,
        1 | 2 => Some(w.create_stub(if kind == 1 { mint } else { key(41, 0, 0) }, 10.0).unwrap_or_else(|_| w.stub_key(&mint))),
        3 | 4 => put(w, k, key(42, 0, 0), start(&0xa1b2_c3d4u32.to_le_bytes())),
        5 | 6 => put(w, k, key(42, 0, 0), start(&[217, 230, 65, 101, 201, 162, 27, 125])),
        7 | 8 => put(w, k, openbook_v2::state::switchboard_v2_mainnet_oracle::ID, start(&[1])),
        9 | 10 => put(w, k, "CAMMCzo5YL8w4VFF8KVHrK22GGUsp5VTaW7grrKgrWqK".parse().unwrap(), start(&[1])),
        11 => put(w, k, key(42, 0, 0), start(&[1])),
        12 => put(w, k, abi::PROGRAM, start(&abi::disc("account", "Market"))),
        _ => put(w, k, key(42, 0, 0), vec![]),
    }
}

fn limit(x: i64) -> i64 {
    match x {
        BIG => i64::MAX,
        x if x == -BIG => i64::MIN,
        x => x,
    }
}

const NAME: &str = "abcdefghijklmnopqrstuvwxyz0123456789";

/// The instruction by the TypeScript client, for which it has other accounts created.
fn client(w: &mut World, k: &mut MarketKeys, v: &Value, name: &str, own: &Ix) -> Result<Ix, String> {
    let g = |f: &str| v[f].as_i64().unwrap();
    let text = |k: &Pubkey| json!(k.to_string());
    let maybe = |k: &Option<Pubkey>| k.as_ref().map_or(Value::Null, text);
    let admin = |on: bool, p: usize| if on { text(&person(p)) } else { Value::Null };
    let c = k.cfg.clone();
    let q = json!({"op": "setup", "how": "market", "wallet": text(&person(1)), "name": name, "quote": text(&k.quote_mint), "base": text(&k.base_mint),
        "qls": c.qls.to_string(), "bls": c.bls.to_string(), "mf": c.mf.to_string(), "tf": c.tf.to_string(), "exp": c.exp.to_string(),
        "oa": maybe(&k.oracle_a), "ob": maybe(&k.oracle_b), "ooadm": admin(c.oo_admin, OO_ADMIN), "ceadm": admin(c.ce_admin, CE_ADMIN),
        "cmadm": admin(c.cm_admin, CM_ADMIN), "conf": g("cn") as f64 / 16.0, "stale": c.staleness, "market": text(&k.market),
        "feeadm": text(&person(FEE_ADMIN))});
    let r = tsc::ask(w, q);
    for k in [&k.bids, &k.asks, &k.heap] {
        w.rt.accts.remove(k);
    }
    let mut out = Err("nothing to do".to_string());
    for c in tsc::calls(&r, &[person(1)])? {
        if c.program == abi::PROGRAM {
            let at = |n: &str| c.accs[own.accs.iter().position(|x| x.name == n).unwrap()].key;
            (k.bids, k.asks, k.heap) = (at("bids"), at("asks"), at("heap"));
            out = Ok(Ix { accs: c.accs, data: c.data });
        } else if c.data.len() == 52 && c.data[..4] == [0; 4] {
            let (lamports, space) = (abi::r64(&c.data, 4), abi::r64(&c.data, 12) as usize);
            if lamports < min_rent(space) {
                return Err("not enough rent".into());
            }
            w.rt.accts.insert(c.accs[1].key, Acct { lamports, data: vec![0; space], owner: abi::rk(&c.data, 20), exec: false });
        }
    }
    out
}

impl Part for Create {
    fn init(_: &Value) -> Self {
        rt::install();
        let mut w = World::new();
        w.add_market(&Cfg::default()).unwrap();
        Create { w }
    }

    fn act(&mut self, v: &Value) -> Value {
        if v["op"] == "look" {
            return json!({"ok": true});
        }
        let g = |k: &str| v[k].as_i64().unwrap();
        let w = &mut self.w;
        let odd = g("odd");
        let cfg = Cfg {
            qls: limit(g("qls")),
            bls: limit(g("bls")),
            mf: limit(g("mf")),
            tf: limit(g("tf")),
            exp: limit(g("exp")),
            orc: 0,
            staleness: (g("st") >= 0).then(|| g("st") as u32),
            oo_admin: g("oo") == 1,
            ce_admin: g("ce") == 1,
            cm_admin: g("cm") == 1,
            base_dec: g("bd") as u8,
            quote_dec: g("qd") as u8,
            wallet: 5,
            zn: 1,
            zp: 1,
            zc: 1,
        };
        let mut k = w.prepare_market(&cfg);
        w.put_mint(key(41, 0, 0), 6);
        k.oracle_a = oracle(w, g("oa"), k.base_mint);
        k.oracle_b = if g("ob") == g("oa") { k.oracle_a } else { oracle(w, g("ob"), k.quote_mint) };
        let name = &NAME[..g("nm") as usize];
        let other = w.m[0].clone();
        let set = |w: &mut World, k: &Pubkey, f: &dyn Fn(&mut Acct)| {
            f(w.rt.accts.get_mut(k).unwrap());
        };
        match odd {
            1 => set(w, &k.bids, &|a| a.data[0] = 1),
            2 => set(w, &k.asks, &|a| a.data[7] = 1),
            3 => set(w, &k.heap, &|a| a.data[3] = 1),
            4 => set(w, &k.bids, &|a| a.owner = key(50, 0, 0)),
            5 => set(w, &k.asks, &|a| a.owner = key(50, 0, 0)),
            6 => set(w, &k.heap, &|a| a.owner = key(50, 0, 0)),
            7 => set(w, &k.bids, &|a| a.data.truncate(9000)),
            8 => set(w, &k.heap, &|a| a.data.truncate(9000)),
            9 => k.asks = k.bids,
            10 => k.quote_mint = k.base_mint,
            11 => k.authority = other.authority,
            12 => k.base_vault = wallet(1, &k.base_mint),
            13 => k.quote_vault = wallet(1, &k.quote_mint),
            14 => k.base_mint = key(42, 0, 0),
            15 => k.market = other.market,
            16 => k.bids = other.bids,
            17 => k.heap = other.heap,
            _ => {}
        }
        let mut ix = w.create_market_ix(&k, name, g("cn") as f32 / 16.0);
        match odd {
            18 => ix.accs.iter_mut().find(|x| x.name == "market").unwrap().s = false,
            19 => ix.accs.iter_mut().find(|x| x.name == "payer").unwrap().s = false,
            _ => {}
        }
        let by_client = std::env::var("CLIENT").is_ok() && odd == 0;
        if by_client {
            match client(w, &mut k, v, name, &ix) {
                Ok(i) => ix = i,
                Err(_) => return json!({"ok": false, "made": {}}),
            }
        }
        let r = match RUST.get().filter(|_| odd == 0) {
            Some(f) => f(w, &mut k, v, name),
            None => w.run(&ix),
        };
        let mut out = json!({"ok": r.is_ok(), "made": {}});
        if let Ok(done) = &r {
            // what was announced: the market, name and mints, then the numbers
            let mut head = abi::disc("event", "MarketMetaDataLog").to_vec();
            head.extend(k.market.as_ref());
            head.extend((name.len() as u32).to_le_bytes());
            head.extend(name.as_bytes());
            head.extend(k.base_mint.as_ref());
            head.extend(k.quote_mint.as_ref());
            let told: Vec<&[u8]> = done.logs.iter().map(|l| &l[l.len().min(8)..]).collect();
            let said = told.len() == 1 && told[0].len() == head.len() + 18 && told[0][..head.len()] == head[..];
            let nums = if said { told[0][head.len()..].to_vec() } else { vec![0; 18] };
            let acct = w.rt.get(&k.market);
            let d = &acct.data;
            let at = |o: usize| abi::rk(d, o);
            let o = |x: Pubkey| {
                if x == Pubkey::default() {
                    0
                } else if Some(x) == k.oracle_a {
                    g("oa")
                } else if Some(x) == k.oracle_b {
                    g("ob")
                } else {
                    -1
                }
            };
            let small = |x: i64| x.clamp(-BIG, BIG);
            let conf = f64::from_bits(abi::r64(d, mk::ORACLE_CFG)) * 16.0;
            let mut nm = name.as_bytes().to_vec();
            nm.resize(16, 0);
            let token = |a: &Pubkey, mint: &Pubkey| {
                let t = w.rt.get(a);
                t.owner == spl_token::ID && abi::rk(&t.data, 0) == *mint && abi::rk(&t.data, 32) == k.authority
                    && abi::token_amount(&t.data) == 0
            };
            let zero = |a: usize, b: usize| d[a..b].iter().all(|x| *x == 0);
            let fresh = |a: &Pubkey, len: usize, n: &str| {
                let t = w.rt.get(a);
                t.owner == abi::PROGRAM && t.data.len() == len && t.data[..8] == abi::disc("account", n)
            };
            out["made"] = json!({
                "typed": acct.owner == abi::PROGRAM && d.len() == abi::MARKET_LEN && d[..8] == abi::disc("account", "Market"),
                "qls": small(abi::ri64(d, mk::QLS)), "bls": small(abi::ri64(d, mk::BLS)),
                "mf": abi::ri64(d, mk::MAKER_FEE), "tf": abi::ri64(d, mk::TAKER_FEE),
                "exp": small(abi::ri64(d, mk::EXPIRY)), "reg": small(abi::ri64(d, mk::REG_TIME)),
                "bd": d[mk::BASE_DEC], "qd": d[mk::QUOTE_DEC],
                "fee": w.who(&at(mk::FEE_ADMIN)), "oo": w.who(&at(mk::OO_ADMIN)),
                "ce": w.who(&at(mk::CE_ADMIN)), "cm": w.who(&at(mk::CM_ADMIN)),
                "oa": o(at(mk::ORACLE_A)), "ob": o(at(mk::ORACLE_B)),
                "cn": if conf.fract() == 0.0 { conf as i64 } else { -99 },
                "st": small(abi::ri64(d, mk::ORACLE_CFG + 8)),
                "name": d[mk::NAME..mk::NAME + 16] == nm[..],
                "accounts": at(mk::BIDS) == k.bids && at(mk::ASKS) == k.asks && at(mk::HEAP) == k.heap
                    && at(mk::AUTHORITY) == k.authority
                    && Pubkey::create_program_address(&[b"Market", k.market.as_ref(), &[d[mk::BUMP]]], &abi::PROGRAM)
                        == Ok(k.authority),
                "tokens": at(mk::BASE_MINT) == k.base_mint && at(mk::QUOTE_MINT) == k.quote_mint
                    && at(mk::BASE_VAULT) == k.base_vault && at(mk::QUOTE_VAULT) == k.quote_vault
                    && token(&k.base_vault, &k.base_mint) && token(&k.quote_vault, &k.quote_mint),
                "counters": zero(mk::SEQ, mk::REG_TIME) && zero(mk::FEES_ACCRUED, mk::BASE_MINT)
                    && zero(mk::BASE_TOTAL, mk::QUOTE_VAULT) && zero(mk::QUOTE_TOTAL, mk::QUOTE_TOTAL + 8),
                "book": fresh(&k.bids, abi::BOOKSIDE_LEN, "BookSide") && fresh(&k.asks, abi::BOOKSIDE_LEN, "BookSide")
                    && [&k.bids, &k.asks].iter().all(|s| [0, 1].iter().all(|b|
                        abi::leaves(&w.rt.get(s).data, *b == 1) == Ok(vec![]))),
                "told": said, "logged": [nums[0] as i64, nums[1] as i64, small(abi::ri64(&nums, 2)), small(abi::ri64(&nums, 10))],
                "heap": fresh(&k.heap, abi::HEAP_LEN, "EventHeap") && abi::events(&w.rt.get(&k.heap).data) == Ok(vec![]),
            });
        }
        out
    }

    fn random(&mut self, r: &mut rng::Rng) -> Value {
        // a world grows with every market; each question starts afresh
        *self = Self::init(&json!({}));
        let fee = |r: &mut rng::Rng| match r.r(0, 9) {
            0 => r.of(&[1_000_000, 1_000_001, -1_000_000, -1_000_001, BIG, -BIG]),
            1..=3 => r.r(-50, 50),
            _ => r.r(-2_000, 3_000),
        };
        let lot = |r: &mut rng::Rng| if r.pct(10) { r.r(-2, 1) } else { r.r(1, 1_000_000) };
        let oa = if r.pct(80) { r.r(0, 10) } else { r.r(0, 13) };
        let ob = if r.pct(50) { 0 } else if r.pct(70) && oa > 0 { oa + if oa % 2 == 1 { 1 } else { -1 } } else { r.r(0, 13) };
        json!({"op": "create", "qls": lot(r), "bls": lot(r), "mf": fee(r), "tf": fee(r),
            "exp": if r.pct(60) { 0 } else { T0 + r.r(-3, 10) }, "oa": oa, "ob": ob.min(13),
            "nm": if r.pct(90) { r.r(0, 16) } else { r.r(16, 20) },
            "st": if r.pct(50) { -1 } else { r.r(0, 100_000) }, "cn": r.r(0, 16),
            "oo": r.r(0, 1), "ce": r.r(0, 1), "cm": r.r(0, 1), "bd": r.r(0, 12), "qd": r.r(0, 12),
            "odd": if r.pct(90) { 0 } else { r.r(0, 19) }})
    }
}
