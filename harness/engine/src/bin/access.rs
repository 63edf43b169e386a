//! Every instruction with each of its accounts exchanged for one that does not belong there.
#![allow(dead_code)]
#[path = "../abi.rs"]
mod abi;
#[path = "../parts.rs"]
mod parts;
#[path = "../rng.rs"]
mod rng;
#[path = "../watch.rs"]
mod watch;
#[path = "../rt.rs"]
mod rt;
#[path = "../world.rs"]
mod world;

use abi::W;
use parts::Part;
use rt::Acct;
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use world::*;

/// Two markets for the same tokens with different admins, and people with accounts on both: accounts 1 and 3
/// are person 1's, 2 and 4 person 2's, 5 and 6 person 4's, the first with delegate 2, the
/// others with delegate 3; 1, 2 and 5 are on the first market.
#[derive(Clone)]
struct Access {
    w: World,
    conf: i64,
    stage: i64,
    broken: Option<String>,
}

/// The other market's admin.
const RIVAL: usize = 4;
const STRANGER: usize = 5;

fn stub(owner: usize, mint: &Pubkey) -> Pubkey {
    abi::pda(&[b"StubOracle", person(owner).as_ref(), mint.as_ref()], &abi::PROGRAM)
}

impl Access {
    fn must(&mut self, a: Value) {
        let (ok, _, e) = self.w.act(&a);
        if !ok && self.broken.is_none() {
            self.broken = Some(format!("{a}: {e}"));
        }
    }

    fn admin(&self, m: i64, who: usize) -> i64 {
        match (self.conf, m) {
            (1, 0) => who as i64,
            (1, _) => RIVAL as i64,
            _ => 0,
        }
    }

    fn place(&self, m: i64, oo: i64, sg: i64, sd: i64, px: i64, mb: i64, cid: i64) -> Value {
        json!({"op": "place", "m": m, "oo": oo, "sg": sg, "ad": self.admin(m, OO_ADMIN), "sd": sd, "px": px, "plim": -1,
            "mb": mb, "mq": 100_000, "cid": cid, "ty": 0, "exp": 0, "stp": 0, "lim": 10, "rem": []})
    }

    fn prepare(&mut self) {
        for (m, x, y) in [(0, 1, 2), (1, 3, 4)] {
            self.must(self.place(m, x, 1, 0, 9, 2, 1));
            self.must(self.place(m, x, 1, 1, 12, 2, 2));
            self.must(self.place(m, y, 2, 0, 8, 2, 1));
            self.must(self.place(m, y, 2, 1, 13, 2, 2));
            self.must(json!({"op": "deposit", "m": m, "oo": x, "sg": 1, "b": 5, "q": 5}));
            self.must(json!({"op": "deposit", "m": m, "oo": y, "sg": 2, "b": 5, "q": 5}));
            let ad = self.admin(m, OO_ADMIN);
            for (sd, px) in [(0, 12), (1, 9)] {
                self.must(json!({"op": "take", "m": m, "sg": 5, "ad": ad, "sd": sd, "px": px, "mb": 1, "mq": 100_000,
                    "ty": 1, "lim": 10, "rem": []}));
            }
        }
        if self.stage >= 2 {
            let cm = [CM_ADMIN as i64, RIVAL as i64];
            for m in 0..2 {
                self.must(json!({"op": "setexp", "m": m, "ad": cm[m as usize]}));
            }
        }
        if self.stage == 3 {
            for (m, x, y) in [(0i64, 1, 2), (1, 3, 4)] {
                for (oo, sg) in [(x, 1), (y, 2)] {
                    self.must(json!({"op": "call", "m": m, "oo": oo, "sg": sg, "sd": -1, "lim": 255}));
                }
                let ce = self.admin(m, CE_ADMIN);
                self.must(json!({"op": "consume", "m": m, "ad": ce, "lim": 8, "rem": [x, y]}));
                for (oo, sg) in [(x, 1), (y, 2)] {
                    self.must(json!({"op": "settle", "m": m, "oo": oo, "sg": sg, "db": sg, "dq": sg, "ref": 0}));
                }
                let fee = if m == 0 { FEE_ADMIN } else { RIVAL };
                self.must(json!({"op": "sweep", "m": m, "ad": fee, "dq": 1}));
            }
        }
    }

    /// The instruction in its regular form; by: person acting for their account.
    fn regular(&self, ins: &str, by: i64) -> Option<Ix> {
        let oo = if by == 3 { 2 } else { by };
        let own = if by == 3 { 2 } else { by };
        let ad = self.admin(0, OO_ADMIN);
        let order = |op: &str, sd: i64, px: i64, pg: i64| {
            let mut a = self.place(0, oo, by, sd, px, 9, 7);
            a["op"] = json!(op);
            a["pg"] = json!(pg);
            a["plim"] = json!(if pg == 1 { if sd == 0 { 11 } else { 5 } } else { -1 });
            a["ecid"] = json!(1);
            a["esz"] = json!(2);
            a
        };
        let take = |sd: i64, px: i64| {
            json!({"op": "take", "m": 0, "sg": by, "ad": ad, "sd": sd, "px": px, "mb": 1, "mq": 100_000, "ty": 1,
            "lim": 10, "rem": []})
        };
        let a = match ins {
            "placebid" => order("place", 0, 7, 0),
            "placeask" => order("place", 1, 14, 0),
            "pegbid" => order("place", 0, -3, 1),
            "pegask" => order("place", 1, 3, 1),
            "editbid" => order("edit", 0, 10, 0),
            "editpeg" => order("edit", 0, -1, 1),
            "takebid" => take(0, 12),
            "takeask" => take(1, 9),
            "multi" | "replace" => json!({"op": "multi", "m": 0, "oo": oo, "sg": by, "ad": ad, "ty": 0,
                "can": (ins == "replace") as i64, "bids": [{"px": 7, "mq": 100, "exp": 0}],
                "asks": [{"px": 14, "mq": 100, "exp": 0}], "lim": 10}),
            "cancel" => {
                let bids = self.w.leaves(0, true).ok()?;
                let l = bids.iter().find(|l| l.owner == self.w.ooa(oo))?;
                json!({"op": "cancel", "m": 0, "oo": oo, "sg": by, "seq": l.seq(true), "pd": l.price(), "sd": 0, "tr": 0})
            }
            "ccid" => json!({"op": "ccid", "m": 0, "oo": oo, "sg": by, "cid": 1}),
            "call" => json!({"op": "call", "m": 0, "oo": oo, "sg": by, "sd": -1, "lim": 255}),
            "prune" => json!({"op": "prune", "m": 0, "oo": oo, "ad": CM_ADMIN, "lim": 255}),
            "consume" => json!({"op": "consume", "m": 0, "ad": self.admin(0, CE_ADMIN), "lim": 8, "rem": [1, 2]}),
            "consumeg" => {
                let sl: Vec<usize> = self.w.heap_events(0).unwrap().iter().map(|e| e.0).collect();
                json!({"op": "consumeg", "m": 0, "ad": self.admin(0, CE_ADMIN), "sl": sl, "rem": [1, 2]})
            }
            "deposit" | "refill" => json!({"op": ins, "m": 0, "oo": oo, "sg": by, "b": 700, "q": 700}),
            "settle" => json!({"op": "settle", "m": 0, "oo": oo, "sg": by, "db": own, "dq": own, "ref": 1}),
            "settlex" => json!({"op": "settlex", "m": 0, "oo": oo, "sg": by, "ad": CM_ADMIN, "db": own, "dq": own, "ref": 1}),
            "sweep" => json!({"op": "sweep", "m": 0, "ad": FEE_ADMIN, "dq": 1}),
            "setexp" => json!({"op": "setexp", "m": 0, "ad": CM_ADMIN}),
            "setdel" => json!({"op": "setdel", "m": 0, "oo": oo, "sg": by, "dl": 3}),
            "closem" => json!({"op": "closem", "m": 0, "ad": CM_ADMIN}),
            "closeooa" => json!({"op": "closeooa", "m": 0, "oo": 5, "sg": 4}),
            "oset" | "oclose" => {
                let k = self.w.m[0].oracle_a.unwrap();
                let mut accs = vec![a("owner", person(ORC_ADMIN), true, false), a("oracle", k, false, true)];
                let data = if ins == "oset" {
                    W::ix("stub_oracle_set").f64(11.0)
                } else {
                    accs.push(a("dest", person(1), false, true));
                    accs.push(a("token", spl_token::ID, false, false));
                    W::ix("stub_oracle_close")
                };
                return Some(Ix { accs, data: data.0 });
            }
            x => panic!("unknown instruction {x}"),
        };
        let mut ix = self.w.ix(&a).unwrap();
        for x in &mut ix.accs {
            // an account of its own, so that leaving out a signature has an effect
            if x.name == "penalty_payer" {
                x.key = person(3 + (by == 3) as usize);
            }
            if x.name == "dest" && ins == "closeooa" {
                x.key = person(1);
            }
        }
        Some(ix)
    }

    /// What takes the place of an account; None if there is no such thing.
    fn other(&mut self, ins: &str, by: i64, x: &mut A, sub: &str) -> Option<()> {
        let (m, b) = (self.w.m[0].clone(), self.w.m[1].clone());
        let own = if by == 3 { 2 } else { by };
        let base = match x.name {
            "base_vault" | "user_base" => true,
            "vault" | "user_token" => ["placeask", "pegask"].contains(&ins),
            _ => false,
        };
        let mint = |base: bool| if base { m.base_mint } else { m.quote_mint };
        x.key = match (sub, x.name) {
            ("unsigned", _) => {
                x.s = false;
                x.key
            }
            ("stranger", _) => {
                if x.key == abi::PROGRAM {
                    x.s = true;
                }
                person(STRANGER)
            }
            ("delegate", _) => person(if own == 1 && ins != "closeooa" { 2 } else { 3 }),
            ("other", "cm_admin" | "fee_admin") => person(RIVAL),
            ("other", "oo_admin" | "ce_admin") => {
                x.s = true;
                person(RIVAL)
            }
            ("swap", "cm_admin") => person(FEE_ADMIN),
            ("swap", "fee_admin") => person(CM_ADMIN),
            ("swap", "oo_admin") => {
                x.s = true;
                person(CE_ADMIN)
            }
            ("swap", "ce_admin") => {
                x.s = true;
                person(OO_ADMIN)
            }
            ("absent", _) => {
                x.s = false;
                x.w = false;
                abi::PROGRAM
            }
            ("empty", _) => key(70, 1, 0),
            ("fake", _) => {
                let mut c: Acct = self.w.rt.get(&x.key);
                let k = key(70, 2, 0);
                c.owner = key(71, 0, 0);
                self.w.rt.accts.insert(k, c);
                k
            }
            ("other", "market") => b.market,
            ("other", "authority") => b.authority,
            ("other", "bids") => b.bids,
            ("other", "asks") => b.asks,
            ("other", "heap") => b.heap,
            ("other", "base_vault") => b.base_vault,
            ("other", "quote_vault") => b.quote_vault,
            ("other", "vault") => if base { b.base_vault } else { b.quote_vault },
            ("other", "oracle_a") => b.oracle_a.unwrap(),
            ("other", "oracle") => stub(RIVAL, &m.base_mint),
            ("other", "oracle_b") => b.oracle_b.unwrap(),
            ("other", "ooa") => self.w.ooa(if own == 1 { 3 } else { 4 }),
            ("other", "indexer") => self.w.indexer(1),
            ("theirs", "ooa") => self.w.ooa(if own == 1 { 2 } else { 1 }),
            ("theirs", "user_token" | "user_base" | "vault" | "base_vault") if base => wallet(STRANGER, &mint(true)),
            ("theirs", _) => wallet(STRANGER, &mint(false)),
            ("swap", "bids") => m.asks,
            ("swap", "asks") => m.bids,
            ("swap", "oracle_a") => m.oracle_b.unwrap(),
            ("swap", "oracle_b") => m.oracle_a.unwrap(),
            ("swap", "base_vault") => m.quote_vault,
            ("swap", "quote_vault") => m.base_vault,
            ("swap", "vault") => if base { m.quote_vault } else { m.base_vault },
            ("swap", "referrer" | "receiver") => wallet(1, &mint(true)),
            ("swap", _) => wallet(by as usize, &mint(!base)),
            ("type", "bids" | "asks") => m.heap,
            ("type", "heap") => m.bids,
            ("type", "market") => self.w.ooa(1),
            ("type", "ooa" | "indexer") => m.market,
            ("type", _) => m.bids,
            _ => return None,
        };
        Some(())
    }
}

impl Part for Access {
    fn init(s: &Value) -> Self {
        rt::install();
        let (conf, stage) = (s["conf"].as_i64().unwrap(), s["stage"].as_i64().unwrap());
        let mut w = World::new();
        let cfg = Cfg { tf: 2000, mf: 0, orc: 2, oo_admin: conf == 1, ce_admin: conf == 1, ..Cfg::default() };
        w.add_market(&cfg).unwrap();
        let mut k = w.prepare_market(&cfg);
        let (base, quote) = (w.m[0].base_mint, w.m[0].quote_mint);
        k.base_mint = base;
        k.quote_mint = quote;
        k.base_vault = abi::ata(&k.authority, &base);
        k.quote_vault = abi::ata(&k.authority, &quote);
        let mut ix = w.create_market_ix(&k, "RIVAL", 0.1);
        for x in &mut ix.accs {
            if x.name.ends_with("_admin") && x.key != abi::PROGRAM {
                x.key = person(RIVAL);
            }
        }
        w.run(&ix).unwrap();
        k.lamports0 = w.rt.get(&k.market).lamports;
        w.m.push(k);
        w.run(&Ix {
            accs: vec![
                a("payer", person(RIVAL), true, true),
                a("owner", person(RIVAL), true, false),
                a("oracle", stub(RIVAL, &base), false, true),
                a("mint", base, false, false),
                a("sys", solana_program::system_program::ID, false, false),
            ],
            data: W::ix("stub_oracle_create").f64(9.0).0,
        })
        .unwrap();
        for p in [1, 2, 4] {
            w.create_indexer(p).unwrap();
        }
        for (p, m) in [(1, 0), (2, 0), (1, 1), (2, 1), (4, 0), (4, 1)] {
            w.create_ooa(p, m, Some(if p == 1 { 2 } else { 3 })).unwrap();
        }
        let mut x = Access { w, conf, stage, broken: None };
        x.prepare();
        x
    }

    fn act(&mut self, v: &Value) -> Value {
        if let Some(b) = &self.broken {
            return json!({ "broken": b });
        }
        if v["op"] == "look" {
            return json!({"ok": true, "has": true});
        }
        let s = |k: &str| v[k].as_str().unwrap();
        let by = v["by"].as_i64().unwrap();
        let Some(mut ix) = self.regular(s("ins"), by) else {
            return json!({"ok": false, "has": true});
        };
        let mut has = true;
        if s("sub") != "none" {
            match ix.accs.iter().position(|x| x.name == s("role")) {
                None => has = false,
                Some(i) => {
                    let mut x = ix.accs[i].clone();
                    has = self.other(s("ins"), by, &mut x, s("sub")).is_some();
                    ix.accs[i] = x;
                }
            }
        }
        let ok = self.w.run(&ix).is_ok();
        json!({"ok": ok, "has": has})
    }

    fn random(&mut self, _: &mut rng::Rng) -> Value {
        json!({"op": "look"})
    }
}

fn main() {
    parts::main::<Access>();
}
