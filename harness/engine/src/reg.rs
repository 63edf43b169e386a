//! Registries of open orders accounts and the accounts they list.
use crate::abi::{self, oo, W};
use crate::parts::Part;
use crate::world::*;
use crate::rt::{self, min_rent, Acct};
use crate::{rng, tsc};
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::sync::OnceLock;

pub const OWNERS: usize = 2;

/// The Rust client: does it where it can and says what came of it; and what it finds.
pub static RUST: OnceLock<(fn(&mut Registry, &Value) -> Option<(bool, i64)>, fn(&Registry) -> Value)> = OnceLock::new();

#[derive(Clone)]
pub struct Registry {
    pub w: World,
    /// no account has a number beyond this
    pub most: u32,
}

/// Where field `f` of an account is, and how long.
fn place(f: i64) -> (usize, usize) {
    match f {
        1..=7 => (oo::POS + 8 * (f as usize - 1), 8),
        8 => (oo::POS + 88, 8),
        9 => (oo::VERSION, 1),
        10 => (oo::POS + 56, 8),
        _ => (oo::POS + 72, 8),
    }
}

impl Registry {
    fn lamports(&self) -> Vec<i64> {
        (1..=5).map(|p| self.w.rt.get(&person(p)).lamports as i64).collect()
    }

    pub fn market(&self, m: i64) -> Pubkey {
        match m {
            0 => key(60, 0, 0),
            m => self.w.m[m as usize - 1].market,
        }
    }

    fn seen(&self, ok: bool, before: &[i64]) -> Value {
        let w = &self.w;
        let mut regs = vec![];
        let mut accounts = vec![];
        for p in 1..=OWNERS {
            let a = w.rt.get(&w.indexer(p));
            let d = &a.data;
            let ex = a.owner == abi::PROGRAM && d.len() >= 17 && d[..8] == abi::disc("account", "OpenOrdersIndexer");
            let mut list = vec![];
            if ex {
                let n = abi::r32(d, 13) as usize;
                for i in 0..n.min(1000) {
                    let k = abi::rk(d, 17 + 32 * i);
                    list.push((1..=self.most).find(|j| w.ooa_key(p, *j) == k).map_or(-1, |j| j as i64));
                }
            }
            regs.push(json!({"ex": ex as i64, "cnt": if ex { abi::r32(d, 9) } else { 0 }, "list": list,
                "len": d.len(), "lam": a.lamports}));
            for j in 1..=self.most {
                let a = w.rt.get(&w.ooa_key(p, j));
                let d = &a.data;
                if a.owner != abi::PROGRAM || d.len() != abi::OOA_LEN {
                    continue;
                }
                let f: Vec<i64> = (1..=9)
                    .map(|f| match place(f) {
                        (o, 8) => big(abi::ri64(d, o)),
                        (o, _) => d[o] as i64,
                    })
                    .collect();
                let name = &d[72..104];
                let len = name.iter().position(|x| *x == 0).unwrap_or(32);
                let named = name[..len].iter().all(|x| *x == b'x') && name[len..].iter().all(|x| *x == 0);
                let market = (1..=2).find(|m| self.market(*m) == abi::rk(d, oo::MARKET)).unwrap_or(0);
                accounts.push(json!({"ow": p, "num": j, "who": w.who(&abi::rk(d, oo::OWNER)), "no": abi::r32(d, oo::NUM),
                    "m": market, "dl": w.who(&abi::rk(d, oo::DELEGATE)), "nm": if named { len as i64 } else { -1 },
                    "f": f, "free": (0..24).all(|s| d[oo::ORDERS + 40 * s + 32] != 0)}));
            }
        }
        let gain: Vec<i64> = self.lamports().iter().zip(before).map(|(a, b)| a - b).collect();
        let mut r = json!({"ok": ok, "regs": regs, "accounts": accounts, "gain": gain});
        if ok && std::env::var("LOOK").is_ok() && accounts.len() <= 40 {
            r["look"] = self.look();
        }
        if let Some((_, look)) = RUST.get().filter(|_| ok && accounts.len() <= 40) {
            // the client needs a world it can write to
            r["rlook"] = look(self);
        }
        r
    }

    /// What the TypeScript client finds.
    fn look(&self) -> Value {
        let w = &self.w;
        let q = json!({"op": "lookup", "wallet": person(3).to_string(), "markets": [self.market(1).to_string(), self.market(2).to_string()],
            "people": (1..=OWNERS + 1).map(|p| person(p).to_string()).collect::<Vec<_>>()});
        let r = tsc::ask(w, q);
        let Some(people) = r.as_array() else {
            return json!([]);
        };
        let key = |x: &Value| x.as_str().and_then(|s| s.parse::<Pubkey>().ok()).unwrap_or_default();
        let list = |x: &Value, f: &dyn Fn(&Value) -> Value| Value::Array(x.as_array().unwrap().iter().map(f).collect());
        let market = |x: &Value| (1..=2).find(|m| self.market(*m) == key(x)).unwrap_or(0);
        let look = people.iter().enumerate().map(|(i, p)| {
            let no = |x: &Value| match x {
                Value::Null => json!(0),
                x => json!((1..=self.most).find(|j| w.ooa_key(i + 1, *j) == key(x)).map_or(-1, |j| j as i64)),
            };
            json!({"all": list(&p["all"], &no), "here": list(&p["here"], &|l| list(l, &no)), "first": list(&p["first"], &no),
                "loaded": list(&p["loaded"], &|l| json!({"num": no(&l[0]), "who": w.who(&key(&l[1])), "m": market(&l[2]), "mk": market(&l[3]),
                    "dl": w.who(&key(&l[4])), "no": l[5], "nm": l[6].as_str().map_or(-1, |s| s.len() as i64), "books": [l[7], l[8]]}))})
        });
        Value::Array(look.collect())
    }
}

/// Whether the TypeScript client makes the instructions.
fn by_client() -> bool {
    std::env::var("CLIENT").is_ok()
}

impl Registry {
    /// Has the client do it, where it can.
    fn client(&mut self, v: &Value) -> Option<bool> {
        let g = |k: &str| v[k].as_i64().unwrap_or(0);
        let op = v["op"].as_str().unwrap();
        let of = g("of") as usize;
        let listed = self.w.rt.get(&self.w.indexer(of)).owner == abi::PROGRAM;
        if !by_client() || g("sf") != 1 || (op != "setdel" && g("ix") != of as i64) {
            return None;
        }
        let who = |p: i64| json!(person(p as usize).to_string());
        let mut q = json!({"op": "setup", "owner": who(of as i64), "market": self.market(g("m").max(1)).to_string()});
        match op {
            "mkidx" => {
                q["wallet"] = who(g("pay"));
                // the client also creates a registry along with the first account
                if g("pay") % 2 == 0 && !listed {
                    q["how"] = json!("ooa");
                    q["name"] = json!("x");
                } else {
                    q["how"] = json!("indexer");
                }
            }
            "mkoo" => {
                if !listed || g("num") != self.w.created(of) as i64 + 1 {
                    return None;
                }
                q["wallet"] = who(g("pay"));
                q["how"] = json!("ooa");
                q["market"] = json!(self.market(g("m")).to_string());
                q["name"] = json!("x".repeat(g("nm") as usize));
                q["delegate"] = if g("dl") > 0 { who(g("dl")) } else { Value::Null };
            }
            "rmidx" => {
                q["wallet"] = who(g("dest"));
                q["how"] = json!("closeindexer");
            }
            "rmoo" => {
                q["wallet"] = who(of as i64);
                q["dest"] = who(g("dest"));
                q["how"] = json!("closeooa");
                q["ooa"] = json!(self.w.ooa_key(g("ow") as usize, g("num") as u32).to_string());
            }
            _ => return None,
        }
        let may = [person(of), person(g("pay").max(1) as usize)];
        let r = tsc::ask(&self.w, q);
        let Ok(calls) = tsc::calls(&r, &may) else {
            return Some(false);
        };
        // a registry or an account at a time
        if op == "mkoo" && calls.len() != 1 {
            return Some(false);
        }
        let c = calls.into_iter().next()?;
        Some(c.program == abi::PROGRAM && self.w.run(&Ix { accs: c.accs, data: c.data }).is_ok())
    }
}

impl Part for Registry {
    fn init(_: &Value) -> Self {
        rt::install();
        let mut w = World::new();
        for _ in 0..2 {
            let m = w.add_market(&Cfg::default()).unwrap();
            // nobody trades here; a client only has to tell the books apart
            for (i, k) in [w.m[m].heap, w.m[m].bids, w.m[m].asks].into_iter().enumerate() {
                if i == 0 || std::env::var("LOOK").is_err() {
                    w.rt.accts.remove(&k);
                } else {
                    w.rt.accts.get_mut(&k).unwrap().data[12] = (10 * (m + 1) + i) as u8;
                }
            }
        }
        // other accounts of the program can name a person where open orders accounts name their owner
        let mut data = abi::disc("account", "StubOracle").to_vec();
        data.extend(person(1).to_bytes());
        data.resize(208, 0);
        let at = Pubkey::new_from_array([77; 32]);
        w.rt.accts.insert(at, Acct { lamports: min_rent(208), data, owner: abi::PROGRAM, exec: false });
        Registry { w, most: 4 }
    }

    fn act(&mut self, v: &Value) -> Value {
        let g = |k: &str| v[k].as_i64().unwrap_or(0);
        let before = self.lamports();
        if let Some((ok, ret)) = RUST.get().and_then(|(f, _)| f(self, v)) {
            self.most = (1..=OWNERS).map(|p| self.w.created(p).min(1000) + 4).max().unwrap().max(self.most);
            let mut r = self.seen(ok, &before);
            r["ret"] = json!(ret);
            return r;
        }
        if let Some(ok) = self.client(v) {
            self.most = (1..=OWNERS).map(|p| self.w.created(p).min(1000) + 4).max().unwrap().max(self.most);
            return self.seen(ok, &before);
        }
        let w = &mut self.w;
        let of = g("of") as usize;
        let owner = a("owner", person(of), g("sf") == 1, false);
        let indexer = a("indexer", w.indexer(g("ix") as usize), false, true);
        let ooa = |w: &World, o: &str, n: &str| a("ooa", w.ooa_key(g(o) as usize, g(n) as u32), false, true);
        let sys = a("sys", system_program::ID, false, false);
        let dest = a("dest", person(g("dest") as usize), false, true);
        let delegate = opt("delegate", (g("dl") > 0).then(|| person(g("dl") as usize)), false, false);
        let name = "x".repeat(g("nm") as usize);
        let ok = match v["op"].as_str().unwrap() {
            "look" => true,
            "mkidx" => w
                .run(&Ix {
                    accs: vec![a("payer", person(g("pay") as usize), true, true), owner, indexer, sys],
                    data: W::ix("create_open_orders_indexer").0,
                })
                .is_ok(),
            "rmidx" => w
                .run(&Ix {
                    accs: vec![owner, indexer, dest, a("token", spl_token::ID, false, false)],
                    data: W::ix("close_open_orders_indexer").0,
                })
                .is_ok(),
            "mkoo" => {
                let market = self.market(g("m"));
                let w = &mut self.w;
                let k = ooa(w, "ix", "num");
                w.run(&Ix {
                    accs: vec![
                        a("payer", person(g("pay") as usize), true, true),
                        owner,
                        delegate,
                        indexer,
                        k,
                        a("market", market, false, false),
                        sys,
                    ],
                    data: W::ix("create_open_orders_account").str(&name).0,
                })
                .is_ok()
            }
            "rmoo" => {
                let k = ooa(w, "ow", "num");
                w.run(&Ix { accs: vec![owner, indexer, k, dest, sys], data: W::ix("close_open_orders_account").0 }).is_ok()
            }
            "setdel" => {
                let k = ooa(w, "ow", "num");
                let mut owner = owner;
                owner.w = true;
                w.run(&Ix { accs: vec![owner, k, delegate], data: W::ix("set_delegate").0 }).is_ok()
            }
            "poke" => {
                let k = w.ooa_key(g("ow") as usize, g("num") as u32);
                let (o, n) = place(g("f"));
                match w.rt.accts.get_mut(&k) {
                    Some(a) if a.owner == abi::PROGRAM => {
                        a.data[o..o + n].copy_from_slice(&g("v").to_le_bytes()[..n]);
                        true
                    }
                    _ => false,
                }
            }
            // several accounts at once
            "bulk" => (0..g("n")).all(|_| w.create_ooa(of, 0, None).is_ok()),
            x => panic!("unknown op {x}"),
        };
        self.most = (1..=OWNERS).map(|p| self.w.created(p).min(1000) + 4).max().unwrap().max(self.most);
        self.seen(ok, &before)
    }

    fn random(&mut self, r: &mut rng::Rng) -> Value {
        let of = r.r(1, OWNERS as i64);
        let sf = r.pct(93) as i64;
        let ix = if r.pct(93) { of } else { 3 - of };
        let cnt = self.w.created(of as usize) as i64;
        let (ow, num) = (if r.pct(93) { of } else { 3 - of }, r.r(1, (cnt + 1).min(8)) + if cnt > 8 { cnt - 8 } else { 0 });
        let person = r.r(1, 5);
        if RUST.get().is_some() && r.pct(20) {
            return json!({"op": "find", "of": of, "pay": person, "m": if r.pct(95) { r.r(1, 2) } else { 0 },
                "nm": if r.pct(90) { r.r(0, 4) } else { r.r(30, 36) }});
        }
        match r.w(&[3, 2, 10, 8, 4, 3, 1]) {
            0 => json!({"op": "mkidx", "of": of, "sf": sf, "ix": ix, "pay": person}),
            1 => json!({"op": "rmidx", "of": of, "sf": sf, "ix": ix, "dest": person}),
            2 => json!({"op": "mkoo", "of": of, "sf": sf, "ix": ix, "pay": person,
                "num": if r.pct(90) { cnt + 1 } else { cnt + r.r(0, 3) }, "m": if r.pct(90) { r.r(1, 2) } else { 0 },
                "dl": if r.pct(50) { 0 } else { r.r(1, 5) }, "nm": if r.pct(90) { r.r(0, 12) } else { r.r(30, 36) }}),
            3 => json!({"op": "rmoo", "of": of, "sf": sf, "ix": ix, "ow": ow, "num": num, "dest": person}),
            4 => json!({"op": "poke", "ow": ow, "num": num, "f": if r.pct(10) { 9 } else { r.r(1, 8) },
                "v": if r.pct(60) { 0 } else { r.r(1, 3) }}),
            5 => json!({"op": "setdel", "of": of, "sf": sf, "ow": ow, "num": num, "dl": r.r(0, 5)}),
            _ => json!({"op": "look"}),
        }
    }
}
