//! The market, seen and used through the TypeScript client.
#![allow(dead_code)]
#[path = "../abi.rs"]
mod abi;
#[path = "../cli.rs"]
mod cli;
#[path = "../rng.rs"]
mod rng;
#[path = "../watch.rs"]
mod watch;
#[path = "../rt.rs"]
mod rt;
#[path = "../scenario.rs"]
mod scenario;
#[path = "../tsc.rs"]
mod tsc;
#[path = "../walk.rs"]
mod walk;
#[path = "../world.rs"]
mod world;

use rt::{Done, Fail};
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use std::str::FromStr;
use world::*;

fn b58(k: Pubkey) -> Value {
    json!(k.to_string())
}

fn key_of(v: &Value) -> Pubkey {
    v.as_str().and_then(|s| Pubkey::from_str(s).ok()).unwrap_or_default()
}

/// A number of the client; one the specification cannot hold counts as an odd one.
fn num(v: &Value) -> i64 {
    let x = match v {
        Value::String(s) => s.parse::<i128>().unwrap_or(i128::MAX),
        v => v.as_i64().map_or(i128::MAX, |x| x as i128),
    };
    units(x, 1)
}

/// A price limit: as above, but one beyond the range counts as the end of it.
fn limit(v: &Value) -> i64 {
    v.as_str().and_then(|s| s.parse::<i64>().ok()).map_or(num(v), |x| limit_units(x, 1))
}

/// Something people read, as digits and power of ten.
fn read(v: &Value) -> Value {
    json!([num(&v[0]), num(&v[1])])
}

fn list(v: &Value, f: impl Fn(&Value) -> Value) -> Value {
    Value::Array(v.as_array().map(|l| l.iter().map(f).collect()).unwrap_or_default())
}

// ---- what the client sees -----------------------------------------------------------------------

fn view(w: &World, v: &Value) -> Value {
    let k = &w.m[0];
    let lots: Vec<String> = gl(v, "lots").iter().map(|x| x.to_string()).collect();
    let q = json!({"op": "view", "wallet": b58(person(gi(v, "sg") as usize)), "market": b58(k.market), "now": w.now().to_string(),
        "depth": gi(v, "depth"), "oos": w.ooas.iter().map(|o| b58(o.0)).collect::<Vec<_>>(),
        "people": (1..=5).map(|p| b58(person(p))).collect::<Vec<_>>(), "lots": lots});
    let r = tsc::ask(w, q);
    if r.get("err").is_some() {
        return json!({"err": r["err"]});
    }
    let who = |x: &Value| w.who(&key_of(x));
    let ooa = |x: &Value| w.ooa_no(&key_of(x));
    let c = &r["m"];
    let mut m = json!({});
    for f in ["qls", "bls", "mf", "tf", "exp", "seq", "facc", "fref", "rracc", "favail", "mvol", "tvol", "bdt", "qdt", "stale"] {
        m[f] = json!(num(&c[f]));
    }
    for f in ["feeadm", "ooadm", "ceadm", "cmadm"] {
        m[f] = json!(who(&c[f]));
    }
    let same = [
        ("bids", k.bids), ("asks", k.asks), ("heap", k.heap), ("bmint", k.base_mint), ("qmint", k.quote_mint), ("bv", k.base_vault),
        ("qv", k.quote_vault), ("auth", k.authority), ("oa", k.oracle_a.unwrap_or_default()), ("ob", k.oracle_b.unwrap_or_default()),
    ];
    let keys = same.iter().all(|(f, a)| key_of(&c[*f]) == *a) && c["name"] == "MKT";
    let orders = |n: &str| {
        list(&r[n], |o| {
            json!({"o": {"pg": 0, "pd": num(&o["px"]), "seq": num(&o["seq"]), "own": ooa(&o["own"]), "slot": num(&o["slot"]), "q": num(&o["q"]),
                "ts": num(&o["ts"]), "tif": num(&o["tif"]), "cid": num(&o["cid"]), "plim": limit(&o["plim"])},
                "old": o["old"], "price": read(&o["price"]), "size": read(&o["size"])})
        })
    };
    let levels = |n: &str| list(&r[n], |l| json!([read(&l[0]), read(&l[1]), num(&l[2]), num(&l[3])]));
    let events = list(&r["ev"], |e| {
        if e["ty"] == 0 {
            let t = ooa(&e["tk"]);
            json!({"sl": -1, "ty": 0, "sd": num(&e["sd"]), "out": num(&e["out"]), "slot": num(&e["slot"]), "ts": num(&e["ts"]), "seq": num(&e["seq"]),
                "own": ooa(&e["own"]), "mts": num(&e["mts"]), "tk": if t > 0 { t } else { 100 + who(&e["tk"]) }, "tcid": num(&e["tcid"]),
                "px": num(&e["px"]), "plim": limit(&e["plim"]), "q": num(&e["q"]), "mcid": num(&e["mcid"])})
        } else {
            json!({"sl": -1, "ty": 1, "sd": num(&e["sd"]), "out": 1, "slot": num(&e["slot"]), "ts": num(&e["ts"]), "seq": 0, "own": ooa(&e["own"]),
                "mts": 0, "tk": 0, "tcid": 0, "px": 0, "plim": 0, "q": num(&e["q"]), "mcid": 0})
        }
    });
    let slot = |x: &Value| {
        let st = num(&x["st"]);
        let (sd, tr) = (st % 2, st / 2);
        let id = x["id"].as_str().and_then(|s| s.parse::<u128>().ok()).unwrap_or(0);
        json!({"s": num(&x["s"]), "pd": price_units(abi::key_price(id, tr == 1), 1), "seq": abi::key_seq(id, sd == 0) as i64, "sd": sd, "tr": tr,
            "cid": num(&x["cid"]), "lp": limit(&x["lp"])})
    };
    let oos = list(&r["oos"], |o| {
        if o.is_null() {
            return json!({"ex": 0});
        }
        let mut x = json!({"ex": 1, "m": if key_of(&o["m"]) == k.market { 0 } else { -1 }, "ow": who(&o["ow"]), "dl": who(&o["dl"]), "num": num(&o["num"]),
            "oo": list(&o["oo"], slot)});
        for f in ["bb", "ab", "bf", "qf", "lf", "rr", "pen", "mv", "tv", "bq"] {
            x[f] = json!(num(&o[f]));
        }
        json!({"ex": 1, "v": x, "base": num(&o["base"]), "quote": num(&o["quote"]), "nb": num(&o["nb"]), "nq": num(&o["nq"]),
            "ub": read(&o["ub"]), "uq": read(&o["uq"]), "items": list(&o["items"], |s| json!(num(s))), "text": o["text"],
            "slots": list(&o["slots"], |s| json!(num(s)))})
    });
    let nos = |x: &Value| list(x, |k| json!(ooa(k)));
    let people = list(&r["people"], |p| {
        json!({"all": nos(&p["all"]), "here": nos(&p["here"]), "first": ooa(&p["first"]),
            "loaded": list(&p["loaded"], |l| json!([ooa(&l[0]), who(&l[1]), if key_of(&l[2]) == k.market { 0 } else { -1 }, num(&l[3])]))})
    });
    let ui = list(&r["ui"], |u| {
        json!({"price": list(&u["price"], read), "base": list(&u["base"], read), "quote": list(&u["quote"], read),
            "native": list(&u["native"], read), "back": list(&u["back"], |x| json!(num(x)))})
    });
    json!({"m": m, "keys": keys as i64, "bdec": num(&c["bdec"]), "qdec": num(&c["qdec"]),
        "bids": orders("bids"), "asks": orders("asks"), "bidsl2": levels("bidsl2"), "asksl2": levels("asksl2"),
        "bidsbest": num(&r["bidsbest"]), "asksbest": num(&r["asksbest"]), "same": (r["bidssame"] == 1 && r["askssame"] == 1) as i64,
        "ev": events, "oos": oos, "people": people, "consume": nos(&r["consume"]),
        "found": list(&r["found"], |x| json!(if key_of(x) == k.market { 0 } else { -1 })),
        "watched": r["watched"], "ui": ui, "tick": read(&r["tick"]), "min": read(&r["min"]),
        "told": r["listed"]["told"], "got": r["listed"]["got"]})
}

// ---- what the client does -----------------------------------------------------------------------

/// The request for an action, and the action if the client has a say in it.
fn request(w: &World, v: &Value) -> Option<Value> {
    let k = &w.m[0];
    let op = v["op"].as_str().unwrap();
    if w.rt.get(&k.market).data.is_empty() || k.cfg.zn != 1 || k.cfg.zp != 1 {
        return None;
    }
    let s = w.state(0).ok()?;
    let (sg, oo, ad) = (gi(v, "sg") as usize, gi(v, "oo"), gi(v, "ad"));
    let dice = tsc::hash(&v.to_string());
    let owner = s["oos"].get((oo - 1).max(0) as usize).map_or(0, |o| gi(o, "ow"));
    let admin = |f: &str| ad == 0 || ad == gi(&s["m"], f);
    let mut q = v.clone();
    let opt = |p: usize| if p == 0 { Value::Null } else { b58(person(p)) };
    q["wallet"] = b58(person(sg));
    q["market"] = b58(k.market);
    q["oo"] = if oo > 0 { b58(w.ooa(oo)) } else { Value::Null };
    q["rem"] = json!(gl(v, "rem").iter().map(|i| w.ooa(*i).to_string()).collect::<Vec<_>>());
    q["admin"] = opt(ad as usize);
    q["ub"] = b58(wallet(sg, &k.base_mint));
    q["uq"] = b58(wallet(sg, &k.quote_mint));
    q["ut"] = q[if gi(v, "sd") == 0 { "uq" } else { "ub" }].clone();
    q["op"] = json!("build");
    // somebody other than the owner acts as delegate, from a wallet of their own or not
    if oo > 0 && owner != sg as i64 {
        q["delegate"] = b58(person(sg));
        if ["place", "multi", "cancel", "ccid", "call"].contains(&op) && dice % 3 == 0 {
            q["wallet"] = b58(person(5));
        }
    }
    let pegged = |side: &str| s[side].as_array().unwrap().iter().any(|o| gi(o, "pg") == 1);
    q["how"] = json!(op);
    for f in ["px", "plim"] {
        if v.get(f).is_some() {
            q[f] = json!(if f == "plim" && gi(v, f) == -1 { -1 } else { w.price_arg(0, gi(v, f)) }.to_string());
        }
    }
    if v.get("mb").is_some() {
        q["mb"] = json!(unbig(gi(v, "mb")).to_string());
    }
    if v.get("mq").is_some() {
        q["mq"] = json!(w.quote_arg(0, gi(v, "mq")).to_string());
    }
    match op {
        "place" => {
            if gi(v, "pg") == 1 {
                q["how"] = json!("pegged");
                return Some(q);
            }
            if !admin("ooadm") {
                return None;
            }
            let plain = gi(v, "cid") != 0 && gi(v, "px") > 0 && gi(v, "px") < BIG && gi(v, "mb") > 0 && gi(v, "mb") < BIG && gi(v, "mq") == BIG;
            if plain && dice % 4 > 0 {
                q["how"] = json!("placeui");
                let other = if gi(v, "sd") == 0 { "asks" } else { "bids" };
                if dice % 4 > 1 && !pegged(other) && q["wallet"] == b58(person(sg)) {
                    // which makers to bring along is up to the client
                    q.as_object_mut().unwrap().remove("rem");
                }
            }
        }
        "edit" if gi(v, "pg") == 1 => q["how"] = json!("editpegged"),
        "take" => q["oo"] = Value::Null,
        "multi" => {
            for s in ["bids", "asks"] {
                for o in q[s].as_array_mut().unwrap() {
                    o["px"] = json!(w.price_arg(0, gi(o, "px")).to_string());
                    o["mq"] = json!(w.quote_arg(0, gi(o, "mq")).to_string());
                }
            }
            // the client brings no makers along
            if !gl(v, "rem").is_empty() {
                return None;
            }
        }
        "cancel" => {
            let id = if gi(v, "seq") < 0 { 0 } else { abi::make_key(gi(v, "tr") == 1, gi(v, "pd"), gi(v, "seq") as u64, gi(v, "sd") == 0) };
            q["id"] = json!(id.to_string());
            let own = |o: &Value| gi(o, "own") == oo && gi(o, "seq") == gi(v, "seq") && gi(o, "pd") == gi(v, "pd");
            let side = if gi(v, "sd") == 0 { "bids" } else { "asks" };
            if dice % 2 == 0 && !pegged("bids") && !pegged("asks") && s[side].as_array().unwrap().iter().any(own) {
                q["how"] = json!("cancelui");
            }
        }
        "call" if gi(v, "lim") >= 24 && q["wallet"] == b58(person(sg)) => q["how"] = json!("callui"),
        "ccid" if dice % 2 == 0 => q["how"] = json!("ccidui"),
        "prune" | "closem" if !admin("cmadm") => return None,
        "closem" => q["dest"] = b58(person(CM_ADMIN)),
        "consume" | "consumeg" => {
            if !admin("ceadm") {
                return None;
            }
            if ad != 0 {
                q["wallet"] = opt(ad as usize);
            }
            q["delegate"] = Value::Null;
            if op == "consumeg" && dice % 3 == 0 && s["heap"].as_array().unwrap().len() > 0 {
                let h = s["heap"].as_array().unwrap();
                q["how"] = json!("consumefor");
                q["oo"] = b58(w.ooa(gi(&h[dice as usize / 3 % h.len()], "own")));
            }
        }
        "deposit" if owner != sg as i64 => return None,
        "settle" | "settlex" | "sweep" => {
            for (f, mint) in [("db", k.base_mint), ("dq", k.quote_mint), ("ref", k.quote_mint)] {
                let p = gi(v, f) as usize;
                q[f] = if p == 0 { Value::Null } else { b58(wallet(p, &mint)) };
            }
            let mine = |f: &str| gi(v, f) == sg as i64;
            if op == "settle" && dice % 2 == 0 && mine("db") && mine("dq") && owner == sg as i64 {
                q["how"] = json!("settleui");
                q["sd"] = json!(-1);
                let p = gi(v, "ref") as usize;
                if p > 0 {
                    q["referrer"] = b58(person(p));
                }
            }
            if op == "sweep" {
                q["delegate"] = Value::Null;
            }
        }
        "setdel" => q["dl"] = opt(gi(v, "dl") as usize),
        "closeooa" => q["owner"] = b58(person(sg)),
        _ => {}
    }
    Some(q)
}

fn refused(why: &str) -> Result<Done, Fail> {
    Err(Fail::Client(why.into()))
}

fn client(w: &mut World, v: &Value) -> Option<(Result<Done, Fail>, Value)> {
    let q = request(w, v)?;
    let r = tsc::ask(w, q.clone());
    let mut did = v.clone();
    did["by"] = q["how"].clone();
    let may: Vec<Pubkey> = ["wallet", "admin"].iter().filter(|k| q[**k].is_string()).map(|k| key_of(&q[*k])).collect();
    let calls = match tsc::calls(&r, &may) {
        Ok(l) => l,
        Err(why) => return Some((refused(&why), did)),
    };
    let only = match q["how"].as_str().unwrap() {
        "callui" => Some(abi::disc("global", "cancel_all_orders")),
        "settleui" => Some(abi::disc("global", "settle_funds")),
        _ => None,
    };
    let mut out = refused("nothing to do");
    for tsc::Call { program, accs, data } in calls {
        if program != abi::PROGRAM || only.map_or(false, |d| data[..8] != d) {
            continue;
        }
        if q["how"] == "placeui" && q.get("rem").is_none() {
            did["by"] = json!("placeauto");
            did["rem"] = json!(accs.iter().skip(12).map(|x| w.ooa_no(&x.key)).collect::<Vec<_>>());
        }
        if q["how"] == "consumefor" {
            did["rem"] = json!(accs.iter().skip(3).map(|x| w.ooa_no(&x.key)).collect::<Vec<_>>());
            did["sl"] = json!(data[12..].chunks(8).map(|c| abi::r64(c, 0).min(BIG as u64)).collect::<Vec<_>>());
            did["oo"] = json!(w.ooa_no(&key_of(&q["oo"])));
        }
        out = w.run(&Ix { accs, data });
        if out.is_err() {
            break;
        }
    }
    Some((out, did))
}

fn main() {
    QUOTES.set(view).ok();
    CLIENT.set(client).ok();
    if std::env::var("PUBLISHED").is_ok() {
        REREAD.set(tsc::reread).ok();
    }
    watch::over(cli::main);
}
