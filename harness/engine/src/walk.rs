//! Random walks over a market: actions are drawn with an eye on the current state, executed on
//! the program, and recorded together with the state they lead to.

use crate::rng::Rng;
use crate::watch;
use crate::world::*;
use serde_json::{json, Value};
use std::io::{BufWriter, Write};

/// What a walk concentrates on.
#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub steps: usize,
    /// weights: place, take, multi, edit, cancel, ccid, call, prune, consume, consumeg, deposit,
    /// refill, settle, settlex, sweep, setexp, setdel, tick, orc, closeooa, closem
    pub w: [i64; 21],
    pub peg: i64,     // % of placed orders that are pegged
    pub expiry: i64,  // % of orders that expire
    pub rem: i64,     // % of instructions that carry maker accounts along
    pub selfish: i64, // % of orders placed by the account with most resting orders
    pub bad: i64,     // % of actions with a wrong signer, admin or absurd argument
    pub drain: bool,  // wind the market down in the end
    pub prices: i64,  // how many price levels
    pub accounts: usize,
    pub fill_slots: bool,
    pub dt: i64,
    pub quote: i64, // % of steps before which a quote is asked for
    pub view: i64,  // % of steps before which a client says what it sees
    pub size: i64,  // of orders and wallets
    /// what a token unit and a price unit (or client id) stand for
    pub zn: i64,
    pub zp: i64,
    /// orders on one side of the book and events on the heap to begin with
    pub orders: i64,
    pub events: i64,
}

pub const BASE: Profile = Profile {
    name: "basic",
    steps: 90,
    w: [50, 10, 6, 5, 6, 4, 3, 0, 8, 4, 2, 2, 6, 0, 1, 0, 1, 8, 3, 0, 0],
    peg: 15,
    expiry: 15,
    rem: 30,
    selfish: 10,
    bad: 3,
    drain: true,
    prices: 8,
    accounts: 5,
    fill_slots: false,
    dt: 10,
    quote: 0,
    view: 0,
    size: 1,
    zn: 1,
    zp: 1,
    orders: 0,
    events: 0,
};

pub fn profile(name: &str) -> Profile {
    let b = BASE;
    match name {
        "basic" => b,
        "peg" => Profile {
            name: "peg",
            peg: 65,
            expiry: 10,
            w: [50, 12, 2, 6, 6, 3, 2, 0, 8, 2, 1, 1, 4, 0, 1, 0, 0, 6, 14, 0, 0],
            ..b
        },
        "expiry" => Profile {
            name: "expiry",
            expiry: 75,
            peg: 30,
            dt: 6,
            w: [60, 8, 6, 5, 3, 2, 1, 0, 8, 3, 1, 1, 3, 0, 1, 0, 0, 18, 3, 0, 0],
            ..b
        },
        "self" => Profile {
            name: "self",
            selfish: 70,
            peg: 25,
            accounts: 3,
            w: [60, 6, 8, 6, 3, 2, 1, 0, 10, 2, 1, 1, 5, 0, 1, 0, 0, 5, 4, 0, 0],
            ..b
        },
        "crank" => Profile {
            name: "crank",
            rem: 25,
            expiry: 30,
            w: [55, 15, 4, 3, 3, 2, 2, 0, 14, 16, 0, 0, 3, 0, 1, 0, 0, 8, 2, 0, 0],
            ..b
        },
        "cancel" => Profile {
            name: "cancel",
            w: [50, 10, 6, 12, 16, 12, 12, 0, 5, 2, 1, 1, 4, 0, 0, 0, 2, 5, 3, 0, 0],
            ..b
        },
        "funds" => Profile {
            name: "funds",
            w: [45, 12, 4, 3, 4, 2, 2, 0, 10, 3, 8, 8, 18, 0, 5, 0, 4, 4, 2, 3, 0],
            ..b
        },
        "batch" => Profile {
            name: "batch",
            w: [25, 8, 40, 25, 2, 2, 1, 0, 8, 2, 2, 1, 5, 0, 0, 0, 0, 5, 3, 0, 0],
            selfish: 25,
            ..b
        },
        "slots" => Profile {
            name: "slots",
            fill_slots: true,
            accounts: 2,
            steps: 150,
            w: [80, 2, 5, 2, 3, 1, 1, 0, 2, 1, 0, 0, 1, 0, 0, 0, 0, 1, 1, 0, 0],
            ..b
        },
        "expired" => Profile {
            name: "expired",
            w: [30, 8, 4, 3, 6, 4, 4, 8, 8, 3, 3, 3, 6, 10, 4, 2, 2, 6, 3, 3, 4],
            bad: 12,
            ..b
        },
        "auth" => Profile {
            name: "auth",
            w: [25, 8, 6, 6, 8, 6, 6, 5, 8, 5, 3, 3, 12, 8, 6, 2, 8, 4, 2, 4, 3],
            bad: 35,
            ..b
        },
        // books whose orders are mostly live and crossing, for long matches
        "deep" => Profile {
            name: "deep",
            steps: 120,
            rem: 60,
            expiry: 25,
            prices: 5,
            accounts: 6,
            w: [70, 14, 3, 1, 1, 1, 0, 0, 6, 4, 0, 0, 1, 0, 0, 0, 0, 8, 3, 0, 0],
            ..b
        },
        "quote" => Profile {
            name: "quote",
            steps: 110,
            peg: 30,
            expiry: 45,
            accounts: 6,
            quote: 60,
            w: [70, 8, 3, 1, 1, 1, 0, 0, 6, 2, 0, 0, 1, 0, 0, 0, 0, 10, 6, 0, 0],
            ..b
        },
        // what a client sees and does
        "seen" => Profile {
            name: "seen",
            peg: 15,
            expiry: 40,
            view: 40,
            w: [60, 12, 4, 2, 3, 2, 2, 1, 10, 6, 3, 2, 5, 0, 1, 0, 2, 12, 2, 2, 0],
            ..b
        },
        "used" => Profile {
            name: "used",
            peg: 10,
            bad: 8,
            view: 5,
            w: [50, 10, 8, 6, 10, 6, 5, 3, 8, 10, 4, 4, 10, 3, 3, 1, 4, 6, 2, 3, 1],
            ..b
        },
        // amounts near the end of the range; fees come out even, so that everything is a multiple
        "huge" => Profile {
            name: "huge",
            size: 25,
            zn: 1 << 33,
            w: [50, 10, 8, 5, 4, 3, 2, 0, 8, 4, 4, 4, 8, 0, 2, 0, 0, 6, 3, 0, 0],
            ..b
        },
        // prices beyond 32 bits
        "dear" => Profile {
            name: "dear",
            peg: 40,
            zp: 1 << 33,
            w: [50, 12, 0, 6, 6, 3, 2, 0, 8, 2, 1, 1, 4, 0, 1, 0, 0, 6, 10, 0, 0],
            ..b
        },
        // a side of the book at its capacity
        "full" => Profile {
            name: "full",
            steps: 28,
            accounts: 24,
            orders: 512,
            peg: 30,
            expiry: 20,
            prices: 9,
            w: [80, 3, 6, 4, 6, 2, 0, 0, 2, 1, 0, 0, 1, 0, 0, 0, 0, 6, 6, 0, 0],
            drain: false,
            ..b
        },
        // the event heap at its capacity
        "flood" => Profile {
            name: "flood",
            steps: 40,
            events: 600,
            w: [50, 20, 4, 2, 4, 2, 1, 0, 6, 10, 0, 0, 4, 0, 0, 0, 0, 4, 2, 0, 0],
            drain: true,
            ..b
        },
        _ => panic!("unknown profile {name}"),
    }
}

pub const ALL: [&str; 16] = [
    "basic", "peg", "expiry", "self", "crank", "cancel", "funds", "batch", "slots", "expired", "auth", "deep", "huge", "dear", "full",
    "flood",
];

/// Writes an execution: the first line holds the whole state, the others what changed.
pub struct Tracer {
    out: BufWriter<std::fs::File>,
    last: Value,
    pub lines: usize,
}

impl Tracer {
    pub fn create(path: &str) -> Tracer {
        Tracer {
            out: BufWriter::new(std::fs::File::create(path).unwrap()),
            last: Value::Null,
            lines: 0,
        }
    }

    /// Makes the next line start from state `s`.
    pub fn rebase(&mut self, s: &Value) {
        self.last = s.clone();
    }

    pub fn line(&mut self, mut l: Value, s: &Value) {
        let mut d = serde_json::Map::new();
        let mut oo = vec![];
        for (k, v) in s.as_object().unwrap() {
            if self.last.get(k) == Some(v) {
                continue;
            }
            match (k.as_str(), self.last.get(k)) {
                ("oos", Some(old)) if old.as_array().unwrap().len() == v.as_array().unwrap().len() => {
                    for (i, x) in v.as_array().unwrap().iter().enumerate() {
                        if old[i] != *x {
                            oo.push(json!({"k": i + 1, "v": x}));
                        }
                    }
                }
                _ => {
                    d.insert(k.clone(), v.clone());
                }
            }
        }
        // never an empty record
        d.insert("t".into(), s["t"].clone());
        l["d"] = Value::Object(d);
        l["do"] = Value::Array(oo);
        writeln!(self.out, "{l}").unwrap();
        self.last = s.clone();
        self.lines += 1;
    }

    pub fn finish(mut self) -> usize {
        self.out.flush().unwrap();
        self.lines
    }
}

/// Amounts no state of these small worlds can hold.
fn absurd(s: &Value) -> bool {
    let far = |v: &Value| v.as_i64().map_or(true, |x| x.abs() > 1_000_000_000);
    let deep = |o: &Value, ks: &[&str]| ks.iter().any(|k| far(&o[*k]));
    deep(s, &["vb", "vq"])
        || deep(&s["m"], &["seq", "facc", "fref", "rracc", "favail", "mvol", "tvol", "bdt", "qdt", "ml", "mf", "tf"])
        || s["oos"].as_array().unwrap().iter().any(|o| deep(o, &["bb", "ab", "bf", "qf", "lf", "rr", "pen", "mv", "tv", "bq"]))
        || ["bids", "asks", "heap"]
            .iter()
            .any(|k| s[*k].as_array().unwrap().iter().any(|o| far(&o["q"]) || far(&o["seq"])))
        || s["heap"].as_array().unwrap().iter().any(|o| far(&o["px"]))
}

/// Fills in what an action leaves out.
pub fn complete(a: &mut Value) {
    for (k, d) in [("ad", json!(0)), ("rem", json!([])), ("sg", json!(1)), ("m", json!(0)), ("oo", json!(0)), ("must", json!(0))] {
        if a.get(k).is_none() {
            a[k] = d;
        }
    }
}

/// Executes an action and records it; no state if the accounts make no sense any more.
pub fn perform(w: &mut World, mut a: Value, pre: &Value, out: &mut Tracer, back: bool) -> (bool, Option<Value>) {
    complete(&mut a);
    watch::step(|| a.to_string());
    let (ok, ret, err) = w.act(&a);
    let a = w.did.take().unwrap_or(a);
    let mut l = json!({"a": a, "ok": ok, "ret": ret, "err": err, "lg": w.lg});
    if back {
        l["bk"] = json!(1);
        out.rebase(pre);
    }
    let s = w.state(0).and_then(|s| if absurd(&s) { Err(format!("absurd amounts: {s}")) } else { Ok(s) });
    match s {
        Ok(s) => {
            out.line(l, &s);
            (ok, Some(s))
        }
        Err(e) => {
            l["broken"] = json!(e);
            out.line(l, pre);
            (ok, None)
        }
    }
}

/// Runs `f`, which writes `path`; should the program not even allow the preparations, that is recorded.
pub fn guarded(path: &str, f: impl FnOnce() -> usize) -> usize {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(n) => n,
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let a = json!({"op": "init", "m": 0, "id": "preparation"});
            let mut f = std::fs::File::create(path).unwrap();
            writeln!(f, "{}", json!({"a": a, "ok": true, "ret": 0, "err": "", "d": {"t": 0}, "do": []})).unwrap();
            writeln!(f, "{}", json!({"a": a, "ok": false, "ret": 0, "err": msg, "broken": msg, "d": {"t": 0}, "do": []})).unwrap();
            2
        }
    }
}

/// A market as a specification describes it.
pub fn setup(c: &Value) -> World {
    watch::step(|| "the preparations".into());
    let mut w = World::new();
    let g = |k: &str| c["cfg"][k].as_i64().unwrap();
    let cfg = Cfg {
        qls: g("qls"),
        bls: g("bls"),
        mf: g("mf"),
        tf: g("tf"),
        exp: if g("exp") == 0 { 0 } else { T0 + g("exp") },
        orc: g("orc") as usize,
        staleness: if g("stale") < 0 { None } else { Some(g("stale") as u32) },
        oo_admin: g("ooadm") != 0,
        ce_admin: g("ceadm") != 0,
        cm_admin: g("cmadm") != 0,
        wallet: g("wallet") as u64,
        ..Cfg::default()
    };
    w.add_market(&cfg).expect("market");
    for x in c["accts"].as_array().unwrap() {
        let who = n(x, "ow") as usize;
        if w.rt.get(&w.indexer(who)).data.is_empty() {
            w.create_indexer(who).expect("indexer");
        }
        let dl = n(x, "dl") as usize;
        w.create_ooa(who, 0, if dl == 0 { None } else { Some(dl) }).expect("ooa");
    }
    w
}

/// Executes every action of a specification's universe in each of the given states.
///
/// `spec`: {setups: [{cfg, accts, prefix, s0}], acts}; a path is [setup, action, action, ..] by
/// position from 1. Writes DIR/n.ndjson for `n` in `nos`.
pub fn expand(spec: &Value, paths: &[Vec<usize>], dir: &str, mut no: u64, per_file: usize, looking: bool) -> (u64, usize) {
    let acts = spec["acts"].as_array().unwrap();
    let mut lines = 0;
    let mut bases: std::collections::HashMap<usize, World> = Default::default();
    for chunk in paths.chunks(per_file) {
        let path = format!("{dir}/{no}.ndjson");
        lines += guarded(&path, || {
            let mut out = Tracer::create(&path);
            for p in chunk {
                let c = &spec["setups"][p[0] - 1];
                let mut fresh = false;
                let mut w = bases
                    .entry(p[0])
                    .or_insert_with(|| {
                        fresh = true;
                        setup(c)
                    })
                    .clone();
                let id = json!({"op": "init", "m": 0, "id": format!("{p:?}")});
                out.rebase(&Value::Null);
                let mut s = w.state(0).expect("state");
                let mut dead = false;
                if fresh {
                    out.line(json!({"a": id, "ok": true, "ret": 0, "err": "", "want": c["s0"]}), &s);
                    // the preparations are judged once
                    for a in c["prefix"].as_array().unwrap() {
                        match perform(&mut w, a.clone(), &s, &mut out, false).1 {
                            Some(x) => s = x,
                            None => dead = true,
                        }
                    }
                    bases.insert(p[0], w.clone());
                }
                for i in &p[1..] {
                    let mut a = acts[*i - 1].clone();
                    complete(&mut a);
                    watch::step(|| a.to_string());
                    w.act(&a);
                }
                s = match w.state(0) {
                    Ok(s) => s,
                    Err(_) => continue,
                };
                if dead || absurd(&s) {
                    continue;
                }
                out.rebase(&Value::Null);
                out.line(json!({"a": id, "ok": true, "ret": 0, "err": ""}), &s);
                if looking {
                    if n(&s["m"], "open") == 0 {
                        continue;
                    }
                    let a = json!({"op": "view", "sg": 1, "depth": 2, "lots": [1, 7, 250]});
                    perform(&mut w, a, &s, &mut out, true);
                    continue;
                }
                for a in acts {
                    let mut w2 = w.clone();
                    perform(&mut w2, a.clone(), &s, &mut out, true);
                }
            }
            out.finish()
        });
        no += 1;
    }
    (no, lines)
}

pub struct Walker {
    pub w: World,
    pub r: Rng,
    pub p: Profile,
    pub out: Tracer,
    pub s: Value,
    pub id: String,
    lastcid: i64,
}

fn n(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap()
}

impl Walker {
    pub fn new(p: Profile, seed: u64, no: u64, path: &str) -> Self {
        let mut r = Rng::new(seed, no * 1000 + p.name.len() as u64 * 7 + p.name.as_bytes()[0] as u64);
        let mut w = World::new();
        let cfg = Self::config(&mut r, &p);
        w.add_market(&cfg).expect("market");
        for i in 0..p.accounts {
            let who = i % 3 + 1;
            if w.created(who) == 0 && w.rt.get(&w.indexer(who)).data.is_empty() {
                w.create_indexer(who).expect("indexer");
            }
            let dl = if r.pct(25) { Some(4) } else { None };
            w.create_ooa(who, 0, dl).expect("ooa");
        }
        Self::crowd(&mut w, &mut r, &p);
        let id = format!("{}/{}/{}", p.name, seed, no);
        let mut me = Walker {
            w,
            r,
            p,
            out: Tracer::create(path),
            s: Value::Null,
            id,
            lastcid: 0,
        };
        me.s = me.w.state(0).unwrap();
        let c = json!({"op": "init", "m": 0, "id": me.id});
        me.emit(&c, true, json!(0), "");
        me
    }

    /// Fills the book and the heap; how is of no interest, what results is where the walk starts.
    fn crowd(w: &mut World, r: &mut Rng, p: &Profile) {
        let ad = if w.m[0].cfg.oo_admin { OO_ADMIN } else { 0 };
        let place = |w: &mut World, oo: usize, sd: i64, pg: i64, px: i64, mb: i64, exp: i64| {
            let mut a = json!({"op": "place", "sg": w.ooas[oo].2, "oo": oo + 1, "ad": ad, "sd": sd, "pg": pg, "px": px,
                "plim": if sd == 0 { 60 } else { 1 }, "mb": mb, "mq": 10_000, "cid": oo, "ty": 0, "exp": exp, "stp": 0, "lim": 5});
            complete(&mut a);
            w.act(&a).0
        };
        let sd = r.r(0, 1);
        let away = if sd == 0 { -1 } else { 1 };
        let pegs = r.of(&[0, 30, 100]);
        for i in 0..p.orders - r.r(0, 2) {
            let pg = (w.m[0].cfg.orc > 0 && r.pct(pegs)) as i64;
            let px = if pg == 1 { away * r.r(0, 9) } else { 10 + away * r.r(0, 8) };
            let exp = if r.pct(p.expiry) { w.now() + r.r(1, 60) } else { 0 };
            place(w, i as usize % w.ooas.len(), sd, pg, px, 1, exp);
        }
        for i in 0..p.events - r.of(&[0, 0, 1, 3]) * (p.events / 600) {
            let k = w.ooas.len();
            if i % 100 == 0 {
                place(w, i as usize / 100 % k, sd, 0, 10, 110, 0);
            }
            place(w, r.r(0, k as i64 - 1) as usize, 1 - sd, 0, 10, 1, 0);
        }
    }

    pub fn config(r: &mut Rng, p: &Profile) -> Cfg {
        let (mf, tf) = match r.r(0, 9) {
            0 => (0, 0),
            1 => (0, 400),
            2 => (-200, 400),
            3 => (-400, 400),
            4 => (200, 400),
            5 => (1000, 2500),
            6 => (-10_000, 30_000),
            7 => (50_000, 70_000),
            8 => (r.r(-999, 999), r.r(1000, 40_000)),
            _ => (r.r(1, 300_000), r.r(0, 300_000)),
        };
        let qls = r.of(&[1, 7, 10, 10, 33, 100]);
        let bls = r.of(&[1, 3, 10, 100, 100, 250]);
        let (mf, tf, qls, bls) = match p.name {
            "huge" => (r.of(&[-1000, 0, 1000, 2000]), r.of(&[1000, 2000, 5000]), 1000, 1000),
            "dear" => (0, 0, qls, qls * r.of(&[1, 2, 10])),
            "seen" => (mf, tf, qls, r.of(&[1, 10, 100, 250])),
            _ => (mf, tf, qls, bls),
        };
        let mut cfg = Cfg {
            qls,
            bls,
            mf,
            tf,
            exp: if r.pct(15) || (p.name == "expired" && r.pct(50)) { T0 + r.r(5, 200) } else { 0 },
            orc: r.of(&[0, 1, 1, 1, 2]).max(if p.peg > 30 { 1 } else { 0 }).min(if p.zp > 1 { 1 } else { 2 }),
            staleness: if r.pct(30) { Some(r.r(0, 60) as u32) } else { None },
            oo_admin: r.pct(15),
            ce_admin: r.pct(15),
            cm_admin: p.drain || r.pct(70),
            wallet: if r.pct(15) { (r.r(500, 20_000) * p.size) as u64 } else { 3_000_000 * p.size as u64 },
            zn: p.zn,
            zp: p.zp,
            zc: p.zp,
            ..Cfg::default()
        };
        if p.view > 0 {
            if r.pct(25) {
                cfg.orc = 0;
            }
            // oracle prices are given for equal decimals
            cfg.quote_dec = r.of(&[0, 3, 6]);
            cfg.base_dec = if cfg.orc == 0 { r.of(&[0, 2, 6, 9]) } else { cfg.quote_dec };
        }
        cfg
    }

    pub fn emit(&mut self, a: &Value, ok: bool, ret: Value, err: &str) {
        self.out.line(json!({"a": a, "ok": ok, "ret": ret, "err": err}), &self.s);
    }

    pub fn step(&mut self, a: Value) -> bool {
        let (ok, s) = perform(&mut self.w, a, &self.s, &mut self.out, false);
        match s {
            Some(s) => self.s = s,
            None => {
                // The accounts no longer describe a market: recorded as such, the walk ends.
                self.p.steps = 0;
                return false;
            }
        }
        ok
    }

    fn oracle_lots(&self) -> i64 {
        let o = &self.s["orc"];
        let (q, b) = (n(&self.s["m"], "qls").max(1), n(&self.s["m"], "bls"));
        match n(o, "n") {
            0 => 10,
            1 => n(o, "pa") * b / q,
            _ => n(o, "pa") * b / (n(o, "pb").max(1) * q),
        }
    }

    fn mid(&self) -> i64 {
        self.oracle_lots().clamp(3, 60)
    }

    /// An oracle price giving about `lots`.
    fn price_for(&self, lots: i64) -> i64 {
        let (q, b) = (n(&self.s["m"], "qls"), n(&self.s["m"], "bls").max(1));
        (lots * q + b - 1) / b
    }

    fn busiest(&self) -> i64 {
        let l = self.s["oos"].as_array().unwrap();
        (0..l.len())
            .max_by_key(|i| l[*i]["oo"].as_array().unwrap().len())
            .map(|i| i as i64 + 1)
            .unwrap_or(1)
    }

    fn pick_oo(&mut self) -> i64 {
        if self.r.pct(self.p.selfish) {
            self.busiest()
        } else {
            self.r.r(1, self.w.ooas.len() as i64)
        }
    }

    /// The signer of an account: its owner, or sometimes the delegate or somebody else.
    fn signer(&mut self, oo: i64) -> i64 {
        let o = self.s["oos"][oo as usize - 1].clone();
        if self.r.pct(self.p.bad) {
            return self.r.r(1, 5);
        }
        if n(&o, "dl") != 0 && self.r.pct(30) {
            return n(&o, "dl");
        }
        n(&o, "ow")
    }

    fn admin(&mut self, k: &str) -> i64 {
        if self.r.pct(self.p.bad) {
            return self.r.of(&[0, 1, 6, 7, 8, 9]);
        }
        n(&self.s["m"], k)
    }

    fn rems(&mut self) -> Vec<i64> {
        if !self.r.pct(self.p.rem) {
            return vec![];
        }
        let k = self.w.ooas.len() as i64;
        let mut v: Vec<i64> = (1..=k).filter(|_| self.r.pct(55)).collect();
        if self.r.pct(50) {
            v.reverse();
        }
        v
    }

    fn expiry(&mut self) -> i64 {
        let t = self.w.now();
        if !self.r.pct(self.p.expiry) {
            return 0;
        }
        match self.r.r(0, 19) {
            0 => t - self.r.r(0, 3),
            1 => t + self.r.r(65_500, 70_000),
            2 => t + self.r.r(200, 1000),
            _ => t + self.r.r(1, 25),
        }
    }

    fn order(&mut self) -> Value {
        let oo = self.pick_oo();
        let sd = self.r.r(0, 1);
        let mid = self.mid();
        let has_oracle = n(&self.s["orc"], "n") > 0;
        let pg = (has_oracle && self.r.pct(self.p.peg)) as i64;
        let spread = self.p.prices;
        let mut px = (mid + self.r.r(-spread, spread) + if sd == 0 { -1 } else { 1 }).max(1);
        let mut plim = -1;
        if pg == 1 {
            px = self.r.r(-spread, spread) + if sd == 0 { -2 } else { 2 };
            let now = self.oracle_lots() + px;
            plim = (now + if sd == 0 { self.r.r(-2, 10) } else { self.r.r(-10, 2) }).max(1);
        }
        let mut ty = if pg == 1 { self.r.of(&[0, 0, 0, 2, 4]) } else { self.r.of(&[0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5]) };
        let mut mb = if self.r.pct(10) { self.r.r(0, 60) } else { self.r.r(1, 12) } * self.p.size;
        let mut mq = match self.r.r(0, 5) {
            0 => self.r.r(0, 300) * self.p.size,
            1 => mb * px.max(1),
            2 => mb * px.max(1) + self.r.r(0, 12),
            3 if self.p.size == 1 => BIG,
            _ if self.p.view > 0 => BIG,
            _ => self.r.r(1000, 100_000),
        };
        let mut lim = if self.r.pct(20) { self.r.r(0, 3) } else { self.r.r(4, 40) };
        if self.r.pct(self.p.bad) {
            match self.r.r(0, 7) {
                0 => px = if pg == 1 { BIG } else { self.r.of(&[0, -1, BIG]) },
                1 => mb = self.r.of(&[-1, 0]),
                2 => mq = self.r.of(&[-1, 0]),
                3 => {
                    if n(&self.s["m"], "bls") > 1 {
                        mb = BIG
                    }
                }
                4 => {
                    if n(&self.s["m"], "qls") > 2 {
                        mq = BIG - 1
                    }
                }
                5 if pg == 1 => plim = self.r.of(&[0, -1]),
                6 if pg == 1 => ty = self.r.of(&[1, 3, 5]),
                _ => lim = 0,
            }
        }
        if px == BIG && mq == BIG {
            mq = 1000;
        }
        if self.p.zp > 1 && ty == 4 {
            // "one tick better" does not scale
            ty = 2;
        }
        self.lastcid = self.r.r(0, 40);
        json!({"op": "place", "sg": self.signer(oo), "oo": oo, "ad": self.admin("ooadm"), "sd": sd, "pg": pg, "px": px, "plim": plim,
            "mb": mb, "mq": mq, "cid": self.lastcid, "ty": ty, "exp": self.expiry(),
            "stp": self.r.of(&[0, 0, 1, 1, 2]), "lim": lim, "rem": self.rems()})
    }

    pub fn action(&mut self) -> Value {
        let names = [
            "place", "take", "multi", "edit", "cancel", "ccid", "call", "prune", "consume", "consumeg", "deposit", "refill",
            "settle", "settlex", "sweep", "setexp", "setdel", "tick", "orc", "closeooa", "closem",
        ];
        let w = self.p.w;
        let op = names[self.r.w(&w)];
        let oo = self.pick_oo();
        match op {
            "place" => self.order(),
            "take" => {
                let mut a = self.order();
                a["op"] = json!("take");
                a["sg"] = json!(self.r.of(&[1, 2, 4, 5]));
                a["ty"] = json!(if self.r.pct(self.p.bad) { self.r.r(0, 5) } else { self.r.of(&[1, 1, 3, 5]) });
                if n(&a, "pg") == 1 {
                    a["px"] = json!((self.mid() + self.r.r(-4, 4)).max(1));
                    a["pg"] = json!(0);
                }
                if self.r.pct(70) {
                    let m = self.mid();
                    a["px"] = json!((m + if n(&a, "sd") == 0 { 6 } else { -6 }).max(1));
                }
                a
            }
            "multi" => {
                let mid = self.mid();
                let mut side = |me: &mut Self, s: i64| -> Vec<Value> {
                    let k = me.r.of(&[0, 1, 1, 2, 3]);
                    (0..k)
                        .map(|_| {
                            let px = (mid + s * me.r.r(-2, 6)).max(if me.r.pct(me.p.bad) { 0 } else { 1 });
                            let mq = match me.r.r(0, 3) {
                                0 => me.r.r(0, 100) * me.p.size,
                                1 if s > 0 && me.p.size == 1 => BIG,
                                _ => me.r.r(20, 2000) * me.p.size,
                            };
                            let mq = if me.r.pct(me.p.bad) { -1 } else { mq };
                            json!({"px": px, "mq": mq, "exp": me.expiry()})
                        })
                        .collect()
                };
                let bids = side(self, -1);
                let asks = side(self, 1);
                json!({"op": "multi", "oo": oo, "sg": self.signer(oo), "ad": self.admin("ooadm"), "can": self.r.r(0, 1),
                    "ty": self.r.of(&[0, 0, 0, 2, 4, 1, 3, 5]), "bids": bids, "asks": asks,
                    "lim": self.r.of(&[0, 1, 5, 10, 30]), "rem": self.rems()})
            }
            "edit" => {
                let mut a = self.order();
                let oo = n(&a, "oo");
                let l = self.s["oos"][oo as usize - 1]["oo"].as_array().unwrap().clone();
                let mut esz = self.r.r(0, 12);
                let mut ecid = self.r.r(0, 40);
                if !l.is_empty() && self.r.pct(85) {
                    let o = self.r.of(&l);
                    ecid = n(&o, "cid");
                    let side = if n(&o, "sd") == 0 { "bids" } else { "asks" };
                    let q = self.s[side].as_array().unwrap().iter().find(|b| n(b, "seq") == n(&o, "seq")).map(|b| n(b, "q")).unwrap_or(0);
                    esz = (q + self.r.of(&[0, 0, 0, 1, 2, 5, -1])).max(0);
                }
                if self.r.pct(self.p.bad) {
                    esz = -1;
                }
                a["op"] = json!("edit");
                a["ecid"] = json!(ecid);
                a["esz"] = json!(esz);
                a
            }
            "cancel" => {
                let l = self.s["oos"][oo as usize - 1]["oo"].as_array().unwrap().clone();
                let mut a = json!({"op": "cancel", "oo": oo, "sg": self.signer(oo), "sd": 0, "tr": 0, "pd": 1, "seq": self.r.r(-1, 5)});
                if !l.is_empty() && self.r.pct(90) {
                    let o = self.r.of(&l);
                    for k in ["sd", "tr", "pd", "seq"] {
                        a[k] = o[k].clone();
                    }
                }
                if self.r.pct(self.p.bad) {
                    // somebody else's order, or an id that is nearly right
                    let side = self.r.of(&["bids", "asks"]);
                    let b = self.s[side].as_array().unwrap().clone();
                    if !b.is_empty() {
                        let o = self.r.of(&b);
                        a["sd"] = json!((side == "asks") as i64);
                        a["tr"] = o["pg"].clone();
                        a["pd"] = o["pd"].clone();
                        a["seq"] = o["seq"].clone();
                        if self.r.pct(30) {
                            a["sd"] = json!(self.r.r(0, 1));
                        }
                    }
                }
                a
            }
            "ccid" => {
                let l = self.s["oos"][oo as usize - 1]["oo"].as_array().unwrap().clone();
                let cid = if !l.is_empty() && self.r.pct(80) { n(&self.r.of(&l), "cid") } else { self.r.r(0, 40) };
                json!({"op": "ccid", "oo": oo, "sg": self.signer(oo), "cid": cid})
            }
            "call" => json!({"op": "call", "oo": oo, "sg": self.signer(oo), "sd": self.r.r(-1, 1), "lim": self.r.of(&[0, 1, 2, 3, 8, 255])}),
            "prune" => json!({"op": "prune", "oo": oo, "ad": self.admin("cmadm"), "lim": self.r.of(&[0, 1, 2, 8, 255])}),
            "consume" => {
                let rem = if self.r.pct(70) { (1..=self.w.ooas.len() as i64).collect() } else { self.rems() };
                json!({"op": "consume", "ad": self.admin("ceadm"), "lim": self.r.of(&[0, 1, 2, 3, 8, 9, 30]), "rem": rem})
            }
            "consumeg" => {
                let h = self.s["heap"].as_array().unwrap().clone();
                let k = self.r.of(&[0, 1, 2, 3, 3, 5, 9]);
                let mut sl: Vec<i64> = (0..k)
                    .map(|_| if h.is_empty() || self.r.pct(15) { self.r.r(0, 20) } else { n(&self.r.of(&h), "sl") })
                    .collect();
                if self.r.pct(self.p.bad) {
                    sl.push(self.r.of(&[600, 700, 599]));
                }
                let rem = if self.r.pct(60) { (1..=self.w.ooas.len() as i64).collect() } else { self.rems() };
                json!({"op": "consumeg", "ad": self.admin("ceadm"), "sl": sl, "rem": rem})
            }
            "deposit" | "refill" => {
                let b = self.r.of(&[0, 1, 300, 5000, 12_345]);
                let q = self.r.of(&[0, 1, 300, 5000, 54_321]);
                let o = self.s["oos"][oo as usize - 1].clone();
                let (b, q) = if op == "refill" && self.r.pct(40) {
                    (n(&o, "bf") + self.r.r(-1, 5), n(&o, "qf") + self.r.r(-1, 5))
                } else {
                    (b, q)
                };
                let (b, q) = (b.max(0), q.max(0));
                let (b, q) = if self.r.pct(self.p.bad) { (b, 900_000_000) } else { (b, q) };
                json!({"op": op, "oo": oo, "sg": self.r.r(1, 5), "b": b, "q": q})
            }
            "settle" => {
                let ow = n(&self.s["oos"][oo as usize - 1], "ow");
                let d = |me: &mut Self| if me.r.pct(20) { me.r.r(1, 5) } else { ow };
                json!({"op": "settle", "oo": oo, "sg": self.signer(oo), "db": d(self), "dq": d(self), "ref": self.r.of(&[0, 0, 5, 6])})
            }
            "settlex" => {
                let ow = n(&self.s["oos"][oo as usize - 1], "ow");
                let d = |me: &mut Self| if me.r.pct(me.p.bad) { me.r.r(1, 5) } else { ow };
                json!({"op": "settlex", "oo": oo, "sg": self.r.r(1, 5), "ad": self.admin("cmadm"), "db": d(self), "dq": d(self), "ref": self.r.of(&[0, 0, 5, 6])})
            }
            "sweep" => json!({"op": "sweep", "ad": self.admin("feeadm"), "dq": self.r.r(1, 6)}),
            "setexp" => json!({"op": "setexp", "ad": self.admin("cmadm")}),
            "setdel" => json!({"op": "setdel", "oo": oo, "sg": self.signer(oo), "dl": self.r.of(&[0, 4, 5, 1, 2])}),
            "tick" => {
                let dt = self.r.of(&[1, 1, 2, self.p.dt, self.r.0 as i64 % 5 + 5]).clamp(0, 100);
                let dt = if self.r.pct(4) { self.r.of(&[300, 70_000]) } else { dt };
                json!({"op": "tick", "dt": dt, "ds": self.r.of(&[0, 1, 2, 20])})
            }
            "orc" => {
                let which = if n(&self.s["orc"], "n") == 2 && self.r.pct(30) { 2 } else { 1 };
                if which == 2 {
                    return json!({"op": "orc", "which": 2, "p": self.r.of(&[1, 2, 4])});
                }
                let cur = self.oracle_lots();
                let to = (cur + self.r.of(&[-8, -4, -2, -1, 0, 1, 2, 4, 8])).max(0);
                let to = if self.r.pct(15) { self.r.r(0, 30) } else { to };
                let pb = if n(&self.s["orc"], "n") == 2 { n(&self.s["orc"], "pb").max(1) } else { 1 };
                json!({"op": "orc", "which": 1, "p": self.price_for(to).min(200_000) * pb})
            }
            "closeooa" => json!({"op": "closeooa", "oo": oo, "sg": self.signer(oo)}),
            "closem" => json!({"op": "closem", "ad": self.admin("cmadm")}),
            _ => unreachable!(),
        }
    }

    /// Winds the market down; every step has to succeed.
    /// Tries to close the market before its turn; whether that worked.
    fn early(&mut self, percent: i64) -> bool {
        if !self.r.pct(percent) {
            return false;
        }
        let cm = n(&self.s["m"], "cmadm");
        self.step(json!({"op": "closem", "ad": cm})) && n(&self.s["m"], "open") == 0
    }

    pub fn drain(&mut self) {
        if n(&self.s["m"], "open") == 0 || n(&self.s["m"], "cmadm") == 0 {
            return;
        }
        let cm = n(&self.s["m"], "cmadm");
        let exp = n(&self.s["m"], "exp");
        if !(exp != 0 && exp < self.w.now()) {
            self.step(json!({"op": "setexp", "ad": cm, "must": 1}));
        }
        let k = self.w.ooas.len() as i64;
        let all: Vec<i64> = (1..=k).collect();
        let live: Vec<i64> = all.iter().filter(|i| n(&self.s["oos"][**i as usize - 1], "ex") == 1).cloned().collect();
        for i in &live {
            let o = self.s["oos"][*i as usize - 1].clone();
            if o["oo"].as_array().unwrap().is_empty() {
                continue;
            }
            if self.r.pct(50) {
                self.step(json!({"op": "prune", "oo": i, "ad": cm, "lim": 255, "must": 1}));
            } else {
                self.step(json!({"op": "call", "oo": i, "sg": o["ow"], "sd": -1, "lim": 255, "must": 1}));
            }
        }
        if self.early(25) {
            return;
        }
        let ce = n(&self.s["m"], "ceadm");
        for _ in 0..100 {
            if self.s["heap"].as_array().unwrap().is_empty() {
                break;
            }
            if !self.step(json!({"op": "consume", "ad": ce, "lim": 8, "rem": live, "must": 1})) {
                break;
            }
        }
        for i in &live {
            if self.early(20) {
                return;
            }
            let o = self.s["oos"][*i as usize - 1].clone();
            let rf = self.r.of(&[0, 6]);
            if self.r.pct(50) {
                self.step(json!({"op": "settlex", "oo": i, "sg": 5, "ad": cm, "db": o["ow"], "dq": o["ow"], "ref": rf, "must": 1}));
            } else {
                self.step(json!({"op": "settle", "oo": i, "sg": o["ow"], "db": o["ow"], "dq": o["ow"], "ref": rf, "must": 1}));
            }
        }
        if self.early(60) {
            return;
        }
        let fa = n(&self.s["m"], "feeadm");
        self.step(json!({"op": "sweep", "ad": fa, "dq": 6, "must": 1}));
        for i in &live {
            let o = self.s["oos"][*i as usize - 1].clone();
            self.step(json!({"op": "closeooa", "oo": i, "sg": o["ow"], "must": 1}));
        }
        self.step(json!({"op": "closem", "ad": cm, "must": 1}));
    }

    pub fn run(&mut self) {
        let mut i = 0;
        while i < self.p.steps {
            if self.r.pct(self.p.quote) && n(&self.s["m"], "open") == 1 {
                let sd = self.r.r(0, 1);
                let (q, b) = (n(&self.s["m"], "qls"), n(&self.s["m"], "bls"));
                let lots = self.r.of(&[1, 3, 8, 25]);
                let amt = if sd == 0 { self.r.r(0, lots * q * (self.mid() + 4)) } else { self.r.r(0, lots * b) };
                self.step(json!({"op": "quote", "sd": sd, "sg": 5, "amt": amt}));
            }
            if self.r.pct(self.p.view) && n(&self.s["m"], "open") == 1 {
                let lots = vec![1, self.r.r(2, 40), self.r.r(41, 1000)];
                let (sg, depth) = (self.r.r(1, 5), self.r.of(&[1, 2, 3, 20]));
                self.step(json!({"op": "view", "sg": sg, "depth": depth, "lots": lots}));
            }
            let a = self.action();
            self.step(a);
            i += if n(&self.s["m"], "open") == 1 { 1 } else { 10 };
        }
        if self.p.drain && self.p.steps > 0 {
            self.drain();
        }
    }
}
