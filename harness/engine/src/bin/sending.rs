//! Transactions the TypeScript client sends, over a node that answers when it is let.
#![allow(dead_code)]
#[path = "../abi.rs"]
mod abi;
#[path = "../parts.rs"]
mod parts;
#[path = "../rng.rs"]
mod rng;
#[path = "../watch.rs"]
mod watch;
#[path = "../rt.rs"]
mod rt;
#[path = "../tsc.rs"]
mod tsc;
#[path = "../world.rs"]
mod world;

use parts::Part;
use serde_json::{json, Value};

/// What happened so far; the client goes through it again for each question.
#[derive(Clone)]
struct Sending {
    cfg: Value,
    acts: Vec<Value>,
}

impl Part for Sending {
    fn init(s: &Value) -> Self {
        Sending { cfg: s["cfg"].clone(), acts: vec![] }
    }

    fn act(&mut self, v: &Value) -> Value {
        if v["op"] != "look" {
            self.acts.push(v.clone());
        }
        let r = tsc::put_and_ask(vec![], vec![], json!({"op": "sending", "cfg": self.cfg, "acts": self.acts}));
        if r.get("err").is_some() {
            return json!({"broken": r["err"]});
        }
        r
    }

    fn random(&mut self, r: &mut rng::Rng) -> Value {
        let q = r.r(1, 2);
        match r.r(0, 9) {
            0..=2 => json!({"op": "begin", "r": q, "p": {"n": r.r(1, 5), "fee": r.r(-2, 9), "ex": r.r(0, 3),
                "alts": r.r(0, 2), "given": if r.pct(60) { 0 } else { r.r(1, 2) }, "com": r.r(0, 3)}}),
            3..=4 => json!({"op": "hash", "r": q, "v": if r.pct(10) { 0 } else { r.r(1, 8) }}),
            5..=6 => json!({"op": "take", "r": q, "v": !r.pct(10) as i64}),
            _ => json!({"op": "end", "r": q, "v": if r.pct(70) { "ok" } else if r.pct(70) { "err" } else { "lost" }}),
        }
    }
}

fn main() {
    parts::main::<Sending>();
}
