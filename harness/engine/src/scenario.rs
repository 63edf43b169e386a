//! A scripted execution with the values it should show.
use crate::walk;
use serde_json::{json, Value};

fn look(s: &Value, path: &str) -> Value {
    let mut v = s.clone();
    for p in path.split('.') {
        v = match (p, p.parse::<usize>()) {
            ("len", _) => json!(v.as_array().map_or(0, |a| a.len())),
            (_, Ok(i)) => v[i].clone(),
            _ => v[p].clone(),
        };
    }
    v
}

/// {cfg, accts, steps: [{a: action, see: [path..], want: [value..]}]}; a path is `ok`, `lg` (the logs), `ret`,
/// leads into `ret`, or into the state. With `record` fills in `want`, else returns what differs.
pub fn run(sc: &mut Value, record: bool) -> Vec<String> {
    let mut wrong = vec![];
    let mut w = walk::setup(sc);
    for (i, st) in sc["steps"].as_array_mut().unwrap().iter_mut().enumerate() {
        walk::complete(&mut st["a"]);
        let (ok, ret, err) = w.act(&st["a"]);
        let s = match w.state(0) {
            Ok(s) => s,
            Err(e) => {
                wrong.push(format!("step {}: unreadable state: {e}", i + 1));
                break;
            }
        };
        let see = st["see"].as_array().cloned().unwrap_or_default();
        let got: Vec<Value> = see
            .iter()
            .map(|p| match p.as_str().unwrap() {
                "ok" => json!(ok),
                "ret" => ret.clone(),
                "lg" => json!(w.lg),
                p if p.starts_with("ret.") => look(&ret, &p[4..]),
                p => look(&s, p),
            })
            .collect();
        if record {
            println!("{} {} {} {:?} {}", i + 1, ok, st["a"]["op"], err, json!(got));
            st["want"] = json!(got);
        } else {
            for ((p, g), x) in see.iter().zip(&got).zip(st["want"].as_array().unwrap()) {
                if g != x {
                    wrong.push(format!("step {} {}: {} is {} and not {}", i + 1, st["a"], p, g, x));
                }
            }
        }
    }
    wrong
}
