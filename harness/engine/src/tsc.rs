//! The TypeScript client, in a process of its own.
use crate::rt::Acct;
use crate::world::{a, World, A};
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::Mutex;
use std::time::Duration;

struct Peer {
    child: Child,
    to: ChildStdin,
    from: Receiver<String>,
    /// the accounts it knows
    told: BTreeMap<Pubkey, Acct>,
}

static PEER: Mutex<Option<Peer>> = Mutex::new(None);

fn fatal(why: &str) -> ! {
    eprintln!("the client's process: {why}");
    std::process::exit(2);
}

fn start() -> Peer {
    let here = concat!(env!("CARGO_MANIFEST_DIR"), "/../ts/serve.mjs");
    let child = Command::new("node")
        .args([here, "/repo/ts/client/src"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn();
    let mut child = child.unwrap_or_else(|e| fatal(&e.to_string()));
    let (to, lines) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
    let (tx, from) = channel();
    std::thread::spawn(move || {
        for l in lines.lines() {
            if l.map_or(true, |l| tx.send(l).is_err()) {
                break;
            }
        }
    });
    Peer { child, to, from, told: BTreeMap::new() }
}

pub fn hex(d: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(d.len() * 2);
    for b in d {
        s.push(H[(b >> 4) as usize] as char);
        s.push(H[(b & 15) as usize] as char);
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// A number that depends on the text only.
pub fn hash(s: &str) -> u64 {
    s.bytes().fold(14_695_981_039_346_656_037, |h, b| (h ^ b as u64).wrapping_mul(1_099_511_628_211)) >> 20
}

/// Has the client answer, with the accounts of this world.
pub fn ask(w: &World, q: Value) -> Value {
    let (mut put, mut gone) = (vec![], vec![]);
    {
        let mut peer = PEER.lock().unwrap();
        let p = peer.get_or_insert_with(start);
        for (k, a) in w.rt.accts.iter().filter(|(_, a)| a.lamports > 0) {
            let same = p.told.get(k).map_or(false, |b| a.lamports == b.lamports && a.owner == b.owner && a.data == b.data);
            if !same {
                put.push(json!([k.to_string(), a.owner.to_string(), a.lamports, hex(&a.data)]));
                p.told.insert(*k, a.clone());
            }
        }
        let left: Vec<Pubkey> = p.told.keys().filter(|k| w.rt.accts.get(k).map_or(true, |a| a.lamports == 0)).cloned().collect();
        for k in &left {
            p.told.remove(k);
            gone.push(k.to_string());
        }
    }
    put_and_ask(put, gone, q)
}

/// Has the client answer, after these accounts changed and those went.
pub fn put_and_ask(put: Vec<Value>, gone: Vec<String>, q: Value) -> Value {
    let mut peer = PEER.lock().unwrap();
    let p = peer.get_or_insert_with(start);
    let line = json!({"put": put, "gone": gone, "ask": q});
    if writeln!(p.to, "{line}").and_then(|_| p.to.flush()).is_err() {
        fatal("gone");
    }
    match p.from.recv_timeout(Duration::from_secs(120)) {
        Ok(l) => serde_json::from_str(&l).unwrap_or_else(|e| fatal(&e.to_string())),
        Err(RecvTimeoutError::Timeout) => {
            p.child.kill().ok();
            eprintln!("the client never returned from {}", line["ask"]);
            std::process::exit(77);
        }
        Err(RecvTimeoutError::Disconnected) => fatal("gone"),
    }
}

/// Logs, read and written again by the client.
pub fn reread(logs: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let r = put_and_ask(vec![], vec![], json!({"op": "events", "logs": logs.iter().map(|l| hex(l)).collect::<Vec<_>>()}));
    (0..logs.len()).map(|i| unhex(r["events"][i].as_str().unwrap_or_default())).collect()
}

pub struct Call {
    pub program: Pubkey,
    pub accs: Vec<A>,
    pub data: Vec<u8>,
}

/// The instructions the client answers with, if it does and those who have to sign are `may` or named by it.
pub fn calls(r: &Value, may: &[Pubkey]) -> Result<Vec<Call>, String> {
    if let Some(e) = r.get("err") {
        return Err(e.as_str().unwrap_or_default().into());
    }
    let key = |v: &Value| -> Pubkey { v.as_str().unwrap().parse().unwrap() };
    let signed = if r["signed"].is_null() { &r["signers"] } else { &r["signed"] };
    let signed: Vec<Pubkey> = signed.as_array().unwrap().iter().map(key).collect();
    let mut out = vec![];
    for i in r["ixs"].as_array().unwrap() {
        let accs: Vec<A> = i["keys"].as_array().unwrap().iter().map(|x| a("ts", key(&x[0]), x[1] == 1, x[2] == 1)).collect();
        if accs.iter().any(|x| x.s && !may.contains(&x.key) && !signed.contains(&x.key)) {
            return Err("signature missing".into());
        }
        out.push(Call { program: key(&i["program"]), accs, data: unhex(i["data"].as_str().unwrap()) });
    }
    Ok(out)
}
