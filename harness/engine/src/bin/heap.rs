//! The event heap, driven directly.
#![allow(dead_code)]
#[path = "../parts.rs"]
mod parts;
#[path = "../rng.rs"]
mod rng;
#[path = "../watch.rs"]
mod watch;

use openbook_v2::state::{AnyEvent, EventHeap};
use parts::{attempt, zeroed, Part};
use serde_json::{json, Value};

#[derive(Clone)]
struct Heap {
    h: Box<EventHeap>,
    next: i64,
    /// what it showed last
    list: Vec<(i64, i64)>,
    slots: Vec<i64>,
}

const PROBED: usize = 700;

/// An event whose bytes all depend on its number.
fn event(id: i64) -> AnyEvent {
    let mut e: AnyEvent = bytemuck::Zeroable::zeroed();
    let b: &mut [u8] = bytemuck::bytes_of_mut(&mut e);
    let mut r = rng::Rng::new(id as u64, 5);
    for x in b.iter_mut() {
        *x = r.r(0, 255) as u8;
    }
    b[0] = (id % 2) as u8;
    b[8..16].copy_from_slice(&id.to_le_bytes());
    e
}

fn number(e: &AnyEvent) -> i64 {
    let b = bytemuck::bytes_of(e);
    let id = i64::from_le_bytes(b[8..16].try_into().unwrap());
    if (0..1_000_000_000).contains(&id) && b == bytemuck::bytes_of(&event(id)) {
        id
    } else {
        -9
    }
}

impl Heap {
    /// How the walk and the positions differ from what they were.
    fn seen(&mut self, ok: bool, ret: i64) -> Value {
        let list = attempt(|| {
            self.h.iter().take(PROBED).map(|(e, s)| (s as i64, number(e))).collect::<Vec<_>>()
        });
        let Some(list) = list else {
            return json!({"ok": ok, "ret": ret, "broken": 1});
        };
        let head = list.iter().zip(&self.list).take_while(|(a, b)| a == b).count();
        let rest = list.len().min(self.list.len()) - head;
        let tail = list.iter().rev().zip(self.list.iter().rev()).take(rest).take_while(|(a, b)| a == b).count();
        let add: Vec<_> = list[head..list.len() - tail].iter().map(|x| json!({"sl": x.0, "id": x.1})).collect();
        let slots: Vec<i64> = (0..PROBED).map(|s| self.h.at_slot(s).map_or(-1, number)).collect();
        let sd: Vec<_> = (0..PROBED).filter(|s| slots[*s] != self.slots[*s]).map(|s| json!([s, slots[s]])).collect();
        self.list = list;
        self.slots = slots;
        json!({"ok": ok, "ret": ret, "len": self.h.len(), "full": self.h.is_full(), "empty": self.h.is_empty(),
               "front": self.h.front().map_or(-1, number), "keep": head, "tail": tail, "add": add, "slots": sd})
    }
}

impl Part for Heap {
    fn init(_: &Value) -> Self {
        let mut h: Box<EventHeap> = zeroed();
        h.init();
        Heap { h, next: 1, list: vec![], slots: vec![-1; PROBED] }
    }

    fn act(&mut self, a: &Value) -> Value {
        let before = self.h.clone();
        let r = match a["op"].as_str().unwrap() {
            "push" => {
                let id = self.next;
                self.next += 1;
                attempt(|| self.h.push_back(event(id))).map(|_| id)
            }
            "fill" => {
                // pushes all but `leave`
                let mut n = 0;
                while self.list.len() + n + (a["leave"].as_u64().unwrap() as usize) < 600 {
                    let id = self.next;
                    self.next += 1;
                    if attempt(|| self.h.push_back(event(id))).is_none() {
                        break;
                    }
                    n += 1;
                }
                Some(n as i64)
            }
            "pop" => attempt(|| self.h.pop_front().ok()).flatten().map(|e| number(&e)),
            // the i-th of the live ones, from the front or (negative) from the back
            "del" => {
                let i = a["i"].as_i64().unwrap();
                let n = self.list.len() as i64;
                let k = if i < 0 { n + i } else { i };
                let slot = if k >= 0 && k < n { self.list[k as usize].0 } else { 600 };
                attempt(|| self.h.delete_slot(slot as usize).ok()).flatten().map(|e| number(&e))
            }
            // by position
            "delat" => attempt(|| self.h.delete_slot(a["sl"].as_u64().unwrap() as usize).ok()).flatten().map(|e| number(&e)),
            "look" => Some(0),
            _ => unreachable!(),
        };
        if r.is_none() && a["op"] == "push" {
            // the runtime would discard what a panicking instruction did
            let touched = bytemuck::bytes_of(&*self.h) != bytemuck::bytes_of(&*before);
            self.h = before;
            let mut s = self.seen(false, -1);
            s["touched"] = json!(touched);
            return s;
        }
        self.seen(r.is_some(), r.unwrap_or(-1))
    }

    fn random(&mut self, r: &mut rng::Rng) -> Value {
        let n = self.list.len() as i64;
        // long climbs and descents
        let up = (self.next / 400) % 2 == 0;
        if r.pct(if up { 70 } else { 30 }) {
            return json!({"op": "push"});
        }
        match r.r(0, 9) {
            0..=3 => json!({"op": "pop"}),
            4..=7 if n > 0 => json!({"op": "del", "i": r.r(0, n - 1)}),
            8 => json!({"op": "del", "i": -1}),
            _ => json!({"op": "delat", "sl": r.of(&[0, 1, 2, 3, 598, 599, 600, 601, 650, 65535, 70000])}),
        }
    }
}

fn main() {
    parts::main::<Heap>();
}
