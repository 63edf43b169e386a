//! One side of the book and its two order trees, driven directly.
#![allow(dead_code)]
#[path = "../parts.rs"]
mod parts;
#[path = "../rng.rs"]
mod rng;
#[path = "../watch.rs"]
mod watch;

use anchor_lang::prelude::Pubkey;
use openbook_v2::state::{
    fixed_price_data, new_node_key, oracle_pegged_price_data, BookSide, BookSideOrderTree, LeafNode, OrderTreeType, Side,
};
use parts::{attempt, zeroed, Part};
use serde_json::{json, Value};

const NEVER: i64 = 2147483647;
const BIG: i64 = 2147483647;

/// Numbers near the ends of the 64-bit range, shown near the ends of the 32-bit range.
fn show(x: i64) -> i64 {
    if x > i64::MAX - (1 << 28) {
        BIG - (i64::MAX - x)
    } else if x < i64::MIN + (1 << 28) {
        -BIG - 1 + (x - i64::MIN)
    } else {
        x
    }
}

fn wide(x: i64) -> i64 {
    if x > 1 << 30 {
        i64::MAX - (BIG - x)
    } else if x < -(1 << 30) {
        i64::MIN + (x + BIG + 1)
    } else {
        x
    }
}

fn limbs(k: u128) -> Vec<u32> {
    (0..8).map(|i| ((k >> (112 - 16 * i)) & 0xffff) as u32).collect()
}

fn key(l: &Value) -> u128 {
    l.as_array().unwrap().iter().fold(0, |a, x| a << 16 | x.as_u64().unwrap() as u128)
}

fn tree(t: i64) -> BookSideOrderTree {
    if t == 0 {
        BookSideOrderTree::Fixed
    } else {
        BookSideOrderTree::OraclePegged
    }
}

const TREES: [i64; 2] = [0, 1];

#[derive(Clone)]
struct Book {
    b: Box<BookSide>,
    next: i64,
    side: i64,
    lists: [Vec<i64>; 2],
    /// style of the random operations
    style: i64,
    keys: Vec<u128>,
    tick: i64,
}

fn leaf_id(l: &LeafNode) -> i64 {
    // every field of the leaf depends on its number
    let id = l.client_order_id as i64;
    if l.owner == owner(id) && l.owner_slot == (id % 24) as u8 {
        id
    } else {
        -9
    }
}

fn owner(id: i64) -> Pubkey {
    let mut b = [7u8; 32];
    b[..8].copy_from_slice(&id.to_le_bytes());
    Pubkey::new_from_array(b)
}

fn expiry(l: &LeafNode) -> i64 {
    if l.time_in_force == 0 {
        NEVER
    } else {
        l.timestamp as i64 + l.time_in_force as i64
    }
}

impl Book {
    /// The trees, as differences to what they were.
    fn seen(&mut self, ok: bool, ret: i64) -> Value {
        let walk = |t: i64| {
            attempt(|| {
                self.b.nodes.iter(self.b.root(tree(t))).take(2000).map(|(_, l)| leaf_id(l)).collect::<Vec<_>>()
            })
        };
        let (Some(a), Some(b)) = (walk(0), walk(1)) else {
            return json!({"ok": ok, "ret": ret, "broken": 1});
        };
        let lists = [a, b];
        let q = attempt(|| {
            let mut trees = vec![];
            for t in TREES {
                let (list, old) = (&lists[t as usize], &self.lists[t as usize]);
                let head = list.iter().zip(old).take_while(|(a, b)| a == b).count();
                let rest = list.len().min(old.len()) - head;
                let tail = list.iter().rev().zip(old.iter().rev()).take(rest).take_while(|(a, b)| a == b).count();
                let root = self.b.root(tree(t));
                let e = self.b.nodes.find_earliest_expiry(root);
                let el = e.map(|(h, _)| self.b.node(h).and_then(|n| n.as_leaf()).map_or(-9, leaf_id));
                trees.push(json!({
                    "keep": head, "tail": tail, "add": list[head..list.len() - tail],
                    "n": root.leaf_count,
                    "min": self.b.nodes.min_leaf(root).map_or(-1, |(_, l)| leaf_id(l)),
                    "max": self.b.nodes.max_leaf(root).map_or(-1, |(_, l)| leaf_id(l)),
                    "worst": self.b.nodes.find_worst(root).map_or(-1, |(_, l)| leaf_id(l)),
                    "exp": e.map_or(-1, |(_, x)| if x == u64::MAX { NEVER } else { x as i64 }),
                    "expid": el.unwrap_or(-1),
                }));
            }
            json!({"ok": ok, "ret": ret, "trees": trees, "full": self.b.is_full(), "empty": self.b.is_empty()})
        });
        self.lists = lists;
        q.unwrap_or(json!({"ok": ok, "ret": ret, "broken": 1}))
    }

    fn leaf(&mut self, a: &Value) -> LeafNode {
        let g = |k: &str| a[k].as_i64().unwrap_or(0);
        let id = self.next;
        self.next += 1;
        let k = if a["k"].is_array() {
            key(&a["k"])
        } else {
            let side = if self.side == 0 { Side::Bid } else { Side::Ask };
            let data =
                if g("tr") == 0 { fixed_price_data(wide(g("px"))).unwrap() } else { oracle_pegged_price_data(wide(g("px"))) };
            new_node_key(side, data, id as u64)
        };
        let plim = a["plim"].as_i64().unwrap_or(-1);
        LeafNode::new((id % 24) as u8, k, owner(id), a["q"].as_i64().unwrap_or(1), g("ts") as u64, g("tif") as u16, wide(plim), id as u64)
    }

    fn query(&self, a: &Value) -> Value {
        let now = a["now"].as_u64().unwrap();
        let orc = a["orc"].as_i64().unwrap();
        let o = if orc == -1 { None } else { Some(wide(orc)) };
        let walk: Vec<_> = self
            .b
            .iter_all_including_invalid(now, o)
            .take(2000)
            .map(|i| json!([leaf_id(i.node), show(i.price_lots), i.is_valid() as i64, i.handle.order_tree as i64]))
            .collect();
        let valid: Vec<_> = self.b.iter_valid(now, o).take(2000).map(|i| leaf_id(i.node)).collect();
        let best = self.b.best_price(now, o).map_or(-1, show);
        let (mut depth, mut impact) = (vec![], vec![]);
        if let Some(o) = o {
            for l in a["lims"].as_array().unwrap() {
                depth.push(self.b.quantity_at_price(wide(l.as_i64().unwrap()), now, o));
            }
            for x in a["qs"].as_array().unwrap() {
                impact.push(self.b.impact_price(x.as_i64().unwrap(), now, o).map_or(-1, show));
            }
        }
        json!({"walk": walk, "valid": valid, "best": best, "depth": depth, "impact": impact})
    }
}

impl Part for Book {
    fn init(s: &Value) -> Self {
        let mut b: Box<BookSide> = zeroed();
        let side = s["side"].as_i64().unwrap();
        b.nodes.order_tree_type = if side == 0 { OrderTreeType::Bids } else { OrderTreeType::Asks }.into();
        Book { b, next: 1, side, lists: [vec![], vec![]], style: s["style"].as_i64().unwrap_or(0), keys: vec![], tick: 0 }
    }

    fn act(&mut self, a: &Value) -> Value {
        let g = |k: &str| a[k].as_i64().unwrap_or(0);
        let op = a["op"].as_str().unwrap();
        if op == "query" {
            let q = attempt(|| self.query(a));
            let mut s = self.seen(q.is_some(), 0);
            s["q"] = q.unwrap_or(json!({"walk": [], "valid": [], "best": 0, "depth": [], "impact": []}));
            return s;
        }
        let r: Option<i64> = match op {
            "ins" => {
                let l = self.leaf(a);
                attempt(|| self.b.insert_leaf(tree(g("tr")), &l).ok())
                    .flatten()
                    .map(|(h, old)| {
                        let placed = self.b.node(h).and_then(|n| n.as_leaf()).map_or(-9, leaf_id);
                        if placed != l.client_order_id as i64 {
                            -9
                        } else {
                            old.map_or(0, |o| leaf_id(&o))
                        }
                    })
            }
            "rem" => {
                let k = key(&a["k"]);
                attempt(|| self.b.remove_by_key(tree(g("tr")), k)).flatten().map(|l| leaf_id(&l))
            }
            // the i-th of a tree
            "remi" => {
                let l = &self.lists[g("tr") as usize];
                let id = if l.is_empty() { -1 } else { l[(g("i") as usize).min(l.len() - 1)] };
                let k = self.b.nodes.iter(self.b.root(tree(g("tr")))).find(|(_, l)| leaf_id(l) == id).map(|(_, l)| l.key);
                k.and_then(|k| attempt(|| self.b.remove_by_key(tree(g("tr")), k)).flatten()).map(|l| leaf_id(&l))
            }
            "rmexp" => attempt(|| self.b.remove_one_expired(tree(g("tr")), g("now") as u64)).flatten().map(|l| leaf_id(&l)),
            "rmworst" => {
                let o = if g("orc") == -1 { None } else { Some(wide(g("orc"))) };
                let r = attempt(|| self.b.remove_worst(g("now") as u64, o)).flatten();
                let mut s = self.seen(r.is_some(), r.as_ref().map_or(-1, |(l, _)| leaf_id(l)));
                s["px"] = json!(r.map_or(-1, |(_, p)| show(p)));
                return s;
            }
            "treeworst" => {
                let t = g("tr") as usize;
                let mut root = self.b.roots[t];
                let r = attempt(|| self.b.nodes.remove_worst(&mut root)).flatten().map(|l| leaf_id(&l));
                self.b.roots[t] = root;
                r
            }
            "look" => Some(0),
            _ => unreachable!("{op}"),
        };
        self.seen(r.is_some(), r.unwrap_or(-1))
    }

    fn random(&mut self, r: &mut rng::Rng) -> Value {
        self.tick += 1;
        if self.keys.is_empty() {
            for _ in 0..40 {
                let base = r.of(&[0u128, 1, u128::MAX, u128::MAX - 1, 1 << 64, (1 << 64) - 1, 1 << 127, (1 << 127) - 1]);
                let rnd = (r.next() as u128) << 64 | r.next() as u128;
                let k = match r.r(0, 5) {
                    0 => base,
                    1 => base ^ (1 << r.r(0, 127)),
                    2 => rnd,
                    3 if !self.keys.is_empty() => r.of(&self.keys) ^ (1 << r.r(0, 127)),
                    4 if !self.keys.is_empty() => r.of(&self.keys).wrapping_add(1),
                    _ => ((r.r(1, 6) as u128) << 64) | r.r(0, 5) as u128,
                };
                self.keys.push(k);
            }
        }
        let now = 1000 + self.tick / 8;
        let ts = now - r.r(0, 10);
        let tif = r.of(&[0, 0, 1, 2, 5, 9, 20, 65535]);
        let tr = r.r(0, 1);
        if self.style == 1 {
            // prices
            let deep = r.pct(10);
            let px = if tr == 0 {
                if deep { r.of(&[1, BIG, BIG - 1, 1 << 27]) } else { r.r(1, 12) }
            } else if deep {
                r.of(&[-BIG - 1, BIG, -(1 << 27), BIG - 5])
            } else {
                r.r(-8, 8)
            };
            let plim = if tr == 0 { -1 } else { r.of(&[-1, 1, 3, 5, 8, 12, BIG]) };
            let orc = r.of(&[-1, 0, 1, 3, 5, 9, 20, BIG, BIG - 4]);
            return match r.r(0, 11) {
                0..=3 => json!({"op": "ins", "tr": tr, "px": px, "ts": ts, "tif": tif, "plim": plim, "q": r.r(1, 9)}),
                4 => json!({"op": "remi", "tr": tr, "i": r.r(0, 30)}),
                5 => json!({"op": "rmexp", "tr": tr, "now": now}),
                6 => json!({"op": "rmworst", "now": now, "orc": orc}),
                _ => json!({"op": "query", "now": now, "orc": orc, "lims": [1, r.r(1, 12), r.r(1, 30), BIG], "qs": [1, r.r(1, 20), r.r(1, 60)]}),
            };
        }
        let k = limbs(r.of(&self.keys));
        let full = self.lists[0].len() + self.lists[1].len() > 400;
        match r.r(0, 9) {
            0..=3 if self.style == 2 && !full || !full => json!({"op": "ins", "tr": tr, "k": k, "ts": ts, "tif": tif}),
            0..=4 => {
                // near the limit: fresh keys
                let k = limbs((r.next() as u128) << 64 | r.next() as u128);
                json!({"op": "ins", "tr": tr, "k": k, "ts": ts, "tif": tif})
            }
            5 | 6 => json!({"op": "rem", "tr": tr, "k": k}),
            7 => json!({"op": "remi", "tr": tr, "i": r.r(0, 600)}),
            8 => json!({"op": "rmexp", "tr": tr, "now": now}),
            _ => {
                if r.pct(50) {
                    json!({"op": "treeworst", "tr": tr})
                } else {
                    json!({"op": "ins", "tr": tr, "k": k, "ts": ts, "tif": tif})
                }
            }
        }
    }
}

fn main() {
    parts::main::<Book>();
}
