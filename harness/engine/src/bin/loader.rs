//! Loading account data as one of the program's types, in every way there is.
#![allow(dead_code)]
#[path = "../parts.rs"]
mod parts;
#[path = "../rng.rs"]
mod rng;
#[path = "../watch.rs"]
mod watch;

use anchor_lang::prelude::{AccountInfo, Owner, Pubkey};
use anchor_lang::{Discriminator, ZeroCopy};
use openbook_v2::accounts_zerocopy::*;
use openbook_v2::pubkey_option::{NonZeroKey, NonZeroPubkeyOption};
use openbook_v2::state::*;
use parts::{attempt, Part};
use serde_json::{json, Value};
use solana_sdk::account::{Account, AccountSharedData};

#[derive(Clone)]
struct Loader;

fn discs() -> [[u8; 8]; 6] {
    [
        Market::discriminator(),
        BookSide::discriminator(),
        EventHeap::discriminator(),
        OpenOrdersAccount::discriminator(),
        StubOracle::discriminator(),
        OpenOrdersIndexer::discriminator(),
    ]
}

fn key(n: i64) -> Pubkey {
    match n {
        0 => Pubkey::default(),
        1 => openbook_v2::ID,
        n => Pubkey::new_from_array([n as u8; 32]),
    }
}

/// Whether the data was loaded; None if that was refused. Some(false) if what was loaded is not the data.
fn load<T: ZeroCopy + Owner + Discriminator>(a: &Value) -> (Option<bool>, bool) {
    let g = |k: &str| a[k].as_i64().unwrap();
    let size = std::mem::size_of::<T>() as i64;
    let len = if g("b") == 0 { g("n") } else { 8 + size + g("n") } as usize;
    // backed by whole words, as in the runtime
    let mut words = vec![0x5a5a_5a5a_5a5a_5a5au64; len / 8 + 1];
    let data: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(words.as_mut_ptr() as *mut u8, len) };
    for (i, x) in data.iter_mut().enumerate().skip(8) {
        *x = (i * 7 + i / 256) as u8;
    }
    let mut disc = match g("disc") {
        d if d >= 0 => discs()[d as usize],
        -1 => [0; 8],
        _ => T::discriminator(),
    };
    if g("flip") >= 0 {
        disc[g("flip") as usize / 8] ^= 1 << (g("flip") % 8);
    }
    let head = len.min(8);
    data[..head].copy_from_slice(&disc[..head]);
    let before = data.to_vec();
    let owner = key(g("own"));
    let at = Pubkey::new_from_array([9; 32]);
    let whole = |x: &[u8]| x == &before[8..8 + size as usize];
    let via = g("via");
    let mut out;
    let mut same = true;
    if via >= 5 {
        let account = Account { lamports: 1, data: before.clone(), owner, executable: false, rent_epoch: 0 };
        let shared = AccountSharedData::from(account.clone());
        out = attempt(|| match via {
            5 => KeyedAccount { key: at, account: account.clone() }.load::<T>().ok().map(|x| whole(bytemuck::bytes_of(x))),
            6 => KeyedAccountSharedData::new(at, shared.clone()).load::<T>().ok().map(|x| whole(bytemuck::bytes_of(x))),
            _ => account.load::<T>().ok().map(|x| whole(bytemuck::bytes_of(x))),
        })
        .flatten();
    } else {
        let mut lamports = 1;
        {
            let info = AccountInfo::new(&at, false, true, &mut lamports, data, &owner, false, 0);
            let shared = (g("bw") == 1).then(|| info.data.borrow());
            let excl = (g("bw") == 2).then(|| info.data.borrow_mut());
            out = attempt(|| match via {
                0 => LoadZeroCopyRef::load::<T>(&info).ok().map(|x| whole(bytemuck::bytes_of(&*x))),
                1 => LoadMutZeroCopyRef::load_mut::<T>(&info).ok().map(|x| whole(bytemuck::bytes_of(&*x))),
                2 => AccountInfoRef::borrow(&info)
                    .ok()
                    .and_then(|r| LoadZeroCopy::load::<T>(&r).ok().map(|x| whole(bytemuck::bytes_of(x)))),
                3 => AccountInfoRefMut::borrow(&info)
                    .ok()
                    .and_then(|r| LoadZeroCopy::load::<T>(&r).ok().map(|x| whole(bytemuck::bytes_of(x)))),
                _ => AccountInfoRefMut::borrow(&info)
                    .ok()
                    .and_then(|mut r| LoadMutZeroCopy::load_mut::<T>(&mut r).ok().map(|x| whole(bytemuck::bytes_of(x)))),
            })
            .flatten();
            drop(shared);
            drop(excl);
            same = info.data.try_borrow_mut().map_or(false, |d| d[..] == before[..]);
            if out.is_some() && (via == 1 || via == 4) {
                // what is written through it is in the account
                attempt(|| {
                    if via == 1 {
                        let mut x = LoadMutZeroCopyRef::load_mut::<T>(&info).unwrap();
                        bytemuck::bytes_of_mut(&mut *x)[size as usize - 1] ^= 0xff;
                    } else {
                        let mut r = AccountInfoRefMut::borrow(&info).unwrap();
                        let x = LoadMutZeroCopy::load_mut::<T>(&mut r).unwrap();
                        bytemuck::bytes_of_mut(x)[size as usize - 1] ^= 0xff;
                    }
                });
                let d = info.data.borrow();
                let n = 8 + size as usize - 1;
                if d[n] != before[n] ^ 0xff || d[..n] != before[..n] || d[n + 1..] != before[n + 1..] {
                    out = Some(false);
                }
            }
        }
    }
    (out, same)
}

impl Part for Loader {
    fn init(_: &Value) -> Self {
        Loader
    }

    fn act(&mut self, a: &Value) -> Value {
        let g = |k: &str| a[k].as_i64().unwrap();
        match a["op"].as_str().unwrap() {
            "load" => {
                let (out, same) = match g("ty") {
                    0 => load::<Market>(a),
                    1 => load::<BookSide>(a),
                    2 => load::<EventHeap>(a),
                    3 => load::<OpenOrdersAccount>(a),
                    _ => load::<StubOracle>(a),
                };
                json!({"ok": out.is_some(), "right": out != Some(false), "same": same})
            }
            "key" => {
                let (x, y) = (g("x"), g("y"));
                let o = |n: i64| (n >= 0).then(|| key(n));
                let opt: NonZeroPubkeyOption = o(x).into();
                let other: NonZeroPubkeyOption = o(y).into();
                let named: Option<Pubkey> = opt.into();
                json!({"ok": true, "some": opt.is_some(), "none": opt.is_none(),
                    "same": opt == other, "as": named.map_or(-1, |k| if k == key(x) { x } else { -9 }),
                    "eq": o(y).map_or(false, |k| opt == k), "eqr": o(y).map_or(false, |k| k == opt),
                    "acc": o(x).non_zero_key() == opt})
            }
            _ => json!({"ok": true}),
        }
    }

    fn random(&mut self, r: &mut rng::Rng) -> Value {
        if r.pct(10) {
            return json!({"op": "key", "x": r.r(-1, 30), "y": r.r(-1, 30)});
        }
        let good = |r: &mut rng::Rng| r.pct(80);
        let ty = r.r(0, 4);
        let b = good(r) as i64;
        json!({"op": "load", "ty": ty, "via": r.r(0, 7), "own": if good(r) { 1 } else { r.r(0, 5) },
            "disc": if good(r) { ty } else { r.r(-1, 5) }, "flip": if good(r) { -1 } else { r.r(0, 63) },
            "b": b, "n": if b == 0 { r.r(0, 9) } else if good(r) { r.r(0, 20) } else { r.r(-200, 20) },
            "bw": if good(r) { 0 } else { r.r(0, 2) }})
    }
}

fn main() {
    parts::main::<Loader>();
}
