//! Driving one data structure through sequences of operations and recording what it shows.
use crate::rng::Rng;
use crate::watch;
use serde_json::{json, Value};
use std::io::{BufWriter, Write};

pub trait Part: Clone {
    /// Performs an operation; the result holds `ok` and whatever can be observed afterwards.
    fn act(&mut self, a: &Value) -> Value;
    fn init(spec: &Value) -> Self;
    /// A random operation.
    fn random(&mut self, r: &mut Rng) -> Value;
}

pub struct Out {
    f: BufWriter<std::fs::File>,
    pub lines: usize,
}

impl Out {
    pub fn create(dir: &str, no: u64) -> Out {
        Out { f: BufWriter::new(std::fs::File::create(format!("{dir}/{no}.ndjson")).unwrap()), lines: 0 }
    }

    /// `at`: how many operations of the current sequence come before this one
    pub fn line(&mut self, at: usize, a: &Value, seen: Value) {
        let mut l = seen;
        l["a"] = a.clone();
        l["at"] = json!(at);
        writeln!(self.f, "{l}").unwrap();
        self.lines += 1;
    }
}

fn step<P: Part>(p: &mut P, a: &Value) -> Value {
    watch::step(|| a.to_string());
    p.act(a)
}

/// The line that starts a sequence tells its setup.
fn first_act(setup: &Value, id: String) -> Value {
    let mut a = setup.clone();
    a.as_object_mut().unwrap().remove("prefix");
    a["op"] = json!("look");
    a["id"] = json!(id);
    a
}

fn below<P: Part>(p: &P, acts: &[Value], at: usize, depth: usize, out: &mut Out) {
    for a in acts {
        let mut q = p.clone();
        let seen = step(&mut q, a);
        out.line(at, a, seen);
        if depth > 1 {
            below(&q, acts, at + 1, depth - 1, out);
        }
    }
}

/// walk DIR FIRST SEED FROM COUNT STEPS SPEC..: random sequences;
/// all DIR FIRST SPEC DEPTH K N: all sequences of the operations of a specification, K-th of N shares;
/// run DIR FIRST SPEC PATHS PER_FILE: given sequences.
pub fn main<P: Part>() {
    watch::over(commands::<P>);
}

fn commands<P: Part>() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let num = |i: usize| args[i].parse::<u64>().unwrap();
    let read = |p: &str| -> Value { serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap() };
    let mut lines = 0;
    let mut files = 0;
    match args[1].as_str() {
        "walk" => {
            let mut no = num(3);
            let spec = read(&args[8]);
            let setups = spec["setups"].as_array().unwrap();
            for i in num(5)..num(5) + num(6) {
                for (k, s) in setups.iter().enumerate() {
                    let mut r = Rng::new(num(4), i * 1000 + k as u64 + 500_000);
                    let mut out = Out::create(&args[2], no);
                    no += 1;
                    watch::step(|| "the preparations".into());
                    let mut p = P::init(s);
                    let first = p.act(&json!({"op": "look"}));
                    out.line(0, &first_act(s, format!("{i}/{k}")), first);
                    let mut at = 0;
                    for a in s["prefix"].as_array().into_iter().flatten() {
                        at += 1;
                        let seen = step(&mut p, a);
                        out.line(at, a, seen);
                    }
                    for _ in 0..num(7) {
                        at += 1;
                        let a = p.random(&mut r);
                        let seen = step(&mut p, &a);
                        out.line(at, &a, seen);
                    }
                    lines += out.lines;
                    files += 1;
                }
            }
        }
        "all" => {
            let mut no = num(3);
            let spec = read(&args[4]);
            let acts = spec["acts"].as_array().unwrap();
            let mut share = 0;
            for s in spec["setups"].as_array().unwrap() {
                for first in acts {
                    share += 1;
                    if share % num(7) != num(6) {
                        continue;
                    }
                    let mut out = Out::create(&args[2], no);
                    no += 1;
                    watch::step(|| "the preparations".into());
                    let mut p = P::init(s);
                    let mut at = 0;
                    let look = p.act(&json!({"op": "look"}));
                    out.line(at, &first_act(s, s["id"].to_string()), look);
                    for a in s["prefix"].as_array().into_iter().flatten() {
                        at += 1;
                        let seen = step(&mut p, a);
                        out.line(at, a, seen);
                    }
                    at += 1;
                    let seen = step(&mut p, first);
                    out.line(at, first, seen);
                    if num(5) > 1 {
                        below(&p, acts, at + 1, num(5) as usize - 1, &mut out);
                    }
                    lines += out.lines;
                    files += 1;
                }
            }
        }
        "run" => {
            let mut no = num(3);
            let spec = read(&args[4]);
            let acts = spec["acts"].as_array().unwrap();
            let paths = std::fs::read_to_string(&args[5]).unwrap();
            let paths: Vec<Vec<usize>> = paths.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
            for chunk in paths.chunks(num(6) as usize) {
                let mut out = Out::create(&args[2], no);
                no += 1;
                for path in chunk {
                    let s = &spec["setups"][path[0] - 1];
                    watch::step(|| "the preparations".into());
                    let mut p = P::init(s);
                    let look = p.act(&json!({"op": "look"}));
                    out.line(0, &first_act(s, format!("{path:?}")), look);
                    let mut at = 0;
                    for a in s["prefix"].as_array().into_iter().flatten() {
                        at += 1;
                        let seen = step(&mut p, a);
                        out.line(at, a, seen);
                    }
                    for i in &path[1..] {
                        at += 1;
                        let a = &acts[i - 1];
                        let seen = step(&mut p, a);
                        out.line(at, a, seen);
                    }
                    for a in spec["last"].as_array().into_iter().flatten() {
                        let mut q = p.clone();
                        let seen = step(&mut q, a);
                        out.line(at + 1, a, seen);
                    }
                }
                lines += out.lines;
                files += 1;
            }
        }
        // cases DIR FIRST SPEC PER_FILE K N: each operation by itself, after its setup
        "cases" => {
            let mut no = num(3);
            let spec = read(&args[4]);
            let acts = spec["acts"].as_array().unwrap();
            let mut share = 0;
            for s in spec["setups"].as_array().unwrap() {
                for chunk in acts.chunks(num(5) as usize) {
                    share += 1;
                    if share % num(7) != num(6) {
                        continue;
                    }
                    let mut out = Out::create(&args[2], no);
                    no += 1;
                    watch::step(|| "the preparations".into());
                    let mut p = P::init(s);
                    let look = p.act(&json!({"op": "look"}));
                    out.line(0, &first_act(s, s["id"].to_string()), look);
                    let mut at = 0;
                    for a in s["prefix"].as_array().into_iter().flatten() {
                        at += 1;
                        let seen = step(&mut p, a);
                        out.line(at, a, seen);
                    }
                    for a in chunk {
                        let seen = step(&mut p.clone(), a);
                        out.line(at + 1, a, seen);
                    }
                    lines += out.lines;
                    files += 1;
                }
            }
        }
        c => {
            eprintln!("unknown command {c}");
            std::process::exit(2);
        }
    }
    println!("{lines} {files}");
}

/// Runs `f`; None if the code under test panicked.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// A zeroed structure straight on the heap.
pub fn zeroed<T: bytemuck::Zeroable>() -> Box<T> {
    unsafe {
        let l = std::alloc::Layout::new::<T>();
        Box::from_raw(std::alloc::alloc_zeroed(l) as *mut T)
    }
}
