//! The commands of the market drivers.
use crate::{rt, scenario, walk};

pub fn main() {
    rt::install();
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<u64>().unwrap();
    match arg(1).as_str() {
        // walk DIR FIRST SEED FROM COUNT PROFILE...: DIR/FIRST.ndjson and following
        "walk" => {
            let mut no = num(3);
            let mut lines = 0;
            for i in num(5)..num(5) + num(6) {
                for p in &args[7..] {
                    let path = format!("{}/{}.ndjson", arg(2), no);
                    lines += walk::guarded(&path, || {
                        let mut w = walk::Walker::new(walk::profile(p), num(4), i, &path);
                        w.run();
                        w.out.finish()
                    });
                    no += 1;
                }
            }
            println!("{lines}");
        }
        // expand DIR FIRST SPEC PATHS PER_FILE: everything from each state; look: what a client sees in it
        c @ ("expand" | "look") => {
            let read = |i: usize| std::fs::read_to_string(arg(i)).unwrap();
            let spec: serde_json::Value = serde_json::from_str(&read(4)).unwrap();
            let paths: Vec<Vec<usize>> = read(5).lines().map(|l| serde_json::from_str(l).unwrap()).collect();
            let (_, lines) = walk::expand(&spec, &paths, &arg(2), num(3), num(6) as usize, c == "look");
            println!("{lines}");
        }
        // scenario FILE: exit 1 if it shows other values; record FILE: writes them
        c @ ("scenario" | "record") => {
            let mut sc: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(arg(2)).unwrap()).unwrap();
            let wrong = scenario::run(&mut sc, c == "record");
            for x in &wrong {
                println!("{x}");
            }
            if c == "record" {
                std::fs::write(arg(2), serde_json::to_string_pretty(&sc).unwrap() + "\n").unwrap();
            }
            std::process::exit(!wrong.is_empty() as i32);
        }
        c => {
            eprintln!("unknown command {c:?}");
            std::process::exit(2);
        }
    }
}
