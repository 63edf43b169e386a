//! Notices when the code under test never returns or takes the driver down with it.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;

/// Exit codes: 77 never returned, 78 the driver could not go on.
static STEPS: AtomicU64 = AtomicU64::new(0);
static DOING: Mutex<String> = Mutex::new(String::new());
/// Processor seconds no single step needs.
const PATIENCE: u64 = 40;

/// Called before each step.
pub fn step(what: impl FnOnce() -> String) {
    STEPS.fetch_add(1, Ordering::Relaxed);
    if let Ok(mut d) = DOING.lock() {
        *d = what();
    }
}

fn doing() -> String {
    DOING.lock().map(|d| d.clone()).unwrap_or_default()
}

/// Processor time this process has used, in hundredths of a second.
fn ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    n(11) + n(12)
}

/// Runs the driver under observation.
pub fn over(f: impl FnOnce() + std::panic::UnwindSafe) {
    std::thread::spawn(|| {
        let (mut last, mut since) = (0, ticks());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = STEPS.load(Ordering::Relaxed);
            if now != last || now == 0 {
                (last, since) = (now, ticks());
            } else if ticks() - since > PATIENCE * 100 {
                eprintln!("never returned from {}", doing());
                std::process::exit(77);
            }
        }
    });
    if let Err(e) = std::panic::catch_unwind(f) {
        let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("could not go on after {}: {msg}", doing());
        std::process::exit(if msg.contains("Os {") { 2 } else { 78 });
    }
}
