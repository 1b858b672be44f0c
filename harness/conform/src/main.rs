//! Runs every program many times with the real libraries and writes the outcomes that were seen.
mod programs;
use std::collections::BTreeMap;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let n: usize = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(300);
    let mut out: BTreeMap<&str, BTreeMap<String, usize>> = BTreeMap::new();
    for (name, exact, f) in programs::programs() {
        let n = if exact { n.min(20) } else { n };
        for i in 0..n {
            let mut b = match i % 4 {
                0 => tokio::runtime::Builder::new_current_thread(),
                _ => tokio::runtime::Builder::new_multi_thread(),
            };
            if i % 4 > 0 {
                b.worker_threads([2, 4, 8][i % 4 - 1]);
            }
            let rt = b.enable_all().build().unwrap();
            // On a worker, not on the thread that drives the runtime.
            let s = rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(30), tokio::spawn(f())).await });
            let s = s.map(|r| r.unwrap()).unwrap_or_else(|_| "HANGS".into());
            *out.entry(name).or_default().entry(s).or_default() += 1;
            rt.shutdown_background();
        }
    }
    std::fs::write(std::env::args().nth(1).unwrap(), serde_json::to_string_pretty(&out).unwrap()).unwrap();
}
