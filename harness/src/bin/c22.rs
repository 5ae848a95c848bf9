//! C22 workload: run under ThreadSanitizer, AddressSanitizer,
//! MemorySanitizer or Miri by checks/sanitizers.py, which reads their reports.
use std::path::PathBuf;
use std::time::{Duration, Instant};
use vph::run::{install_panic_hook, json_str};
use vph::work::{concurrently, Scale, Seen};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
    };
    let num = |k: &str, d: &str| -> u64 { get(k, d).parse().unwrap_or(1) };
    let scale = match get("--scale", "small").as_str() {
        "tiny" => Scale::Tiny,
        "any" => Scale::Any,
        "big" => Scale::Big,
        _ => Scale::Small,
    };
    let (seed, rounds, callers, secs) = (num("--seed", "1"), num("--rounds", "1") as usize, num("--callers", "2") as usize, num("--secs", "600"));
    let pools: Vec<usize> = get("--pools", "0").split(',').filter_map(|x| x.parse().ok()).collect();
    let dir = a.iter().position(|x| x == "--dir").and_then(|i| a.get(i + 1)).map(PathBuf::from);
    install_panic_hook();
    let until = if scale == Scale::Tiny { None } else { Some(Instant::now() + Duration::from_secs(secs)) };
    let mut all = Seen::default();
    for (i, p) in pools.iter().enumerate() {
        all.merge(concurrently(seed.wrapping_mul(1000).wrapping_add(i as u64), callers, rounds, scale, *p, dir.as_deref(), until));
    }
    let (searches, peak, workers) = vph::work::searches();
    let mut o = format!(
        "{{\"sessions\": {}, \"distinct\": {}, \"split searches by trainers\": {}, \"most split searches at once\": {}, \"worker indices that searched\": {}, ",
        all.sessions, all.split.len(), searches, peak, workers
    );
    for (k, v) in &all.n {
        o += &format!("{}: {}, ", json_str(k), v);
    }
    o += &format!("\"calls with arguments out of contract\": {}, \"of these panicked\": {}, \"total\": {}, \"panics\": {}, \"panic texts\": [", all.hostile, all.hostile_panics, all.total(), all.panics.values().sum::<u64>());
    o += &all.panics.keys().take(5).map(|k| json_str(k)).collect::<Vec<_>>().join(", ");
    o += "], \"samples\": [";
    o += &all.samples.iter().map(|k| json_str(k)).collect::<Vec<_>>().join(", ");
    o += "]}";
    eprintln!("OBSERVED {}", o);
}
