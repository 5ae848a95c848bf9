//! Case runner shared by all checks: parallel workers, panic classification,
//! per-case watchdog, replay files, evidence.
//!
//! Verdicts: exit 0 = held on everything explored; exit 1 + VIOLATION line =
//! a case on which the code under test contradicts the property; exit 2 =
//! inconclusive (harness error, watchdog, nothing observed).

use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Case {
    pub rng: Rng,
    pub stage: &'static str,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub replaying: bool,
    obs: BTreeMap<&'static str, u64>,
    hash: Option<u64>,
    desc: String,
    sample: Option<String>,
}

impl Case {
    /// Adds to a counter of what the monitors observed.
    pub fn saw(&mut self, key: &'static str, n: u64) {
        *self.obs.entry(key).or_insert(0) += n;
    }
    /// Marks the case as non-trivial, with its identity.
    pub fn nontrivial(&mut self, h: u64) {
        self.hash = Some(h);
    }
    /// What is written to the replay file when the case fails.
    pub fn describe(&mut self, s: String) {
        self.desc = s;
    }
    pub fn sample(&mut self, s: String) {
        self.sample = Some(s);
    }
}

pub type Check = fn(&mut Case) -> Result<(), String>;

pub struct Stage {
    pub name: &'static str,
    pub f: Check,
    /// number of cases (quick, in units of 3; thorough, in units of 20)
    pub n: (u64, u64),
    /// time cap in seconds (quick), share of the time budget (thorough)
    pub secs: (u64, u64),
    /// worker threads; 0 = all
    pub workers: usize,
}

impl Stage {
    pub fn new(name: &'static str, f: Check, n: (u64, u64), secs: (u64, u64)) -> Stage {
        Stage {
            name,
            f,
            n,
            secs,
            workers: 0,
        }
    }
    pub fn serial(mut self) -> Stage {
        self.workers = 1;
        self
    }
}

thread_local! {
    static LAST: RefCell<Option<String>> = const { RefCell::new(None) };
}
static PANICS: Mutex<Option<HashMap<String, String>>> = Mutex::new(None);

fn payload_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(panic without text)".to_string()
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = payload_text(info.payload());
        if text.contains("unsafe precondition(s) violated") {
            // the process aborts next: this text is all that remains
            eprintln!("{}\n{}", text, std::backtrace::Backtrace::force_capture());
        }
        let mut g = match PANICS.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        let m = g.get_or_insert_with(HashMap::new);
        if m.len() > 10_000 {
            m.clear();
        }
        // a location inside the harness wins: it must not be blamed on the code
        let old = m.get(&text).map(|l| from_harness(l)).unwrap_or(false);
        if !old {
            m.insert(text, loc);
        }
    }));
}

fn from_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("/harness/")
}

/// Runs code under test; Err(text) if it panicked.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let text = payload_text(&*p);
        let g = match PANICS.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        let loc = g
            .as_ref()
            .and_then(|m| m.get(&text).cloned())
            .unwrap_or_default();
        if from_harness(&loc) {
            format!("HARNESS-ERROR panic at {}: {}", loc, text)
        } else {
            format!("panicked at {}: {}", loc, text)
        }
    })
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_field(text: &str, key: &str) -> Option<String> {
    let k = format!("\"{}\":", key);
    let at = text.find(&k)? + k.len();
    let rest = text[at..].trim_start();
    if let Some(r) = rest.strip_prefix('"') {
        Some(r[..r.find('"')?].to_string())
    } else {
        let end = rest
            .find(|c: char| c == ',' || c == '}' || c.is_whitespace())
            .unwrap_or(rest.len());
        Some(rest[..end].to_string())
    }
}

fn cpu_seconds() -> f64 {
    // utime + stime of this process, in clock ticks (100 per second on Linux)
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let after = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = after.split_whitespace().collect();
    let u: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    let k: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    (u + k) / 100.0
}

struct Shared {
    next: AtomicU64,
    done: AtomicU64,
    stop: AtomicBool,
    obs: Mutex<BTreeMap<&'static str, u64>>,
    hashes: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<(u64, String, String)>>,
    errors: Mutex<Vec<String>>,
}

pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub evidence: Option<PathBuf>,
    pub replays: PathBuf,
    pub replay: Option<PathBuf>,
    pub rest: Vec<String>,
}

pub fn args() -> Args {
    let mut a = Args {
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        evidence: None,
        replays: PathBuf::from("."),
        replay: None,
        rest: vec![],
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().unwrap_or_else(|| fail("missing argument value"));
        match x.as_str() {
            "--seed" => a.seed = val().parse().unwrap_or(1),
            "--tier" => a.thorough = val() == "thorough",
            "--evidence" => a.evidence = Some(val().into()),
            "--replays" => a.replays = val().into(),
            "--replay" => a.replay = Some(val().into()),
            _ => a.rest.push(x),
        }
    }
    a
}

pub fn fail(msg: &str) -> ! {
    eprintln!("INCONCLUSIVE: {}", msg);
    std::process::exit(2)
}

static LIVE: AtomicUsize = AtomicUsize::new(0);

pub fn main(prop: &'static str, rule: &str, assumptions: &[&str], stages: Vec<Stage>) {
    let a = args();
    install_panic_hook();
    let t0 = Instant::now();
    let mut only: Option<(String, u64)> = None;
    let mut seed = a.seed;
    let mut thorough = a.thorough;
    if let Some(p) = &a.replay {
        let text =
            std::fs::read_to_string(p).unwrap_or_else(|e| fail(&format!("replay file: {}", e)));
        let stage = json_field(&text, "stage").unwrap_or_else(|| fail("replay: no stage"));
        let idx = json_field(&text, "idx")
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| fail("replay: no idx"));
        seed = json_field(&text, "seed")
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| fail("replay: no seed"));
        thorough = json_field(&text, "tier").map(|t| t == "thorough").unwrap_or(false);
        only = Some((stage, idx));
    }
    let _ = std::fs::create_dir_all(&a.replays);
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let mut total_obs: BTreeMap<String, u64> = BTreeMap::new();
    let mut stage_json: Vec<String> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut all_hashes: HashSet<u64> = HashSet::new();
    let mut evaluations = 0u64;
    let mut violations: Vec<(String, u64, String, String)> = vec![];
    let mut errors: Vec<String> = vec![];

    // the thorough run shares out a budget in proportion to the stages' weights
    let budget: f64 = std::env::var("VERIF_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(780.0);
    let weight: f64 = stages.iter().map(|s| s.secs.1 as f64).sum();

    for (si, st) in stages.iter().enumerate() {
        if let Some((s, _)) = &only {
            if s != st.name {
                continue;
            }
        }
        let n = if only.is_some() {
            1
        } else if thorough {
            st.n.1 * 20
        } else {
            st.n.0 * 3
        };
        if n == 0 {
            continue;
        }
        let cap = if thorough {
            Duration::from_secs_f64(budget * st.secs.1 as f64 / weight)
        } else {
            Duration::from_secs(st.secs.0)
        };
        let workers = if st.workers == 0 { cores } else { st.workers }.min(n as usize).max(1);
        let sh = Shared {
            next: AtomicU64::new(0),
            done: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            obs: Mutex::new(BTreeMap::new()),
            hashes: Mutex::new(HashSet::new()),
            samples: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            errors: Mutex::new(vec![]),
        };
        let begin = Instant::now();
        let started: Vec<AtomicU64> = (0..workers).map(|_| AtomicU64::new(0)).collect();
        let current: Vec<AtomicU64> = (0..workers).map(|_| AtomicU64::new(u64::MAX)).collect();
        LIVE.store(workers, SeqCst);
        std::thread::scope(|scope| {
            for w in 0..workers {
                let (sh, started, current, only, replays) =
                    (&sh, &started, &current, &only, &a.replays);
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .name(format!("case-worker-{}", w))
                    .spawn_scoped(scope, move || {
                        let mark = std::fs::File::create(
                            replays.join(format!("{}.current.{}", prop, w)),
                        )
                        .ok();
                        loop {
                            if sh.stop.load(SeqCst) || begin.elapsed() > cap && only.is_none() {
                                break;
                            }
                            let k = sh.next.fetch_add(1, SeqCst);
                            if k >= n {
                                break;
                            }
                            let idx = only.as_ref().map(|o| o.1).unwrap_or(k);
                            started[w].store(begin.elapsed().as_millis() as u64 + 1, SeqCst);
                            current[w].store(idx, SeqCst);
                            if let Some(f) = &mark {
                                let line = format!(
                                    "{{\"property\": \"{}\", \"stage\": \"{}\", \"idx\": {}, \"seed\": {}, \"tier\": \"{}\"}}\n",
                                    prop, st.name, idx, seed,
                                    if thorough { "thorough" } else { "quick" }
                                );
                                let line = format!("{:<200}", line);
                                let _ = f.write_at(line.as_bytes(), 0);
                            }
                            let mut case = Case {
                                rng: Rng::of(&[seed, si as u64 + 1, idx, prop_hash(prop)]),
                                stage: st.name,
                                idx,
                                seed,
                                thorough,
                                replaying: only.is_some(),
                                obs: BTreeMap::new(),
                                hash: None,
                                desc: String::new(),
                                sample: None,
                            };
                            let f = st.f;
                            let r = match guarded(|| f(&mut case)) {
                                Ok(r) => r,
                                Err(p) => Err(p),
                            };
                            match r {
                                Ok(()) => {}
                                Err(m) if m.contains("HARNESS-ERROR") => {
                                    sh.errors.lock().unwrap().push(format!(
                                        "stage {} case {}: {}",
                                        st.name, idx, m
                                    ));
                                    sh.stop.store(true, SeqCst);
                                }
                                Err(m) => {
                                    let mut v = sh.violations.lock().unwrap();
                                    v.push((idx, m, std::mem::take(&mut case.desc)));
                                    if v.len() >= 3 {
                                        sh.stop.store(true, SeqCst);
                                    }
                                }
                            }
                            sh.done.fetch_add(1, SeqCst);
                            {
                                let mut o = sh.obs.lock().unwrap();
                                for (k, v) in &case.obs {
                                    *o.entry(k).or_insert(0) += v;
                                }
                            }
                            if let Some(h) = case.hash {
                                sh.hashes.lock().unwrap().insert(h);
                            }
                            if let Some(s) = case.sample.take() {
                                let mut v = sh.samples.lock().unwrap();
                                if v.len() < 2 {
                                    v.push(format!("{}#{}: {}", st.name, idx, s));
                                }
                            }
                            started[w].store(0, SeqCst);
                        }
                        LIVE.fetch_sub(1, SeqCst);
                        started[w].store(0, SeqCst);
                    })
                    .unwrap_or_else(|e| fail(&format!("cannot start worker: {}", e)));
            }
            // watchdog
            let (sh, started, current) = (&sh, &started, &current);
            let mut cpu_mark = (Instant::now(), cpu_seconds());
            let mut idle_windows = 0;
            while LIVE.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                if cpu_mark.0.elapsed() < Duration::from_secs(30) {
                    continue;
                }
                let cpu = cpu_seconds();
                let used = cpu - cpu_mark.1;
                let window = cpu_mark.0.elapsed();
                cpu_mark = (Instant::now(), cpu);
                idle_windows = if used < 0.6 { idle_windows + 1 } else { 0 };
                let now = begin.elapsed().as_millis() as u64;
                for w in 0..started.len() {
                    let s = started[w].load(SeqCst);
                    if s == 0 || now < s {
                        continue;
                    }
                    let age = now - s;
                    if age > 90_000 && idle_windows >= 2 {
                        // nothing in this process has run for a whole window:
                        // the case is blocked forever, not slow
                        let idx = current[w].load(SeqCst);
                        let path = write_replay(
                            &a.replays, prop, st.name, idx, seed, thorough,
                            "the case is blocked: no thread of the process has used the processor for 60 s",
                            "(deadlock; re-run the case with --replay)",
                        );
                        println!(
                            "deadlock: stage {} case {} blocked for {} s, {:.2} s of processor time in the last {:.0} s",
                            st.name, idx, age / 1000, used, window.as_secs_f64()
                        );
                        println!("VIOLATION property={} replay={}", prop, path.display());
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                    if age > 240_000 && (prop == "C05" || prop == "C17") && used > 0.5 * window.as_secs_f64() {
                        // the property says that every case ends; these take
                        // seconds at most and this one keeps a core busy
                        let idx = current[w].load(SeqCst);
                        let path = write_replay(
                            &a.replays, prop, st.name, idx, seed, thorough,
                            "the case does not end: still computing after 240 s",
                            "(endless; re-run the case with --replay)",
                        );
                        println!("endless: stage {} case {} still computing after {} s", st.name, idx, age / 1000);
                        println!("VIOLATION property={} replay={}", prop, path.display());
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                    if age > 420_000 {
                        fail(&format!(
                            "stage {} case {} still running after {} s",
                            st.name,
                            current[w].load(SeqCst),
                            age / 1000
                        ));
                    }
                }
                let _ = sh;
            }
        });
        let done = sh.done.load(SeqCst);
        evaluations += done;
        let hs = sh.hashes.into_inner().unwrap();
        let obs = sh.obs.into_inner().unwrap();
        stage_json.push(format!(
            "{{\"stage\": {}, \"cases\": {}, \"planned\": {}, \"distinct_nontrivial\": {}, \"seconds\": {:.2}}}",
            json_str(st.name), done, n, hs.len(), begin.elapsed().as_secs_f64()
        ));
        println!(
            "{} {}: {} of {} cases, {} distinct non-trivial, {:.1} s",
            prop, st.name, done, n, hs.len(), begin.elapsed().as_secs_f64()
        );
        all_hashes.extend(hs);
        for (k, v) in obs {
            *total_obs.entry(k.to_string()).or_insert(0) += v;
        }
        samples.extend(sh.samples.into_inner().unwrap());
        let mut v = sh.violations.into_inner().unwrap();
        v.sort();
        for (idx, m, d) in v {
            violations.push((st.name.to_string(), idx, m, d));
        }
        let e = sh.errors.into_inner().unwrap();
        if done == 0 && e.is_empty() {
            errors.push(format!("stage {} ran no case", st.name));
        }
        errors.extend(e);
        if !violations.is_empty() || !errors.is_empty() {
            break;
        }
    }
    for w in 0..cores {
        let _ = std::fs::remove_file(a.replays.join(format!("{}.current.{}", prop, w)));
    }
    if only.is_some() && evaluations == 0 && errors.is_empty() {
        errors.push("replay: no such stage".to_string());
    }
    if only.is_none() && violations.is_empty() && errors.is_empty() && all_hashes.len() < 2 {
        errors.push("the monitors observed nothing non-trivial".to_string());
    }
    let mut lines = vec![];
    for (stage, idx, m, d) in violations.iter() {
        let path = write_replay(&a.replays, prop, stage, *idx, seed, thorough, m, d);
        lines.push((m.clone(), path));
    }
    if let Some(ev) = &a.evidence {
        let mut s = String::new();
        s.push_str("{\n");
        s.push_str(&format!(" \"property\": \"{}\",\n", prop));
        s.push_str(&format!(
            " \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n",
            if thorough { "thorough" } else { "quick" },
            seed
        ));
        s.push_str(" \"coverage\": {\n");
        s.push_str(&format!("  \"evaluations\": {},\n", evaluations));
        s.push_str(&format!("  \"distinct_nontrivial\": {},\n", all_hashes.len()));
        s.push_str(&format!("  \"rule\": {},\n", json_str(rule)));
        s.push_str("  \"observed\": {");
        s.push_str(
            &total_obs
                .iter()
                .map(|(k, v)| format!("{}: {}", json_str(k), v))
                .collect::<Vec<_>>()
                .join(", "),
        );
        s.push_str("},\n");
        s.push_str(&format!("  \"stages\": [{}],\n", stage_json.join(", ")));
        s.push_str(&format!(
            "  \"samples\": [{}],\n",
            samples
                .iter()
                .take(12)
                .map(|x| json_str(&clip(x, 1500)))
                .collect::<Vec<_>>()
                .join(", ")
        ));
        s.push_str("  \"exhaustive\": false\n },\n");
        s.push_str(&format!(
            " \"assumptions\": [{}],\n",
            assumptions.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", ")
        ));
        s.push_str(&format!(
            " \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            t0.elapsed().as_secs_f64(),
            violations.len()
        ));
        if let Err(e) = std::fs::write(ev, s) {
            fail(&format!("cannot write evidence: {}", e));
        }
    }
    if !errors.is_empty() && violations.is_empty() {
        for e in &errors {
            eprintln!("ERROR: {}", e);
        }
        fail(&errors[0]);
    }
    if !lines.is_empty() {
        for (m, path) in &lines {
            println!("  {}", clip(m, 2000));
            println!("VIOLATION property={} replay={}", prop, path.display());
        }
        std::process::exit(1);
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial) in {:.1} s",
        prop,
        evaluations,
        all_hashes.len(),
        t0.elapsed().as_secs_f64()
    );
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}

fn prop_hash(p: &str) -> u64 {
    p.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64))
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...", &s[..e])
}

#[allow(clippy::too_many_arguments)]
fn write_replay(
    dir: &PathBuf,
    prop: &str,
    stage: &str,
    idx: u64,
    seed: u64,
    thorough: bool,
    msg: &str,
    desc: &str,
) -> PathBuf {
    let path = dir.join(format!("{}-{}-{}-{}.json", prop, stage, seed, idx));
    let s = format!(
        "{{\n \"property\": \"{}\",\n \"stage\": \"{}\",\n \"idx\": {},\n \"seed\": {},\n \"tier\": \"{}\",\n \"message\": {},\n \"case\": {}\n}}\n",
        prop,
        stage,
        idx,
        seed,
        if thorough { "thorough" } else { "quick" },
        json_str(&clip(msg, 20_000)),
        json_str(&clip(desc, 200_000))
    );
    let _ = std::fs::write(&path, s);
    path
}
