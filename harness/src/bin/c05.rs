//! C05: threading never changes a result.
use common::datasets::MultiTargetDataSet;
use common::results::BestSplitResult;
use rayon::{ThreadPool, ThreadPoolBuilder};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::Duration;
use vph::ens::{EKind, Model, EKINDS};
use vph::forge::{self, Kind, KINDS};
use vph::gen::{self, Data, Labels};
use vph::rng::{fnv, splitmix};
use vph::run::{guarded, main as run, Case, Stage};
use vph::tree::{config_with, find_best_split};

const SIZES: [usize; 9] = [1, 2, 3, 4, 6, 8, 16, 33, 64];

/// mostly the pools a machine would have; now and then one far larger
fn pick(rng: &mut vph::rng::Rng) -> usize {
    if rng.chance(0.04) {
        rng.range(7, SIZES.len() - 1)
    } else {
        rng.below(7)
    }
}

fn pool(i: usize) -> &'static ThreadPool {
    static P: OnceLock<Vec<ThreadPool>> = OnceLock::new();
    &P.get_or_init(|| {
        SIZES
            .iter()
            .map(|n| {
                ThreadPoolBuilder::new()
                    .num_threads(*n)
                    .stack_size(64 << 20)
                    .build()
                    .unwrap_or_else(|e| vph::run::fail(&format!("thread pool: {}", e)))
            })
            .collect()
    })[i]
}

/// 0 = no delay; otherwise seeds the delays injected before split searches
static DELAY: AtomicU64 = AtomicU64::new(0);
static LOGGING: AtomicU64 = AtomicU64::new(0);
static LOG: Mutex<Vec<(u64, usize)>> = Mutex::new(Vec::new());
static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

fn node_id(d: &MultiTargetDataSet) -> u64 {
    let mut h = 9;
    for l in d.labels.iter().take(4).chain(d.labels.iter().rev().take(4)) {
        l.iter().take(4).for_each(|x| fnv(&mut h, x.to_bits()));
    }
    fnv(&mut h, d.labels.len() as u64);
    h
}

fn pause(seed: u64) {
    let mut s = seed;
    match splitmix(&mut s) % 8 {
        0 | 1 | 2 => {}
        3 => std::thread::yield_now(),
        4 => {
            for _ in 0..(splitmix(&mut s) % 4000) {
                std::hint::spin_loop();
            }
        }
        5 | 6 => std::thread::sleep(Duration::from_micros(splitmix(&mut s) % 120)),
        _ => std::thread::sleep(Duration::from_micros(200 + splitmix(&mut s) % 200)),
    }
}

/// The project's own search, with recorded calls and injected delays.
fn delayed(d: &MultiTargetDataSet, k: u32) -> BestSplitResult {
    let now = ACTIVE.fetch_add(1, SeqCst) + 1;
    PEAK.fetch_max(now, SeqCst);
    let seed = DELAY.load(SeqCst);
    if LOGGING.load(SeqCst) != 0 {
        LOG.lock()
            .unwrap_or_else(|e| e.into_inner())
            .push((node_id(d), rayon::current_thread_index().unwrap_or(99)));
    }
    if seed != 0 {
        pause(seed ^ node_id(d));
    }
    let r = find_best_split(d, k);
    if seed != 0 {
        pause(seed.rotate_left(17) ^ node_id(d));
    }
    ACTIVE.fetch_sub(1, SeqCst);
    r
}

#[derive(Clone, Copy, Debug)]
enum Job {
    Tree(Kind),
    Ens(EKind, u32, f64),
}

/// Everything observable about the result, bit for bit.
fn perform(job: Job, d: &Data, set: &MultiTargetDataSet, probes: &[Vec<f64>], levels: u32, threads: bool) -> Result<u64, String> {
    let cfg = config_with(d.k(), levels, threads, delayed);
    match job {
        Job::Tree(kind) => Ok(forge::build(kind, set, cfg)?.print()),
        Job::Ens(kind, it, lr) => {
            let m = guarded(|| Model::train(kind, set.clone(), cfg, it, lr))?;
            let mut h = m.fingerprint()?;
            let p = guarded(|| {
                let mut v = m.predictions(set);
                for r in probes {
                    v.push(m.predict(r));
                }
                v.push(vec![m.score(set)]);
                v
            })?;
            for v in p {
                v.iter().for_each(|x| fnv(&mut h, x.to_bits()));
            }
            Ok(h)
        }
    }
}

/// Data on which a wrong reduction or race shows: ties between columns,
/// many columns, labels whose sums depend on the order of addition.
fn data(c: &mut Case) -> (Data, bool) {
    let one_hot = c.rng.chance(0.5);
    let want = if one_hot { Labels::OneHot } else { Labels::Any };
    let r = &mut c.rng;
    let mut d = match r.below(10) {
        0..=3 => gen::any(r, want),
        4 => {
            let (n, cc, k) = (r.range(20, 80), r.range(20, 200), r.range(2, 4));
            gen::data(r, n, cc, k, want)
        }
        5 => {
            let (n, cc, k) = (r.range(600, 2500), r.range(2, 6), r.range(2, 4));
            gen::data(r, n, cc, k, want)
        }
        6 => {
            let (n, cc, k) = (r.range(50, 200), r.range(2, 6), r.range(2, 20));
            gen::data(r, n, cc, k, want)
        }
        7 if !one_hot => {
            let n = r.range(30, 150);
            gen::chain(r, n, false)
        }
        _ => {
            let (n, cc, k) = (r.range(20, 120), r.range(3, 12), r.range(2, 5));
            gen::data(r, n, cc, k, want)
        }
    };
    if r.chance(0.5) {
        // duplicate and mirror columns: exact ties between features
        let m = r.range(1, 8);
        for _ in 0..m {
            let j = r.below(d.c());
            let neg = r.chance(0.3);
            for row in d.rows.iter_mut() {
                let v = if neg { -row[j] } else { row[j] };
                row.push(v);
            }
        }
    }
    (d, one_hot)
}

fn job(c: &mut Case, one_hot: bool) -> Job {
    if c.rng.chance(0.4) {
        Job::Tree(*c.rng.pick(&KINDS))
    } else {
        let k = if one_hot { *c.rng.pick(&EKINDS) } else { EKind::Reg };
        Job::Ens(k, c.rng.range(1, 6) as u32, *c.rng.pick(&[0.1, 0.3, 1.0]))
    }
}

fn schedules() -> &'static Mutex<HashSet<u64>> {
    static S: OnceLock<Mutex<HashSet<u64>>> = OnceLock::new();
    S.get_or_init(|| Mutex::new(HashSet::new()))
}

fn levels(c: &mut Case) -> u32 {
    *c.rng.pick(&[1, 2, 3, 4, 6, 8, 12, 100])
}

/// One training at a time on pools of every size, delays injected, schedule recorded.
fn pools(c: &mut Case) -> Result<(), String> {
    let brittle_data = c.rng.chance(0.15);
    let (d, one_hot) = if brittle_data {
        let n = c.rng.range(20, 700);
        (brittle(c, n), false)
    } else {
        data(c)
    };
    let set = d.set();
    let lv = levels(c);
    let j = if brittle_data { Job::Ens(EKind::Reg, 3, 1.0) } else { job(c, one_hot) };
    let probes = gen::probes(&mut c.rng, &d, 6);
    c.describe(format!("{:?} limit {}\n{}", j, lv, d.text()));
    DELAY.store(0, SeqCst);
    LOGGING.store(0, SeqCst);
    PEAK.store(0, SeqCst);
    let want = pool(0).install(|| perform(j, &d, &set, &probes, lv, false))?;
    let mut orders = HashSet::new();
    for rep in 0..10usize {
        let p = pick(&mut c.rng);
        let threads = rep % 4 != 3;
        let delay = if rep % 3 == 0 { 0 } else { c.rng.u64() | 1 };
        DELAY.store(delay, SeqCst);
        LOG.lock().unwrap_or_else(|e| e.into_inner()).clear();
        // undisturbed runs are not recorded either: the log itself orders threads
        LOGGING.store((delay != 0) as u64, SeqCst);
        let got = pool(p).install(|| perform(j, &d, &set, &probes, lv, threads));
        LOGGING.store(0, SeqCst);
        DELAY.store(0, SeqCst);
        let got = got?;
        c.saw("trainings compared bit for bit with the single-threaded one", 1);
        if got != want {
            return Err(format!(
                "{:?} with multi-threading {} on {} worker threads (delays {}) differs from the single-threaded result",
                j, threads, SIZES[p], delay != 0
            ));
        }
        let mut h = 3;
        let log = LOG.lock().unwrap_or_else(|e| e.into_inner());
        c.saw("split searches recorded", log.len() as u64);
        for (n, t) in log.iter() {
            fnv(&mut h, *n);
            fnv(&mut h, *t as u64);
        }
        if log.len() > 2 {
            orders.insert(h);
            if schedules().lock().unwrap().insert(h) {
                c.saw("distinct interleavings of split searches (order and worker)", 1);
            }
        }
    }
    if orders.len() > 1 {
        c.nontrivial(d.hash() ^ lv as u64);
        c.saw("data sets seen under two or more interleavings", 1);
    }
    let peak = PEAK.load(SeqCst);
    if peak > 1 {
        c.saw("cases with overlapping split searches", 1);
    }
    if c.idx < 2 {
        c.sample(format!("{:?} limit {} {} => {} interleavings, up to {} searches at once", j, lv, d.brief(), orders.len(), peak));
    }
    Ok(())
}

/// Many trainings and predictions at the same time.
fn concurrent(c: &mut Case) -> Result<(), String> {
    let m = c.rng.range(2, 5);
    let mut jobs = vec![];
    let mut text = String::new();
    for _ in 0..m {
        let (d, one_hot) = data(c);
        let j = job(c, one_hot);
        let lv = levels(c);
        let probes = gen::probes(&mut c.rng, &d, 4);
        let set = d.set();
        text.push_str(&format!("{:?} limit {}\n{}\n", j, lv, vph::run::clip(&d.text(), 20_000)));
        jobs.push((d, set, j, lv, probes));
    }
    c.describe(text);
    DELAY.store(0, SeqCst);
    let mut want = vec![];
    for (d, set, j, lv, probes) in &jobs {
        want.push(pool(0).install(|| perform(*j, d, set, probes, *lv, false))?);
    }
    DELAY.store(c.rng.u64() | 1, SeqCst);
    let shared = pick(&mut c.rng);
    let plan: Vec<(usize, usize, bool)> = (0..m * 3)
        .map(|i| {
            (
                i % m,
                if c.rng.chance(0.5) { shared } else { pick(&mut c.rng) },
                c.rng.chance(0.75),
            )
        })
        .collect();
    let results: Vec<Result<u64, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = plan
            .iter()
            .map(|(i, p, threads)| {
                let (d, set, j, lv, probes) = &jobs[*i];
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        if *p == 0 {
                            // on a thread of its own, entering the global pool
                            perform(*j, d, set, probes, *lv, *threads)
                        } else {
                            pool(*p).install(|| perform(*j, d, set, probes, *lv, *threads))
                        }
                    })
                    .unwrap_or_else(|e| vph::run::fail(&format!("thread: {}", e)))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("training thread panicked".into()))).collect()
    });
    for ((i, p, threads), r) in plan.iter().zip(results) {
        let got = r?;
        c.saw("concurrent trainings compared bit for bit with a lone one", 1);
        if got != want[*i] {
            return Err(format!(
                "{:?} (limit {}, multi-threading {}, pool of {}) gives another result when {} trainings run at once",
                jobs[*i].2, jobs[*i].3, threads, SIZES[*p], plan.len()
            ));
        }
    }
    c.nontrivial(jobs.iter().fold(1, |h, j| h ^ j.0.hash().rotate_left(j.3)));
    Ok(())
}

/// One model, predicted from many threads at once.
fn shared_model(c: &mut Case) -> Result<(), String> {
    let d = gen::any(&mut c.rng, Labels::OneHot);
    let set = d.set();
    let kind = *c.rng.pick(&EKINDS);
    let lv = levels(c);
    let it = c.rng.range(1, 8) as u32;
    c.describe(format!("{:?} limit {} iterations {}\n{}", kind, lv, it, d.text()));
    DELAY.store(0, SeqCst);
    let m = guarded(|| Model::train(kind, set.clone(), config_with(d.k(), lv, true, delayed), it, 0.3))?;
    let probes = gen::probes(&mut c.rng, &d, 16);
    let want: Vec<Vec<f64>> = guarded(|| probes.iter().map(|r| m.predict(r)).collect())?;
    let score = guarded(|| m.score(&set))?;
    let bad: Vec<Option<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..6usize)
            .map(|w| {
                let (m, probes, want, set) = (&m, &probes, &want, &set);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        for rep in 0..8usize {
                            for i in 0..probes.len() {
                                let i = (i * 7 + w + rep) % probes.len();
                                let got = match guarded(|| m.predict(&probes[i])) {
                                    Ok(g) => g,
                                    Err(e) => return Some(e),
                                };
                                if !vph::oracle::same_bits(&got, &want[i]) {
                                    return Some(format!("row {:?}: {:?} while other threads predict, {:?} alone", probes[i], got, want[i]));
                                }
                            }
                            match guarded(|| m.score(set)) {
                                Ok(x) if x.to_bits() == score.to_bits() => {}
                                Ok(x) => return Some(format!("score {:?} while other threads predict, {:?} alone", x, score)),
                                Err(e) => return Some(e),
                            }
                        }
                        None
                    })
                    .unwrap_or_else(|e| vph::run::fail(&format!("thread: {}", e)))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Some("thread panicked".into()))).collect()
    });
    for b in bad.into_iter().flatten() {
        return Err(b);
    }
    c.saw("predictions made while other threads predict", 6 * 8 * 16);
    c.nontrivial(d.hash() ^ it as u64);
    Ok(())
}

/// Labels that one tree fits exactly: the following trees grow on what the
/// rounding of sums left behind, and copies of the columns in the opposite
/// direction make two features equally good up to that rounding.
fn brittle(c: &mut Case, n: usize) -> Data {
    let r = &mut c.rng;
    let cc = r.range(1, 3);
    let k = r.range(1, 3);
    let mut d = gen::data(r, n, cc, k, Labels::Any);
    for row in d.rows.iter_mut() {
        for x in row.iter_mut() {
            *x = r.below(6) as f64;
        }
    }
    if r.chance(0.4) {
        // nothing to learn, and few candidates: whether one seems to help is
        // decided by the rounding of the variance before the split alone
        for row in d.rows.iter_mut() {
            row.truncate(1);
            row[0] = (row[0] >= 3.0) as u8 as f64;
        }
        for t in 0..k {
            let v = *r.pick(&[0.1, 0.3, 0.7, 1.1, 2.3, 1e-3, 123.456, 1.0 / 3.0]);
            d.labels.iter_mut().for_each(|l| l[t] = v);
        }
        return d;
    }
    let groups: Vec<Vec<f64>> = (0..36)
        .map(|_| (0..k).map(|_| *r.pick(&[0.1, 0.3, 0.7, 1.1, 2.3, 1e-3, 123.456, 1.0 / 3.0])).collect())
        .collect();
    let used = r.range(1, cc);
    for i in 0..n {
        let g = d.rows[i][..used].iter().take(2).fold(0, |a, x| a * 6 + *x as usize);
        d.labels[i] = groups[g].clone();
    }
    for j in 0..cc {
        for row in d.rows.iter_mut() {
            let v = -row[j];
            row.push(v);
        }
    }
    d
}

/// Large inputs, where thresholds for parallel work are likely to sit.
fn large(c: &mut Case) -> Result<(), String> {
    let shapes = [(5000, 3, 2), (20_000, 2, 3), (70_000, 2, 2), (100, 2000, 2), (300, 3, 200), (1025, 64, 2), (4097, 9, 3), (12, 20_000, 2)];
    let (n, cc, k) = if c.idx % 2 == 0 {
        shapes[(c.idx / 2 % shapes.len() as u64) as usize]
    } else {
        let n = c.rng.span(20_000).max(2);
        let cc = c.rng.span((60_000 / n).max(2));
        (n, cc, c.rng.span((200_000 / n / cc).max(2).min(400)).max(2))
    };
    let one_hot = c.rng.chance(0.4);
    let brittle_data = n > 200 && c.idx % 3 == 0;
    let one_hot = one_hot && !brittle_data;
    let mut d = if brittle_data {
        brittle(c, n)
    } else {
        gen::data(&mut c.rng, n, cc, k, if one_hot { Labels::OneHot } else { Labels::Any })
    };
    if !one_hot && !brittle_data {
        // sums that depend on the order of addition
        for l in d.labels.iter_mut() {
            for x in l.iter_mut() {
                *x += c.rng.normal();
            }
        }
    }
    let set = d.set();
    let lv = if brittle_data { 12 } else if n > 10_000 { 4 } else { *c.rng.pick(&[3, 5, 9]) };
    let j = if brittle_data && c.idx % 2 == 0 {
        Job::Ens(EKind::Reg, 3, 1.0)
    } else if brittle_data {
        Job::Tree(Kind::Plain)
    } else if c.idx % 2 == 0 {
        Job::Tree(*c.rng.pick(&[Kind::Plain, Kind::Plain, Kind::Grad, Kind::Presorted, Kind::Amg]))
    } else {
        Job::Ens(if one_hot { *c.rng.pick(&EKINDS) } else { EKind::Reg }, 2, 0.5)
    };
    c.describe(format!("{:?} limit {}\n{}", j, lv, d.brief()));
    DELAY.store(0, SeqCst);
    let want = pool(0).install(|| perform(j, &d, &set, &[], lv, false))?;
    for _ in 0..4 {
        let p = pick(&mut c.rng).max(1);
        let threads = c.rng.chance(0.8);
        let got = pool(p).install(|| perform(j, &d, &set, &[], lv, threads))?;
        c.saw("large trainings compared bit for bit", 1);
        if got != want {
            return Err(format!(
                "{:?} with multi-threading {} on {} worker threads differs from the single-threaded result ({} rows, {} features)",
                j, threads, SIZES[p], n, cc
            ));
        }
    }
    c.nontrivial(d.hash());
    Ok(())
}

fn main() {
    run(
        "C05",
        "cases: generated data with tied and duplicated columns, the four tree kinds and three ensembles, thread pools of 1 to 64 workers, random delays injected before and after each split search through the split-finder function pointer, several trainings at once; all results compared bit for bit with a single-threaded run; non-trivial: the data set was seen under at least two different recorded interleavings (or trained concurrently); distinct by data and limit",
        &["interleavings are those the scheduler and the injected delays produced, not all"],
        vec![
            Stage::new("pools", pools, (900, 12_000), (30, 500)).serial(),
            Stage::new("concurrent", concurrent, (160, 2500), (15, 500)).serial(),
            Stage::new("shared-model", shared_model, (300, 4000), (30, 200)).serial(),
            Stage::new("large", large, (48, 480), (20, 300)).serial(),
        ],
    )
}
