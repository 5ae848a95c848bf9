//! C25: what is dropped is freed, and a model holds only its trees.
use common::data_processor::{create_dataset_with_sorted_features, new_partition};
use common::data_reader::{
    get_feature_names, read_csv_data, read_csv_data_multi_target, read_csv_data_one_hot_multi_target,
};
use common::numerical_calculations::*;
use common::question::Question;
use multi_target_decision_tree::data_partitioner::partition;
use multi_target_decision_tree::decision_trees::{
    RegressionMultiTargetDecisionTree, RegressionMultiTargetDecisionTreeNewPartition,
};
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::{
    LeafOutputCalculator, LeafOutputType,
};
use multi_target_decision_tree::grad_boost_decision_trees::{
    AMGBoostTree, GradBoostMultiTargetDecisionTree,
};
use multi_target_decision_tree::printer::print_tree_regression;
use multi_target_decision_tree::scorer::classification::{calculate_accuracy, predict_class};
use multi_target_decision_tree::scorer::regression::{
    calculate_overall_mean_squared_error, calculate_overall_mean_squared_error_new_partition,
};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use vph::ens::{EKind, Model, EKINDS};
use vph::gen::{self, Data, Labels};
use vph::rng::Rng;
use vph::run::{guarded, main as run, Case, Stage};
use vph::tree::{config, find_best_split};

/// Counts the bytes that are allocated and not yet freed.
struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static COUNTING: Counting = Counting;

fn live() -> i64 {
    LIVE.load(Relaxed)
}

/// Bytes that a library may keep for itself (thread pools, deferred frees).
const SLACK: i64 = 64 << 10;

/// Live bytes before, half way through and after `rounds` rounds of `f`.
/// Only memory that keeps growing in both halves is a leak: what is set up
/// once is not.
fn grows(rounds: usize, f: &mut dyn FnMut()) -> (i64, i64) {
    for _ in 0..rounds.div_ceil(8).max(3) {
        f();
    }
    let a = settled();
    for _ in 0..rounds {
        f();
    }
    let b = settled();
    for _ in 0..rounds {
        f();
    }
    (b - a, settled() - b)
}

/// Worker threads may free what they hold a moment later.
fn settled() -> i64 {
    let mut low = live();
    for _ in 0..3 {
        std::thread::sleep(std::time::Duration::from_millis(2));
        low = low.min(live());
    }
    low
}

/// Threads of this process and its open files.
fn held() -> Result<(i64, i64), String> {
    match (entries("/proc/self/task"), entries("/proc/self/fd")) {
        (Ok(a), Ok(b)) => Ok((a, b)),
        (Err(e), _) | (_, Err(e)) => Err(format!("HARNESS-ERROR {}", e)),
    }
}

fn judge_growth(c: &mut Case, what: &str, rounds: usize, f: &mut dyn FnMut()) -> Result<(), String> {
    let calls = CALLS.load(Relaxed);
    let begin = std::time::Instant::now();
    let mut rounds = rounds;
    let h0 = held()?;
    let (mut x, mut y) = grows(rounds, f);
    let h1 = held()?;
    if h1.0 >= h0.0 + 5 || h1.1 >= h0.1 + 5 {
        // the thread pool is set up once; a thread may take a moment to end
        f();
        std::thread::sleep(std::time::Duration::from_millis(200));
        let h1 = held()?;
        grows(rounds, f);
        std::thread::sleep(std::time::Duration::from_millis(200));
        let h2 = held()?;
        for (name, p, q) in [("threads", h1.0, h2.0), ("open files", h1.1, h2.1)] {
            if q >= p + 5 {
                return Err(format!("{}: the number of {} grows from {} to {} in {} rounds", what, name, p, q, 2 * rounds));
            }
        }
    }
    c.saw("counts of open files and threads", 2);
    // a leak grows with the number of rounds, however little each leaves
    let mut steps = 0;
    while x > 200 && y > 200 && steps < 3 && begin.elapsed().as_secs() < 15 {
        if steps > 0 && x > SLACK && y > SLACK {
            break;
        }
        steps += 1;
        let more = if x > SLACK && y > SLACK { 2 } else { 6 };
        let (p, q) = grows(rounds * more, f);
        rounds *= more;
        if p + q > (x + y) / 4 * more as i64 * 3 {
            (x, y) = (p, q);
        } else {
            (x, y) = (0, 0);
        }
    }
    c.saw("allocations counted", CALLS.load(Relaxed) - calls);
    c.saw("rounds measured", 2 * rounds as u64);
    if x > SLACK && y > SLACK || steps >= 2 && x > 4096 && y > 4096 {
        return Err(format!(
            "{}: {} bytes more are held after {} rounds and {} more after another {}, although everything is dropped",
            what, x, rounds, y, rounds
        ));
    }
    if steps > 0 {
        c.saw("suspected leaks cleared by longer runs", 1);
    }
    Ok(())
}

fn shape(c: &mut Case, want: Labels) -> (usize, usize, usize) {
    let n = *c.rng.pick(&[20, 60, 150]);
    let cc = c.rng.range(1, 6);
    let k = if want == Labels::OneHot { c.rng.range(2, 6) } else { c.rng.range(1, 6) };
    (n, cc, k)
}

const TOPICS: usize = 13;

/// One round of one use of the library; everything it makes is dropped.
fn round(rng: &mut Rng, topic: usize, d: &Data, threads: bool, levels: u32) {
    let set = d.set();
    let k = d.k();
    let cfg = || config(k, levels, threads);
    match topic {
        0 => {
            let root = Box::new(RegressionMultiTargetDecisionTree::new(set.clone(), cfg()).root);
            calculate_accuracy(&set, &root);
            calculate_overall_mean_squared_error(&set, &root);
            predict_class(&d.rows[0], &root);
        }
        1 => {
            let sorted = create_dataset_with_sorted_features(&set);
            let root = Box::new(RegressionMultiTargetDecisionTreeNewPartition::new(sorted, cfg()).root);
            calculate_overall_mean_squared_error_new_partition(&set, &root);
        }
        2 | 3 => {
            let ty = if topic == 2 { LeafOutputType::Regression } else { LeafOutputType::MultiClassClassification };
            GradBoostMultiTargetDecisionTree::new(set.clone(), cfg(), LeafOutputCalculator::new(ty));
            AMGBoostTree::new(set.clone(), cfg(), LeafOutputCalculator::new(ty));
        }
        4 | 5 | 6 => {
            let it = if d.n() < 200 && rng.chance(0.12) { *rng.pick(&[40, 130]) } else { rng.range(0, 6) as u32 };
            let m = Model::train(EKINDS[topic - 4], set.clone(), cfg(), it, 0.5);
            m.score(&set);
            m.predictions(&set);
            m.predict(&d.rows[0]);
        }
        7 => {
            let q = Question::new(rng.below(d.c()) as u32, d.rows[rng.below(d.n())][0]);
            partition(&set, &q);
            let sorted = create_dataset_with_sorted_features(&set);
            let all = sorted.labels.clone();
            let (t, f) = new_partition(&sorted, q.column as usize, q.value, &all);
            new_partition(&t, 0, 0.0, &all);
            new_partition(&f, 0, 0.0, &all);
            find_best_split(&set, k as u32);
        }
        8 => {
            let v: Vec<f64> = d.labels.iter().flatten().cloned().collect();
            let w: Vec<f64> = v.iter().rev().map(|x| x + 1.0).collect();
            drop(add_f64_slices_as_vector(&v, &w));
            drop(subtract_f64_slices_as_vector(&v, &w));
            drop(multiply_f64_slices_as_vector(&v, &w));
            drop(divide_f64_slices_as_vector(&v, &w));
            drop(multiply_f64_slice_by_f64_scalar(1.5, &v));
            mean_sum_of_squared_differences_between_f64_slices(&v, &w);
            drop(sum_of_f64_vectors(&d.labels));
            drop(calculate_average_f64_vector(&d.labels));
        }
        9 => {
            // refused calls
            let mut short = d.set();
            short.labels.pop();
            let _ = guarded(|| {
                RegressionMultiTargetDecisionTree::new(short.clone(), cfg());
            });
            let _ = guarded(|| drop(Model::train(EKind::Reg, short.clone(), cfg(), 2, 0.5)));
            let _ = guarded(|| drop(add_f64_slices_as_vector(&[1.0], &[1.0, 2.0])));
            let _ = guarded(|| drop(read_csv_data("/nonexistent/file.csv")));
        }
        10 => {
            let names: Vec<String> = (0..d.c()).map(|j| format!("feature {} {}", j, rng.below(1_000_000))).collect();
            let root = Box::new(RegressionMultiTargetDecisionTree::new(set, cfg()).root);
            {
                let _quiet = Quiet::new();
                print_tree_regression(&root, String::new(), &names);
            }
            for _ in 0..20 {
                drop(Question::new(0, rng.normal()).to_string(&names[0]));
            }
        }
        _ => {}
    }
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// Standard output goes nowhere while this lives.
struct Quiet(i32);
impl Quiet {
    fn new() -> Quiet {
        use std::io::Write;
        use std::os::fd::AsRawFd;
        let _ = std::io::stdout().flush();
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null");
        let kept = unsafe { dup(1) };
        if let Ok(f) = null {
            unsafe { dup2(f.as_raw_fd(), 1) };
        }
        Quiet(kept)
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            dup2(self.0, 1);
            close(self.0);
        }
    }
}

fn sessions(c: &mut Case) -> Result<(), String> {
    let topic = (c.idx % (TOPICS as u64 - 2)) as usize;
    let want = if topic == 5 || topic == 6 || topic == 0 && c.rng.chance(0.5) {
        Labels::OneHot
    } else {
        *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot])
    };
    let (n, cc, k) = shape(c, want);
    let large = topic < 8 && c.rng.chance(0.12);
    let n = if large { 2500 } else { n };
    let k = if topic == 2 || topic == 3 { k.max(2) } else { k };
    let threads = c.rng.chance(0.5);
    let levels = *c.rng.pick(&[2, 3, 6, 100]);
    let levels = if large { levels.min(3) } else { levels };
    c.describe(format!("topic {} shape {}x{}x{} threads {} limit {}", topic, n, cc, k, threads, levels));
    let mut rng = Rng::new(c.rng.u64());
    let rounds = if large { 8 } else if topic < 7 { 50 } else { 400 } * if c.thorough { 4 } else { 1 };
    let names = [
        "plain trees and their scores", "pre-sorted trees and their scores", "boosting trees with mean leaves",
        "boosting trees with multi-class leaves", "regression ensembles", "multi-class ensembles",
        "approximate ensembles", "partitions and split searches", "vector helpers", "refused calls", "printing",
    ];
    judge_growth(c, names[topic], rounds, &mut || {
        let d = gen::data(&mut rng, n, cc, k, want);
        round(&mut rng, topic, &d, threads, levels);
    })?;
    c.saw(names[topic], 2 * rounds as u64);
    c.nontrivial(c.idx * 31 + n as u64 + (k as u64) << 8);
    if c.idx < 2 {
        c.sample(format!("{}: shape {}x{}x{}, {} rounds twice", names[topic], n, cc, k, rounds));
    }
    Ok(())
}

/// A kept model asked again and again, by rows it has and has not seen.
fn service(c: &mut Case) -> Result<(), String> {
    let kind = EKINDS[(c.idx % 3) as usize];
    let want = if kind == EKind::Reg { *c.rng.pick(&[Labels::Any, Labels::Whole]) } else { Labels::OneHot };
    let (n, cc, k) = shape(c, want);
    let d = gen::data(&mut c.rng, n, cc, k, want);
    c.describe(format!("{:?}\n{}", kind, d.text()));
    let it = *c.rng.pick(&[1, 5, 20]);
    let m = guarded(|| Model::train(kind, d.set(), config(k, 3, false), it, 0.3))?;
    let oh = gen::data(&mut c.rng, n, cc, 2, Labels::OneHot);
    let root = guarded(|| Box::new(RegressionMultiTargetDecisionTree::new(oh.set(), config(2, 4, false)).root))?;
    let mut rng = Rng::new(c.rng.u64());
    let rounds = if c.thorough { 20_000 } else { 6_000 };
    let set = d.set();
    judge_growth(c, &format!("{:?} predictions of a kept model", kind), rounds, &mut || {
        let row: Vec<f64> = (0..cc).map(|_| rng.normal()).collect();
        m.predict(&row);
        predict_class(&row, &root);
        if rng.chance(0.01) {
            m.score(&set);
            m.predictions(&set);
            calculate_accuracy(&oh.set(), &root);
            calculate_overall_mean_squared_error(&oh.set(), &root);
        }
    })?;
    c.saw("predictions of a kept model", 4 * rounds as u64);
    c.nontrivial(d.hash());
    Ok(())
}

/// Bytes a data set needs at least.
fn raw(n: usize, c: usize, k: usize) -> i64 {
    (n * (c * 8 + 24 + k * 8 + 24) + c * (n * 8 + 24)) as i64
}

/// What training leaves behind: the model, not the data it was trained on.
fn models(c: &mut Case) -> Result<(), String> {
    let topic = 2 + (c.idx % 5) as usize;
    let want = if topic >= 5 { Labels::OneHot } else { *c.rng.pick(&[Labels::Any, Labels::Whole]) };
    let n = *c.rng.pick(&[2000, 4000, 8000]);
    let (cc, k) = (c.rng.range(2, 6), c.rng.range(2, 6));
    let it = *c.rng.pick(&[1, 5, 20]);
    let levels = *c.rng.pick(&[0, 1, 2, 3, 4]);
    let threads = c.rng.chance(0.5);
    let d = gen::data(&mut c.rng, n, cc, k, want);
    c.describe(format!("topic {} {}x{}x{} iterations {} limit {} threads {}", topic, n, cc, k, it, levels, threads));
    let set = d.set();
    let per_node = (500 + 40 * k) as i64;
    let mut best: Option<(i64, i64, usize)> = None;
    for _ in 0..3 {
        let before = settled();
        let (held, nodes, extra): (i64, usize, i64) = match topic {
            2 | 3 => {
                let ty = if topic == 2 { LeafOutputType::Regression } else { LeafOutputType::MultiClassClassification };
                if c.rng.chance(0.5) {
                    let t = guarded(|| GradBoostMultiTargetDecisionTree::new(set.clone(), config(k, levels, threads), LeafOutputCalculator::new(ty)))?;
                    (settled() - before, vph::tree::view(&t.root)?.leaves() * 2, 0)
                } else {
                    let t = guarded(|| AMGBoostTree::new(set.clone(), config(k, levels, threads), LeafOutputCalculator::new(ty)))?;
                    (settled() - before, vph::tree::view(&t.root)?.leaves() * 2, 0)
                }
            }
            _ => {
                let m = guarded(|| Model::train(EKINDS[topic - 4], set.clone(), config(k, levels, threads), it, 0.5))?;
                let held = settled() - before;
                (held, m.trees()?.iter().map(|t| t.leaves() * 2).sum(), 64 * it as i64)
            }
        };
        let allowed = nodes as i64 * per_node + extra + (24 << 10);
        if best.map_or(true, |b| held - allowed < b.0 - b.1) {
            best = Some((held, allowed, nodes));
        }
        c.saw("models measured", 1);
        if held <= allowed {
            break;
        }
    }
    let (held, allowed, nodes) = best.unwrap();
    if held > allowed {
        return Err(format!(
            "after training on {} rows, {} features, {} targets, the model of {} nodes holds {} bytes, more than {}",
            n, cc, k, nodes, held, allowed
        ));
    }
    if raw(n, cc, k) > allowed {
        c.saw("models far smaller than their training data", 1);
    }
    c.saw("bytes held by models", held.max(0) as u64);
    c.nontrivial(d.hash() ^ topic as u64);
    if c.idx < 2 {
        c.sample(format!("{} limit {}: {} nodes hold {} bytes, allowed {}", d.brief(), levels, nodes, held, allowed));
    }
    Ok(())
}

fn entries(p: &str) -> Result<i64, String> {
    Ok(std::fs::read_dir(p).map_err(|e| format!("HARNESS-ERROR {}: {}", p, e))?.count() as i64)
}

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Files, threads and memory after reading many CSV files.
fn handles(c: &mut Case) -> Result<(), String> {
    let dir = Scratch(std::env::temp_dir().join(format!("vph-c25-{}-{:x}", std::process::id(), c.rng.u64())));
    std::fs::create_dir_all(&dir.0).map_err(|e| format!("HARNESS-ERROR {}", e))?;
    let n = *c.rng.pick(&[3, 30, 200]);
    let cc = c.rng.range(1, 6);
    let k = c.rng.range(2, 4);
    let d = gen::data(&mut c.rng, n, cc, k, Labels::Whole);
    let line = |r: &Vec<f64>| r.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(",");
    let head = |m: usize| (0..m).map(|j| format!("c{}", j)).collect::<Vec<_>>().join(",");
    let file = |name: &str, text: String| -> Result<String, String> {
        let p = dir.0.join(name);
        std::fs::write(&p, text).map_err(|e| format!("HARNESS-ERROR {}", e))?;
        Ok(p.to_string_lossy().to_string())
    };
    let body = |rows: &[Vec<f64>]| rows.iter().map(line).collect::<Vec<_>>().join("\n") + "\n";
    let f = file("f.csv", head(cc) + "\n" + &body(&d.rows))?;
    let l = file("l.csv", head(k) + "\n" + &body(&d.labels))?;
    let both: Vec<Vec<f64>> = d.rows.iter().enumerate().map(|(i, r)| [r.clone(), vec![(i % k) as f64]].concat()).collect();
    let b = file("b.csv", head(cc + 1) + "\n" + &body(&both))?;
    let mut heads = vec![];
    for (i, h) in [
        "1,2,3".to_string(), "a,1.5,nan".into(), "\"a\",\"b,c\",\"\"".into(), "größe,漢字,#".into(), "".into(), head(400), "same,same,same".into(),
    ]
    .iter()
    .enumerate()
    {
        heads.push(file(&format!("h{}.csv", i), h.clone() + "\n" + &"1,2,3\n".repeat(i))?);
    }
    let bytes = dir.0.join("bytes.csv");
    std::fs::write(&bytes, b"a,\xff\xfe,c\n1,2,3\n").map_err(|e| format!("HARNESS-ERROR {}", e))?;
    heads.push(bytes.to_string_lossy().to_string());
    let bad = file("x.csv", head(cc + 1) + "\n" + &body(&both) + "1\n")?;
    c.describe(d.text());
    let rounds = if c.thorough { 300 } else { 100 };
    let (mut fds, mut tasks) = (vec![], vec![]);
    let mut i = 0;
    let set = d.set();
    judge_growth(c, "CSV reading", rounds, &mut || {
        drop(read_csv_data(&b));
        drop(read_csv_data_one_hot_multi_target(&b, k));
        drop(read_csv_data_multi_target(&f, &l));
        drop(get_feature_names(&b));
        for h in &heads {
            let _ = guarded(|| drop(get_feature_names(h)));
            let _ = guarded(|| drop(read_csv_data(h)));
        }
        let _ = guarded(|| drop(read_csv_data(&bad)));
        let _ = guarded(|| drop(read_csv_data_one_hot_multi_target(&bad, k)));
        let _ = guarded(|| drop(read_csv_data_multi_target(&bad, &l)));
        let _ = guarded(|| drop(read_csv_data_multi_target(&f, &bad)));
        if i % 4 == 0 {
            RegressionMultiTargetDecisionTree::new(set.clone(), config(k, 4, true));
            Model::train(EKind::Reg, set.clone(), config(k, 2, true), 2, 0.5);
        }
        if i % 20 == 0 {
            if let (Ok(x), Ok(y)) = (entries("/proc/self/fd"), entries("/proc/self/task")) {
                fds.push(x);
                tasks.push(y);
            }
        }
        i += 1;
    })?;
    c.saw("CSV files read", 24 * i as u64);
    // the first rounds set up the thread pool
    for (what, v) in [("open files", &fds), ("threads", &tasks)] {
        let m = v.len();
        if m < 6 {
            return Err("HARNESS-ERROR no handles counted".into());
        }
        c.saw("counts of open files and threads", m as u64);
        let lows: Vec<i64> = v.chunks(m / 3).map(|x| *x.iter().min().unwrap()).collect();
        if lows[1] >= lows[0] + 3 && lows[2] >= lows[1] + 3 {
            return Err(format!("the number of {} keeps growing: {:?} over {} rounds", what, v, i));
        }
    }
    c.nontrivial(d.hash());
    Ok(())
}

fn main() {
    run(
        "C25",
        "cases: one use of the library (each kind of tree, ensemble, partition, vector helper, CSV reader, refused call, or predictions of a kept model) repeated hundreds of times, with the bytes allocated and not freed counted by the allocator; models trained on thousands of rows and weighed; open files and threads counted; non-trivial: every one measured; distinct by data and use",
        &["growth counts as a leak only above 64 KiB in each half of a run and again in a run twice as long, or above 4 KiB when it stays in proportion in runs 6 and 36 times as long", "a model may take up to 500 + 40 x targets bytes per node; the memory of trees that keep their training rows is not bounded, only freed"],
        vec![
            Stage::new("sessions", sessions, (22, 110), (28, 200)).serial(),
            Stage::new("service", service, (4, 40), (15, 150)).serial(),
            Stage::new("models", models, (40, 400), (25, 200)).serial(),
            Stage::new("handles", handles, (2, 20), (15, 100)).serial(),
        ],
    )
}
