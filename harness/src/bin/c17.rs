//! C17: nothing but finite numbers comes out of ordinary data, and training
//! always ends.
use common::data_processor::create_dataset_with_sorted_features;
use common::datasets::MultiTargetDataSet;
use common::results::BestSplitResult;
use multi_target_decision_tree::decision_trees::{
    RegressionMultiTargetDecisionTree, RegressionMultiTargetDecisionTreeNewPartition, TreeConfig,
};
use multi_target_decision_tree::scorer::classification::{calculate_accuracy, predict_class};
use multi_target_decision_tree::scorer::regression::{
    calculate_overall_mean_squared_error, calculate_overall_mean_squared_error_new_partition,
};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use vph::ens::{EKind, Model, EKINDS};
use vph::forge;
use vph::gen::{self, Data, Labels};
use vph::run::{clip, guarded, main as run, Case, Stage};
use vph::tree::{config, config_with, find_best_split, view, LeafView, T};

// searches made by the trainings of one case; a case is identified by the
// number of its slot, carried in number_of_classes
const SLOTS: usize = 64;
static MADE: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static LIMIT: [AtomicU64; SLOTS] = [const { AtomicU64::new(u64::MAX) }; SLOTS];
thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
static NEXT: AtomicU64 = AtomicU64::new(0);

const SPENT: &str = "more split searches than any tree on these rows can have nodes";

fn counting_search(d: &MultiTargetDataSet, k: u32) -> BestSplitResult {
    let s = SLOT.with(|s| s.get());
    if s < SLOTS {
        let n = MADE[s].fetch_add(1, SeqCst);
        if n > LIMIT[s].load(SeqCst) {
            panic!("{}", SPENT);
        }
    }
    find_best_split(d, k)
}

/// Runs a training within a budget of split searches (single-threaded
/// trainings: they run on the calling thread).
fn bounded<A>(budget: u64, f: impl FnOnce() -> A) -> Result<(A, u64), String> {
    let slot = SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT.fetch_add(1, SeqCst) as usize % SLOTS);
        }
        s.get()
    });
    MADE[slot].store(0, SeqCst);
    LIMIT[slot].store(budget, SeqCst);
    let r = guarded(f);
    let made = MADE[slot].load(SeqCst);
    LIMIT[slot].store(u64::MAX, SeqCst);
    match r {
        Ok(a) => Ok((a, made)),
        Err(e) if e.contains(SPENT) => Err(format!("the training does not end: {} ({} made)", SPENT, made)),
        Err(e) => Err(e),
    }
}

fn finite_tree(t: &T) -> Result<u64, String> {
    match t {
        T::Inner(_, v, a, b) => {
            if !v.is_finite() {
                return Err(format!("threshold {:?}", v));
            }
            Ok(1 + finite_tree(a)? + finite_tree(b)?)
        }
        T::Leaf(LeafView::Output(o)) => {
            if o.iter().any(|x| !x.is_finite()) {
                return Err(format!("leaf output {:?}", clip(&format!("{:?}", o), 300)));
            }
            Ok(1)
        }
        T::Leaf(LeafView::Amg(v, _)) => {
            if !v.is_finite() {
                return Err(format!("leaf value {:?}", v));
            }
            Ok(1)
        }
        T::Leaf(_) => Ok(1),
    }
}

fn one_hot(p: &[f64], k: usize) -> bool {
    p.len() == k && p.iter().filter(|x| **x == 1.0).count() == 1 && p.iter().filter(|x| **x == 0.0).count() == k - 1
}

fn settings(levels: u32, threads: bool, k: usize) -> TreeConfig {
    if threads {
        config(k, levels, true)
    } else {
        config_with(k, levels, false, counting_search)
    }
}

fn ensemble(c: &mut Case, kind: EKind, d: &Data, levels: u32, threads: bool, it: u32, lr: f64) -> Result<(), String> {
    c.describe(format!("{:?} limit {} threads {} iterations {} learning rate {:?}\n{}", kind, levels, threads, it, lr, d.text()));
    let at = |e: String| format!("{:?}, {} iterations, limit {}, learning rate {:?}: {}", kind, it, levels, lr, e);
    let k = d.k();
    let budget = it as u64 * (8 * d.n() as u64 + 8) + 8;
    let (m, made) = bounded(budget, || Model::train(kind, d.set(), settings(levels, threads, k), it, lr)).map_err(at)?;
    c.saw("split searches counted", made);
    let trees = m.trees().map_err(at)?;
    for (i, t) in trees.iter().enumerate() {
        let n = finite_tree(t).map_err(|e| at(format!("tree {}: {}", i, e)))?;
        c.saw("tree nodes found finite", n);
    }
    if m.initial_guess().iter().any(|x| !x.is_finite()) || !m.learning_rate().is_finite() {
        return Err(at(format!("initial guess {:?}, learning rate {:?}", m.initial_guess(), m.learning_rate())));
    }
    let mut rows = gen::probes(&mut c.rng, d, 12);
    rows.extend(d.rows.iter().take(12).cloned());
    for r in &rows {
        let p = guarded(|| m.predict(r)).map_err(at)?;
        let ok = if kind == EKind::Reg { p.len() == k && p.iter().all(|x| x.is_finite()) } else { one_hot(&p, k) };
        if !ok {
            return Err(at(format!("prediction {:?}", p)));
        }
        c.saw("predictions found finite", 1);
    }
    let set = d.set();
    let s = guarded(|| m.score(&set)).map_err(at)?;
    if !s.is_finite() || s < 0.0 || (kind != EKind::Reg && s > 1.0) {
        return Err(at(format!("score {:?}", s)));
    }
    c.saw("scores found finite", 1);
    if s == if kind == EKind::Reg { 0.0 } else { 1.0 } {
        c.saw("ensembles trained to a perfect fit", 1);
    }
    if trees.iter().filter(|t| t.leaves() > 1).count() > 1 {
        c.nontrivial(d.hash() ^ lr.to_bits() ^ (it as u64) << 16 ^ levels as u64);
    }
    if c.idx < 3 {
        c.sample(format!("{:?} {} iterations, learning rate {:?}, {} => score {:?}", kind, it, lr, d.brief(), s));
    }
    Ok(())
}

fn rate(c: &mut Case, kind: EKind) -> f64 {
    if kind == EKind::Reg {
        *c.rng.pick(&[0.1, 0.5, 1.0, 0.01, 1.5])
    } else {
        *c.rng.pick(&[0.1, 0.1, 0.5, 1.0, 0.01, 2.0, 5.0])
    }
}

fn labels(c: &mut Case, kind: EKind) -> Labels {
    if kind == EKind::Reg {
        *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot])
    } else {
        Labels::OneHot
    }
}

fn any(c: &mut Case) -> Result<(), String> {
    let kind = EKINDS[(c.idx % 3) as usize];
    let l = labels(c, kind);
    let d = gen::any(&mut c.rng, l);
    let lr = rate(c, kind);
    let levels = *c.rng.pick(&[0, 1, 2, 3, 5, 100, u32::MAX]);
    let threads = c.rng.chance(0.1);
    let it = *c.rng.pick(&[0, 1, 2, 5, 10, 20]);
    ensemble(c, kind, &d, levels, threads, it, lr)
}

/// Long after the training rows are fitted.
fn long(c: &mut Case) -> Result<(), String> {
    let kind = EKINDS[(c.idx % 3) as usize];
    let l = labels(c, kind);
    let mut d = gen::small(&mut c.rng, l);
    if kind != EKind::Reg && c.rng.chance(0.5) {
        // separable: the class is decided by the first feature
        let (n, k) = (d.n(), d.k());
        for i in 0..n {
            d.rows[i][0] = i as f64;
            d.labels[i] = vec![0.0; k];
            d.labels[i][(i * k / n).min(k - 1)] = 1.0;
        }
    }
    let lr = rate(c, kind);
    let levels = *c.rng.pick(&[0, 1, 2, 3, 100]);
    let top: &[u32] = if c.thorough { &[1000, 3000, 10_000] } else { &[300, 1000, 2000] };
    let it = *c.rng.pick(top);
    ensemble(c, kind, &d, levels, false, it, lr)
}

/// Degenerate shapes: one row, one class, constant features, equal rows.
fn plain_cases(c: &mut Case) -> Result<(), String> {
    let kind = EKINDS[(c.idx % 3) as usize];
    let n = *c.rng.pick(&[1, 1, 2, 3, 8, 30]);
    let cc = c.rng.range(1, 4);
    let k = if kind == EKind::Reg { c.rng.range(1, 4) } else { c.rng.range(2, 5) };
    let shape = c.rng.below(5);
    let rows: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            (0..cc)
                .map(|j| match shape {
                    0 => 1.0,
                    1 => (i % 2) as f64,
                    2 => (i * (j + 1)) as f64,
                    3 => 0.0,
                    _ => c.rng.normal() * 1e3,
                })
                .collect()
        })
        .collect();
    let style = c.rng.below(4);
    let labels: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            if kind == EKind::Reg {
                (0..k).map(|t| [0.0, 7.0, i as f64, 0.1 * (i + t) as f64][style]).collect()
            } else {
                let mut v = vec![0.0; k];
                v[match style {
                    0 => 0,
                    1 => k - 1,
                    2 => i % k,
                    _ => c.rng.below(k),
                }] = 1.0;
                v
            }
        })
        .collect();
    let d = Data {
        rows,
        labels,
        whole: false,
        note: "degenerate".into(),
    };
    let lr = rate(c, kind);
    let levels = *c.rng.pick(&[0, 1, 3, 100]);
    let it = *c.rng.pick(&[1, 2, 10, 200, 700]);
    let threads = c.rng.chance(0.1);
    ensemble(c, kind, &d, levels, threads, if threads { it.min(10) } else { it }, lr)
}

/// The size of the digit data sets: many classes, many features.
fn digits(c: &mut Case) -> Result<(), String> {
    let kind = if c.rng.chance(0.5) { EKind::Multi } else { EKind::Amg };
    let (n, cc, k) = *c.rng.pick(&[(300, 16, 10), (120, 30, 10), (600, 5, 6)]);
    let centres: Vec<Vec<f64>> = (0..k).map(|_| (0..cc).map(|_| c.rng.int(0, 16) as f64).collect()).collect();
    let noise = *c.rng.pick(&[1.0, 3.0, 6.0]);
    let mut rows = vec![];
    let mut labels = vec![];
    for _ in 0..n {
        let q = c.rng.below(k);
        rows.push((0..cc).map(|j| (centres[q][j] + c.rng.normal() * noise).round().max(0.0).min(16.0)).collect());
        let mut v = vec![0.0; k];
        v[q] = 1.0;
        labels.push(v);
    }
    let d = Data {
        rows,
        labels,
        whole: true,
        note: "digits".into(),
    };
    let lr = *c.rng.pick(&[0.1, 1.0, 1.0]);
    let it = if c.thorough { *c.rng.pick(&[60, 150, 300]) } else { *c.rng.pick(&[30, 60, 120]) };
    let threads = c.rng.chance(0.2);
    ensemble(c, kind, &d, 3, threads, it, lr)
}

/// Single trees of both kinds, their predictions and errors.
fn single(c: &mut Case) -> Result<(), String> {
    let l = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = if c.rng.chance(0.2) { gen::needle(&mut c.rng) } else { gen::any(&mut c.rng, l) };
    let levels = forge::levels(&mut c.rng, d.n());
    c.describe(format!("single trees, limit {}\n{}", levels, d.text()));
    let set = d.set();
    let budget = 8 * d.n() as u64 + 8;
    let k = d.k();
    let (plain, made) = bounded(budget, || RegressionMultiTargetDecisionTree::new(set.clone(), settings(levels, false, k)))
        .map_err(|e| format!("single tree, limit {}: {}", levels, e))?;
    c.saw("split searches counted", made);
    let plain = Box::new(plain.root);
    let sorted = guarded(|| {
        RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(&set), config(k, levels, false))
    })
    .map_err(|e| format!("pre-sorted tree, limit {}: {}", levels, e))?;
    let sorted = Box::new(sorted.root);
    let (t1, t2) = (view(&plain)?, view(&sorted)?);
    c.saw("tree nodes found finite", finite_tree(&t1)? + finite_tree(&t2)?);
    let m = c.rng.range(1, 12);
    let rows = gen::probes(&mut c.rng, &d, m);
    let test = MultiTargetDataSet {
        feature_columns: gen::transpose(&rows, d.c()),
        labels: (0..m).map(|_| d.labels[c.rng.below(d.n())].clone()).collect(),
        feature_rows: rows,
    };
    let a = guarded(|| calculate_overall_mean_squared_error(&test, &plain))?;
    let b = guarded(|| calculate_overall_mean_squared_error_new_partition(&test, &sorted))?;
    if !a.is_finite() || !b.is_finite() || a < 0.0 || b < 0.0 {
        return Err(format!("mean squared errors {:?} and {:?}", a, b));
    }
    c.saw("scores found finite", 2);
    if l == Labels::OneHot && d.note.contains("one-hot") {
        for r in &test.feature_rows {
            let p = guarded(|| predict_class(r, &plain))?;
            if !one_hot(&p, k) {
                return Err(format!("class prediction {:?}", p));
            }
            c.saw("predictions found finite", 1);
        }
        let s = guarded(|| calculate_accuracy(&test, &plain))?;
        if !(0.0..=1.0).contains(&s) {
            return Err(format!("accuracy {:?}", s));
        }
    }
    if t1.leaves() > 1 {
        c.nontrivial(d.hash() ^ levels as u64);
    }
    Ok(())
}

/// Rows, features and targets over all orders of magnitude.
fn sized(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::sized(&mut c.rng, 200_000, want);
    let kind = if want == Labels::OneHot { EKINDS[(c.idx % 3) as usize] } else { EKind::Reg };
    let lr = rate(c, kind);
    let levels = c.rng.range(1, 4) as u32;
    ensemble(c, kind, &d, levels, true, 3, lr)
}

/// Very many rows, features or targets.
fn huge(c: &mut Case) -> Result<(), String> {
    let w = c.idx;
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::huge(&mut c.rng, w, want);
    let kind = if want == Labels::OneHot { EKINDS[(c.idx % 3) as usize] } else { EKind::Reg };
    let lr = rate(c, kind);
    let levels = c.rng.range(1, 3) as u32;
    ensemble(c, kind, &d, levels, true, 3, lr)
}

/// Trees of hundreds of levels, built, asked, scored and dropped on the stack
/// every program has.
fn deep(c: &mut Case) -> Result<(), String> {
    let blocks = c.rng.range(3, 16);
    let each = c.rng.range(20, 50);
    let n = blocks * each;
    let mut rows = vec![vec![0.0; blocks]; n];
    let mut labels = vec![vec![0.0; 2]; n];
    let mut at: Vec<usize> = (0..n).collect();
    c.rng.shuffle(&mut at);
    for b in 0..blocks {
        for j in 0..each {
            let r = at[b * each + j];
            rows[r][b] = (j + 1) as f64;
            // each split takes one row off
            labels[r][0] = (1.0 + b as f64 / 64.0) * 3f64.powi(j as i32 - each as i32 / 2);
        }
    }
    let d = Data { rows, labels, whole: false, note: "deep".to_string() };
    let threads = c.rng.chance(0.5);
    c.describe(format!("{} features of {} values, threads {}", blocks, each, threads));
    let work = || -> Result<usize, String> {
        let set = d.set();
        let a = guarded(|| Box::new(RegressionMultiTargetDecisionTree::new(set.clone(), config(2, u32::MAX, threads)).root))?;
        let depth = view(&a)?.depth();
        let b = guarded(|| {
            Box::new(
                RegressionMultiTargetDecisionTreeNewPartition::new(
                    create_dataset_with_sorted_features(&set),
                    config(2, u32::MAX, false),
                )
                .root,
            )
        })?;
        finite_tree(&view(&b)?)?;
        let few = MultiTargetDataSet {
            feature_columns: gen::transpose(&d.rows[..20], blocks),
            feature_rows: d.rows[..20].to_vec(),
            labels: d.labels[..20].to_vec(),
        };
        let x = guarded(|| calculate_overall_mean_squared_error(&few, &a))?;
        let y = guarded(|| calculate_overall_mean_squared_error_new_partition(&few, &b))?;
        if !x.is_finite() || !y.is_finite() {
            return Err(format!("mean squared errors {:?} and {:?}", x, y));
        }
        guarded(|| predict_class(&d.rows[0], &a))?;
        let m = Model::train(EKind::Reg, d.set(), config(2, u32::MAX, threads), 2, 0.5);
        for t in m.trees()? {
            finite_tree(&t)?;
        }
        for r in few.feature_rows.iter() {
            if guarded(|| m.predict(r))?.iter().any(|v| !v.is_finite()) {
                return Err("a prediction is not finite".to_string());
            }
        }
        Ok(depth)
    };
    // 8 MB: what the system gives a program's first thread
    let depth = std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || {
            if !threads {
                return work();
            }
            match rayon::ThreadPoolBuilder::new().num_threads(4).stack_size(8 << 20).build() {
                Ok(p) => p.install(work),
                Err(e) => vph::run::fail(&format!("thread pool: {}", e)),
            }
        });
        match h {
            Ok(h) => h.join().unwrap_or_else(|_| Err("a panic".to_string())),
            Err(e) => vph::run::fail(&format!("thread: {}", e)),
        }
    })?;
    c.saw("deep trees on an 8 MB stack", 1);
    c.saw("levels of deep trees", depth as u64);
    if depth > 100 {
        c.nontrivial(d.hash() ^ threads as u64);
    }
    Ok(())
}

fn main() {
    run(
        "C17",
        "cases: single trees and ensembles on generated data with correctly encoded labels, 0 to 10000 iterations, learning rates 0.01 to 5 (regression up to 1.5), single rows, single classes, constant features, perfectly separable data; split searches are counted against the number of nodes a tree on the rows can have; non-trivial: at least two trees with splits (a single tree: one split); distinct by data and settings",
        &["feature values finite, labels finite and at most about 1e13 in magnitude, at least two classes"],
        vec![
            Stage::new("single", single, (10_000, 150_000), (30, 300)),
            Stage::new("degenerate", plain_cases, (2_500, 80_000), (30, 300)),
            Stage::new("any", any, (6_000, 120_000), (40, 400)),
            Stage::new("long", long, (450, 9_000), (40, 600)),
            Stage::new("digits", digits, (24, 200), (40, 400)),
            Stage::new("sized", sized, (150, 2500), (25, 150)),
            Stage::new("huge", huge, (24, 240), (30, 150)),
            Stage::new("deep", deep, (12, 150), (20, 60)),
        ],
    )
}
