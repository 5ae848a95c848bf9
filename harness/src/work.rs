//! The workload the sanitizers watch (C22). It judges no result; it only
//! reaches as much of the project's code as it can, from many threads.

use crate::ens::{EKind, Model, EKINDS};
use crate::gen::{self, transpose, Data, Labels};
use crate::oracle::EPS;
use crate::rng::Rng;
use crate::run::guarded;
use crate::tree::{config_with, find_best_split, view};
use common::data_processor::{create_dataset_with_sorted_features, new_partition};
use common::data_reader::{get_feature_names, read_csv_data, read_csv_data_multi_target, read_csv_data_one_hot_multi_target};
use common::datasets::MultiTargetDataSet;
use common::numerical_calculations::*;
use common::question::Question;
use common::results::BestSplitResult;
use multi_target_decision_tree::data_partitioner::partition;
use multi_target_decision_tree::decision_trees::{
    RegressionMultiTargetDecisionTree, RegressionMultiTargetDecisionTreeNewPartition,
};
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::{
    LeafOutputCalculator, LeafOutputType,
};
use multi_target_decision_tree::grad_boost_decision_trees::{
    AMGBoostTree, GradBoostMultiTargetDecisionTree,
};
use multi_target_decision_tree::printer::print_tree_regression;
use multi_target_decision_tree::scorer::classification::calculate_accuracy;
use multi_target_decision_tree::scorer::regression::{
    calculate_overall_mean_squared_error, calculate_overall_mean_squared_error_new_partition,
};
use rayon::prelude::*;
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Barrier;

#[derive(Default)]
pub struct Seen {
    pub n: BTreeMap<&'static str, u64>,
    pub panics: BTreeMap<String, u64>,
    /// calls with arguments the project does not promise to accept, and how many of them panicked
    pub hostile: u64,
    pub hostile_panics: u64,
    /// data sets whose plain tree has a split
    pub split: std::collections::BTreeSet<u64>,
    pub sessions: u64,
    pub samples: Vec<String>,
}

impl Seen {
    fn count(&mut self, key: &'static str, ok: Result<(), String>) {
        match ok {
            Ok(()) => *self.n.entry(key).or_insert(0) += 1,
            Err(e) => *self.panics.entry(e).or_insert(0) += 1,
        }
    }
    pub fn merge(&mut self, o: Seen) {
        for (k, v) in o.n {
            *self.n.entry(k).or_insert(0) += v;
        }
        self.split.extend(o.split);
        self.sessions += o.sessions;
        self.samples.extend(o.samples);
        self.samples.truncate(3);
        self.hostile += o.hostile;
        self.hostile_panics += o.hostile_panics;
        for (k, v) in o.panics {
            *self.panics.entry(k).or_insert(0) += v;
        }
    }
    pub fn total(&self) -> u64 {
        self.n.values().sum()
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Scale {
    Tiny,
    Small,
    Any,
    Big,
}

// Relaxed counters: they order nothing between threads, so they hide no race.
static SEARCHES: AtomicU64 = AtomicU64::new(0);
static ACTIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static WORKERS: AtomicU64 = AtomicU64::new(0);

/// (split searches, most at the same time, worker indices that searched)
pub fn searches() -> (u64, u64, u32) {
    (SEARCHES.load(Relaxed), PEAK.load(Relaxed), WORKERS.load(Relaxed).count_ones())
}

fn delayed(d: &MultiTargetDataSet, k: u32) -> BestSplitResult {
    let n = d.labels.len();
    SEARCHES.fetch_add(1, Relaxed);
    PEAK.fetch_max(ACTIVE.fetch_add(1, Relaxed) + 1, Relaxed);
    if let Some(i) = rayon::current_thread_index() {
        WORKERS.fetch_or(1 << (i as u64 % 64), Relaxed);
    }
    if n % 3 == 0 {
        std::thread::yield_now();
    } else if n % 7 == 0 {
        std::thread::sleep(std::time::Duration::from_micros(50));
    }
    struct Leave;
    impl Drop for Leave {
        fn drop(&mut self) {
            ACTIVE.fetch_sub(1, Relaxed);
        }
    }
    let _leave = Leave;
    find_best_split(d, k)
}

fn data(rng: &mut Rng, scale: Scale, want: Labels) -> Data {
    let k = |rng: &mut Rng| if want == Labels::OneHot { rng.range(2, 3) } else { rng.range(1, 3) };
    match scale {
        Scale::Tiny => {
            let (n, c, k) = (rng.range(3, 6), rng.range(1, 2), k(rng));
            gen::data(rng, n, c, k, want)
        }
        Scale::Small => gen::small(rng, want),
        Scale::Any => gen::any(rng, want),
        Scale::Big => {
            let w = rng.below(7) as u64;
            gen::big(rng, w, want)
        }
    }
}

fn text(rows: &[Vec<f64>]) -> String {
    rows.iter()
        .map(|r| r.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(",") + "\n")
        .collect()
}

/// One session: every kind of tree and ensemble on one data set.
pub fn session(rng: &mut Rng, scale: Scale, threads: bool, dir: Option<&Path>, seen: &mut Seen) {
    let one_hot = data(rng, scale, Labels::OneHot);
    let want = *rng.pick(&[Labels::Any, Labels::Whole]);
    let plain = data(rng, scale, want);
    let d = if rng.chance(0.5) { &one_hot } else { &plain };
    let set = d.set();
    let k = d.k();
    let levels = *rng.pick(&[1, 2, 3, 6, 100]);
    let levels = if scale == Scale::Tiny || scale == Scale::Big { levels.min(3) } else { levels };
    seen.sessions += 1;
    let cfg = || config_with(k, levels, threads, delayed);

    seen.count("split searches", guarded(|| find_best_split(&set, k as u32)).map(|_| ()));
    let mut split = None;
    seen.count(
        "plain trees",
        guarded(|| {
            let t = RegressionMultiTargetDecisionTree::new(set.clone(), cfg());
            if t.root.leaf.is_none() {
                split = Some(d.hash());
            }
            let root = Box::new(t.root);
            let _ = (calculate_overall_mean_squared_error(&set, &root), calculate_accuracy(&set, &root));
            let names: Vec<String> = (0..d.c()).map(|j| format!("f{}", j)).collect();
            if scale != Scale::Tiny || dir.is_some() {
                print_tree_regression(&root, "".to_string(), &names);
            }
        }),
    );
    if let Some(h) = split {
        seen.split.insert(h);
        if seen.samples.len() < 3 {
            seen.samples.push(format!("{} limit {} threads {}", d.brief(), levels, threads));
        }
    }
    seen.count(
        "pre-sorted trees",
        guarded(|| {
            let sorted = create_dataset_with_sorted_features(&set);
            let t = RegressionMultiTargetDecisionTreeNewPartition::new(sorted, cfg());
            let root = Box::new(t.root);
            let _ = (view(&root), calculate_overall_mean_squared_error_new_partition(&set, &root));
        }),
    );
    for ty in [LeafOutputType::Regression, LeafOutputType::MultiClassClassification] {
        seen.count(
            "residual trees",
            guarded(|| {
                let t = GradBoostMultiTargetDecisionTree::new(set.clone(), cfg(), LeafOutputCalculator::new(ty));
                let _ = view(&t.root);
            }),
        );
    }
    if k > 1 {
        seen.count(
            "approximate trees",
            guarded(|| {
                let t = AMGBoostTree::new(
                    set.clone(),
                    cfg(),
                    LeafOutputCalculator::new(LeafOutputType::MultiClassClassification),
                );
                let _ = view(&t.root);
            }),
        );
    }
    for _ in 0..2 {
        let (j, v) = (rng.below(d.c()), d.rows[rng.below(d.n())][0]);
        let v = if rng.chance(0.2) { v + 1e9 } else { v };
        seen.count(
            "partitions",
            guarded(|| {
                let _ = partition(&set, &Question::new(j as u32, v));
            }),
        );
        seen.count(
            "pre-sorted partitions",
            guarded(|| {
                let sorted = create_dataset_with_sorted_features(&set);
                let all = sorted.labels.clone();
                let (t, f) = new_partition(&sorted, j, v, &all);
                let _ = new_partition(&t, j, v - EPS, &all);
                let _ = (t.labels.len(), f.labels.len());
            }),
        );
    }
    for kind in EKINDS {
        let e = if kind == EKind::Reg { d } else { &one_hot };
        let it = if scale == Scale::Tiny || scale == Scale::Big { 2 } else { *rng.pick(&[1, 3, 8]) };
        let s = e.set();
        let model = guarded(|| {
            Model::train(kind, s.clone(), config_with(e.k(), levels, threads, delayed), it, *rng.pick(&[0.1, 0.5, 1.0]))
        });
        match model {
            Err(x) => seen.count("ensembles", Err(x)),
            Ok(m) => {
                seen.count("ensembles", Ok(()));
                let probes = gen::probes(rng, e, if scale == Scale::Tiny { 2 } else { 24 });
                // the same model and data read from many threads at once
                seen.count(
                    "concurrent predictions",
                    guarded(|| {
                        probes.par_iter().for_each(|p| {
                            std::hint::black_box(m.predict(p));
                        });
                        rayon::join(|| m.score(&s), || m.predictions(&s));
                    }),
                );
            }
        }
    }
    let v: Vec<f64> = d.labels.iter().flatten().cloned().collect();
    let w: Vec<f64> = v.iter().rev().map(|x| x + 1.0).collect();
    seen.count(
        "vector helpers",
        guarded(|| {
            let _ = add_f64_slices_as_vector(&v, &w);
            let _ = subtract_f64_slices_as_vector(&v, &w);
            let _ = multiply_f64_slices_as_vector(&v, &w);
            let _ = divide_f64_slices_as_vector(&v, &w);
            let _ = multiply_f64_slice_by_f64_scalar(1.5, &v);
            let _ = mean_sum_of_squared_differences_between_f64_slices(&v, &w);
            let _ = sum_of_f64_vectors(&d.labels);
            let _ = calculate_average_f64_vector(&d.labels);
        }),
    );
    if let Some(dir) = dir {
        let id = rng.u64();
        let (pf, pl, ph) = (
            dir.join(format!("{:x}-f.csv", id)),
            dir.join(format!("{:x}-l.csv", id)),
            dir.join(format!("{:x}-h.csv", id)),
        );
        let head = |c: usize| (0..c).map(|j| format!("c{}", j)).collect::<Vec<_>>().join(",") + "\n";
        let mut both = d.rows.clone();
        for (i, r) in both.iter_mut().enumerate() {
            r.push((i % 3) as f64);
        }
        let all = [
            (&pf, head(d.c()) + &text(&d.rows)),
            (&pl, head(k) + &text(&d.labels)),
            (&ph, head(d.c() + 1) + &text(&both)),
        ];
        if all.iter().all(|(p, t)| std::fs::write(p, t).is_ok()) {
            let s = |p: &Path| p.to_string_lossy().to_string();
            seen.count(
                "CSV files read",
                guarded(|| {
                    let a = read_csv_data(&s(&ph));
                    let b = read_csv_data_one_hot_multi_target(&s(&ph), 3);
                    let c = read_csv_data_multi_target(&s(&pf), &s(&pl));
                    let n = get_feature_names(&s(&ph));
                    let _ = (a.labels.len(), b.labels.len(), c.labels.len(), n.len());
                }),
            );
        }
        for p in [&pf, &pl, &ph] {
            let _ = std::fs::remove_file(p);
        }
    }
    let _ = transpose(&d.rows, d.c());
    if scale == Scale::Tiny {
        let kind = rng.below(HOSTILE);
        hostile(rng, kind, d, threads, dir, 0.25, seen);
    } else if scale != Scale::Big {
        for kind in 0..HOSTILE {
            hostile(rng, kind, d, threads, dir, 1.0, seen);
        }
    }
}

const HOSTILE: usize = 12;

/// Arguments outside what the project promises to handle: a panic is a fair
/// answer to them, a memory error is not.
fn hostile(rng: &mut Rng, kind: usize, d: &Data, threads: bool, dir: Option<&Path>, share: f64, seen: &mut Seen) {
    let mut set = d.set();
    let (n, c, k) = (d.n(), d.c(), d.k());
    let mut classes = k;
    let mut names: Vec<String> = (0..c).map(|j| format!("f{}", j)).collect();
    let mut row = d.rows[rng.below(n)].clone();
    let question = match kind {
        3 => Question::new((c + rng.below(3)) as u32, 0.0),
        _ => Question::new(rng.below(c) as u32, d.rows[rng.below(n)][0]),
    };
    match kind {
        0 => classes = k + rng.range(1, 3),
        1 => classes = k - rng.range(1, k),
        2 => {
            // not rectangular
            let i = rng.below(n);
            match rng.below(6) {
                0 => {
                    set.feature_rows[i].pop();
                }
                1 => set.feature_rows[i].push(1.0),
                2 => {
                    set.labels[i].pop();
                }
                3 => set.labels[i].push(1.0),
                4 => {
                    let j = rng.below(c);
                    set.feature_columns[j].pop();
                }
                _ => {
                    set.feature_columns.pop();
                }
            }
        }
        4 => {
            let (i, j) = (rng.below(n), rng.below(c));
            let v = *rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            set.feature_rows[i][j] = v;
            set.feature_columns[j][i] = v;
        }
        5 => {
            let (i, t) = (rng.below(n), rng.below(k));
            set.labels[i][t] = *rng.pick(&[f64::NAN, f64::INFINITY, f64::MAX, f64::MIN]);
        }
        6 => {
            set = MultiTargetDataSet {
                feature_rows: vec![],
                feature_columns: if rng.chance(0.5) { vec![] } else { vec![vec![]; c] },
                labels: vec![],
            }
        }
        7 => {
            row.truncate(rng.below(c));
            names.truncate(rng.below(c));
        }
        8 => {
            if rng.chance(0.5) {
                set.labels.pop();
            } else {
                set.labels.push(vec![1.0; k]);
            }
        }
        9 => {
            set.feature_rows.iter_mut().for_each(|r| r.clear());
            set.feature_columns.clear();
        }
        10 => set.labels.iter_mut().for_each(|l| l.clear()),
        _ => {}
    }
    let mut coin = Rng::new(rng.u64());
    let mut call = |f: &mut dyn FnMut()| {
        if !coin.chance(share) {
            return;
        }
        seen.hostile += 1;
        if guarded(f).is_err() {
            seen.hostile_panics += 1;
        }
    };
    let cfg = || config_with(classes, 3, threads, delayed);
    let good = || config_with(k, 3, threads, delayed);
    call(&mut || {
        find_best_split(&set, classes as u32);
    });
    call(&mut || {
        let t = Box::new(RegressionMultiTargetDecisionTree::new(set.clone(), cfg()).root);
        print_tree_regression(&t, "".to_string(), &names);
    });
    call(&mut || {
        // a sound tree, an unsound test set
        let t = Box::new(RegressionMultiTargetDecisionTree::new(d.set(), good()).root);
        calculate_overall_mean_squared_error(&set, &t);
        calculate_accuracy(&set, &t);
    });
    call(&mut || {
        let s = create_dataset_with_sorted_features(&set);
        let t = Box::new(RegressionMultiTargetDecisionTreeNewPartition::new(s, cfg()).root);
        calculate_overall_mean_squared_error_new_partition(&set, &t);
    });
    call(&mut || {
        AMGBoostTree::new(set.clone(), cfg(), LeafOutputCalculator::new(LeafOutputType::MultiClassClassification));
    });
    call(&mut || {
        partition(&set, &question);
    });
    let (short, at) = (rng.chance(0.3), rng.below(n));
    call(&mut || {
        let mut s = create_dataset_with_sorted_features(&set);
        if kind == 11 && !s.sorted_feature_columns.is_empty() {
            // a reference to a row that does not exist
            s.sorted_feature_columns[0][at].1 += n;
        }
        let mut all = s.labels.clone();
        if short {
            all.pop();
        }
        new_partition(&s, question.column as usize, question.value, &all);
    });
    for kind in EKINDS {
        let lr = *rng.pick(&[0.5, 1e300, f64::NAN]);
        call(&mut || {
            let m = Model::train(kind, set.clone(), cfg(), 2, lr);
            m.predict(&row);
            m.score(&set);
        });
        call(&mut || {
            let m = Model::train(kind, d.set(), good(), 1, 0.5);
            m.predict(&row);
            m.predictions(&set);
            m.score(&set);
        });
    }
    let (v, w) = (d.labels[0].clone(), vec![1.0; k + 1]);
    let lists = [vec![], vec![vec![]], vec![v.clone(), w.clone()], vec![w.clone(), v.clone()]];
    if kind == 11 {
        for (a, b) in [(&v, &w), (&w, &v)] {
            call(&mut || drop(add_f64_slices_as_vector(a, b)));
            call(&mut || drop(subtract_f64_slices_as_vector(a, b)));
            call(&mut || drop(multiply_f64_slices_as_vector(a, b)));
            call(&mut || drop(divide_f64_slices_as_vector(a, b)));
            call(&mut || {
                mean_sum_of_squared_differences_between_f64_slices(a, b);
            });
        }
        for l in &lists {
            call(&mut || drop(sum_of_f64_vectors(l)));
            call(&mut || drop(calculate_average_f64_vector(l)));
        }
        if let Some(dir) = dir {
            let p = dir.join(format!("{:x}-x.csv", rng.u64()));
            let texts: [&[u8]; 7] = [b"", b"a,b\n", b"a,b\n1\n", b"a,b\n1,2,3\n", b"a,b\n1,\xff\xfe\n", b"a,b\n\"1,2\n", b"a,b\n1,77\n"];
            for t in texts {
                if std::fs::write(&p, t).is_err() {
                    continue;
                }
                let name = p.to_string_lossy().to_string();
                call(&mut || drop(read_csv_data(&name)));
                call(&mut || drop(read_csv_data_one_hot_multi_target(&name, 2)));
                call(&mut || drop(read_csv_data_multi_target(&name, &name)));
                call(&mut || drop(get_feature_names(&name)));
            }
            let _ = std::fs::remove_file(&p);
        }
    }
}

/// `callers` threads run sessions at the same time; each also uses a pool.
pub fn concurrently(seed: u64, callers: usize, rounds: usize, scale: Scale, pool: usize, dir: Option<&Path>, until: Option<std::time::Instant>) -> Seen {
    let barrier = Barrier::new(callers);
    let mut all = Seen::default();
    let own = if pool > 0 {
        rayon::ThreadPoolBuilder::new().num_threads(pool).stack_size(64 << 20).build().ok()
    } else {
        None
    };
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..callers)
            .map(|c| {
                let (barrier, own) = (&barrier, &own);
                s.spawn(move || {
                    let mut rng = Rng::of(&[seed, c as u64, 22]);
                    let mut seen = Seen::default();
                    barrier.wait();
                    for r in 0..rounds {
                        if until.map_or(false, |t| std::time::Instant::now() > t) {
                            break;
                        }
                        let threads = scale == Scale::Tiny || r % 4 != 3;
                        match own {
                            // half of the callers share one pool, the others use the global one
                            Some(p) if c % 2 == 0 => p.install(|| session(&mut rng, scale, threads, dir, &mut seen)),
                            _ => session(&mut rng, scale, threads, dir, &mut seen),
                        }
                    }
                    seen
                })
            })
            .collect();
        for h in hs {
            if let Ok(s) = h.join() {
                all.merge(s);
            }
        }
    });
    all
}
