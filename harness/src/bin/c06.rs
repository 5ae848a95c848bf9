//! C06: building from pre-sorted data gives the same tree as from plain data.
use common::data_processor::create_dataset_with_sorted_features;
use common::datasets::MultiTargetDataSet;
use multi_target_decision_tree::decision_trees::{
    RegressionMultiTargetDecisionTree, RegressionMultiTargetDecisionTreeNewPartition,
};
use multi_target_decision_tree::scorer::regression::{
    calculate_overall_mean_squared_error, calculate_overall_mean_squared_error_new_partition,
};
use vph::forge::{self, check_conservation};
use vph::gen::{self, transpose, Data, Labels};
use vph::oracle::EPS;
use vph::run::{guarded, main as run, Case, Stage};
use vph::tree::{config, view, LeafView, Pair};

fn judge(c: &mut Case, d: &Data, levels: u32) -> Result<(), String> {
    c.describe(format!("depth limit {}\n{}", levels, d.text()));
    let set = d.set();
    let cols = d.columns();
    let plain = guarded(|| RegressionMultiTargetDecisionTree::new(set.clone(), config(d.k(), levels, false)))?;
    let plain = Box::new(plain.root);
    let threads = c.rng.chance(0.3);
    let sorted = guarded(|| {
        RegressionMultiTargetDecisionTreeNewPartition::new(
            create_dataset_with_sorted_features(&set),
            config(d.k(), levels, threads),
        )
    })?;
    let sorted = Box::new(sorted.root);
    let t1 = view(&plain)?;
    let t2 = view(&sorted)?;
    check_conservation(&t2, d, &set).map_err(|e| format!("pre-sorted tree: {}\n{}", e, t2.text()))?;
    let map: Vec<usize> = (0..d.n()).collect();
    let mut pair = Pair {
        cols1: &cols,
        labels1: &d.labels,
        cols2: &cols,
        labels2: &d.labels,
        map: &map,
        copies: 1,
        delta1: 0.0,
        delta2: 0.0,
        same_tests: true,
        same: 0,
        ties: 0,
    };
    let mut leaves = 0u64;
    let same = pair
        .compare(&t1, &t2, &map, 0, &mut |a, b, _| {
            leaves += 1;
            match (a, b) {
                (LeafView::Data { labels: x, .. }, LeafView::Sorted { labels: y, .. }) if x == y => Ok(()),
                _ => Err("corresponding leaves hold different label vectors".to_string()),
            }
        })
        .map_err(|e| format!("{}\nplain:\n{}pre-sorted:\n{}", e, t1.text(), t2.text()))?;
    c.saw("tree pairs compared", 1);
    c.saw("nodes with the same test", pair.same);
    c.saw("nodes excused by a tie", pair.ties);
    c.saw("leaf pairs compared", leaves);
    if same {
        c.saw("tree pairs identical throughout", 1);
        let m = c.rng.range(1, 30);
        let rows = gen::probes(&mut c.rng, d, m);
        let labels: Vec<Vec<f64>> = (0..m).map(|_| d.labels[c.rng.below(d.n())].clone()).collect();
        let test = MultiTargetDataSet {
            feature_columns: transpose(&rows, d.c()),
            feature_rows: rows,
            labels,
        };
        for s in [&test, &set] {
            if s.labels.len() > 3000 {
                continue;
            }
            let a = guarded(|| calculate_overall_mean_squared_error(s, &plain))?;
            let b = guarded(|| calculate_overall_mean_squared_error_new_partition(s, &sorted))?;
            let big = d.labels.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
            let tol = 64.0 * EPS * (d.n() as f64 + s.labels.len() as f64) * big * big;
            c.saw("mean squared errors compared", 1);
            if !((a - b).abs() <= tol) {
                return Err(format!("mean squared error {:?} from plain data, {:?} from pre-sorted data\n{}", a, b, t1.text()));
            }
        }
    }
    if t1.leaves() > 1 && same {
        c.nontrivial(d.hash() ^ levels as u64);
    }
    if c.idx < 2 {
        c.sample(format!("{} limit {} => plain {} / pre-sorted {}", d.brief(), levels, t1.text().replace('\n', "; "), t2.text().replace('\n', "; ")));
    }
    Ok(())
}

fn any(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = if c.rng.chance(0.2) {
        gen::needle(&mut c.rng)
    } else {
        gen::any(&mut c.rng, want)
    };
    let l = forge::levels(&mut c.rng, d.n());
    judge(c, &d, l)
}
fn big(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let w = c.idx;
    let d = gen::big(&mut c.rng, w, want);
    let l = if d.n() > 6000 || d.c() > 6000 { 3 } else { forge::levels(&mut c.rng, d.n()) };
    judge(c, &d, l)
}
fn chain(c: &mut Case) -> Result<(), String> {
    let n = c.rng.range(20, 320);
    let d = gen::chain(&mut c.rng, n, false);
    let l = *c.rng.pick(&[u32::MAX, 300, 256, 257, 255, 64]);
    judge(c, &d, l)
}

/// Rows, features and targets over all orders of magnitude.
fn sized(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::sized(&mut c.rng, 400_000, want);
    let l = if d.n() > 500 { c.rng.range(1, 4) as u32 } else { forge::levels(&mut c.rng, d.n()) };
    judge(c, &d, l)
}

/// Very many rows, features or targets.
fn huge(c: &mut Case) -> Result<(), String> {
    let w = c.idx;
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::huge(&mut c.rng, w, want);
    let l = if d.n() > 500 { c.rng.range(1, 3) as u32 } else { forge::levels(&mut c.rng, d.n()) };
    judge(c, &d, l)
}

fn main() {
    run(
        "C06",
        "cases: generated data sets and depth limits; the two trees are walked together, leaf by leaf; non-trivial: the trees split at least once and agree throughout without a tie; distinct by data and limit",
        &["finite feature values and labels", "below a node where two different splits tie up to rounding only conservation is judged"],
        vec![
            Stage::new("any", any, (20_000, 250_000), (60, 500)),
            Stage::new("chain", chain, (60, 600), (20, 150)),
            Stage::new("big", big, (24, 200), (40, 300)),
            Stage::new("sized", sized, (250, 4000), (25, 150)),
            Stage::new("huge", huge, (24, 240), (30, 150)),
        ],
    )
}
