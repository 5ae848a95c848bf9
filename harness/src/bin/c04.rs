//! C04: single-tree predictions and scores are what the reached leaf implies.
use common::data_processor::create_dataset_with_sorted_features;
use common::datasets::{MultiTargetDataSet, MultiTargetDataSetSortedFeatures};
use multi_target_decision_tree::decision_trees::{
    RegressionMultiTargetDecisionTree, RegressionMultiTargetDecisionTreeNewPartition,
};
use multi_target_decision_tree::leaf::{RegressionLeaf, RegressionLeafNewPartition};
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::scorer::classification::{calculate_accuracy, predict_class};
use multi_target_decision_tree::scorer::regression::{
    calculate_overall_mean_squared_error, calculate_overall_mean_squared_error_new_partition,
};
use vph::gen::{self, transpose, Labels};
use vph::hand::Shape;
use vph::oracle::{close, mean_of, Sum, EPS};
use vph::rng::{fnv, Rng};
use vph::run::{guarded, main as run, Case, Stage};
use vph::tree::{config, view, LeafView, T};

fn leaf_labels(l: &LeafView) -> &Vec<Vec<f64>> {
    match l {
        LeafView::Data { labels, .. } => labels,
        LeafView::Sorted { labels, .. } => labels,
        _ => panic!("HARNESS-ERROR leaf kind"),
    }
}

fn expected_class(labels: &[Vec<f64>]) -> (Vec<f64>, bool) {
    let k = labels[0].len();
    let mut n = vec![0usize; k];
    for l in labels {
        for t in 0..k {
            if l[t] == 1.0 {
                n[t] += 1;
            }
        }
    }
    let top = *n.iter().max().unwrap();
    let at = n.iter().position(|x| *x == top).unwrap();
    let tie = n.iter().filter(|x| **x == top).count() > 1;
    let mut v = vec![0.0; k];
    v[at] = 1.0;
    (v, tie)
}

fn check_classes(
    c: &mut Case,
    t: &T,
    root: &Box<TreeNode<RegressionLeaf>>,
    rows: &[Vec<f64>],
    labels: &[Vec<f64>],
) -> Result<(), String> {
    let mut right = 0usize;
    for (r, l) in rows.iter().zip(labels) {
        let (want, tie) = expected_class(leaf_labels(t.leaf_for(r)));
        let got = guarded(|| predict_class(r, root))?;
        c.saw("class predictions compared", 1);
        if tie {
            c.saw("predictions from a leaf with tied classes", 1);
        }
        if got != want {
            return Err(format!(
                "row {:?} is predicted {:?}, its leaf implies {:?}\n{}",
                &r[..r.len().min(20)], got, want, t.text()
            ));
        }
        if want == *l {
            right += 1;
        }
    }
    let set = MultiTargetDataSet {
        feature_rows: rows.to_vec(),
        feature_columns: transpose(rows, rows[0].len()),
        labels: labels.to_vec(),
    };
    let got = guarded(|| calculate_accuracy(&set, root))?;
    let want = right as f64 / rows.len() as f64;
    if !close(got, want, 1e-12) {
        return Err(format!("accuracy {:?}, {} of {} rows are right", got, right, rows.len()));
    }
    c.saw("accuracies compared", 1);
    if right > 0 && right < rows.len() {
        c.saw("accuracies strictly between 0 and 1", 1);
    }
    Ok(())
}

/// (expected MSE, allowance)
fn expected_mse(t: &T, rows: &[Vec<f64>], labels: &[Vec<f64>]) -> (f64, f64) {
    let mut total = Sum::new();
    let mut tol = 0.0;
    for (r, l) in rows.iter().zip(labels) {
        let ls = leaf_labels(t.leaf_for(r));
        let k = l.len();
        let mean = mean_of(ls.iter(), k);
        let mut e = Sum::new();
        for i in 0..k {
            let d = mean[i] - l[i];
            e.add(d * d);
            let big = ls.iter().map(|x| x[i].abs()).fold(0.0, f64::max);
            let slip = (8.0 + ls.len() as f64) * EPS * big + 2.0 * EPS * l[i].abs();
            tol += (2.0 * d.abs() * slip + slip * slip + 16.0 * EPS * d * d) / k as f64;
        }
        total.add(e.get() / k as f64);
    }
    let n = rows.len() as f64;
    let m = total.get() / n;
    (m, 4.0 * tol / n + (16.0 + 4.0 * n) * EPS * m)
}

fn check_mse(c: &mut Case, what: &str, got: f64, t: &T, rows: &[Vec<f64>], labels: &[Vec<f64>]) -> Result<(), String> {
    let (want, tol) = expected_mse(t, rows, labels);
    c.saw("mean squared errors compared", 1);
    if !close(got, want, tol) {
        return Err(format!(
            "{}: mean squared error {:?}, expected {:?} (allowance {:e}) on {} rows\n{}",
            what, got, want, tol, rows.len(), t.text()
        ));
    }
    Ok(())
}

fn label(rng: &mut Rng, k: usize, kind: usize) -> Vec<f64> {
    match kind {
        0 => {
            let mut v = vec![0.0; k];
            v[rng.below(k)] = 1.0;
            v
        }
        1 => (0..k).map(|_| rng.int(-8, 8) as f64 / 4.0).collect(),
        2 => (0..k).map(|_| rng.normal() * 10.0).collect(),
        3 => (0..k).map(|t| 1e6 * (t as f64 + 1.0) + rng.normal()).collect(),
        _ => (0..k).map(|_| rng.normal() * 1e-6).collect(),
    }
}

fn test_size(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => 1,
        1 => 2,
        2 => 257,
        3 if rng.chance(0.05) => rng.span(6000),
        _ => rng.range(3, 40),
    }
}

fn hand_classes(c: &mut Case) -> Result<(), String> {
    let shape = Shape::any(&mut c.rng);
    let k = if c.rng.chance(0.1) { *c.rng.pick(&[255, 256, 257, 300]) } else { c.rng.range(1, 6) };
    let width = shape.c;
    let root = Box::new(shape.tree(&mut c.rng, &mut |r| {
        let n = match r.below(5) {
            0 => 1,
            1 => 2,
            2 if r.chance(0.2) => *r.pick(&[255, 256, 257, 300, 513]),
            2 if r.chance(0.02) => r.span(6000),
            _ => r.range(2, 12),
        };
        let mut labels: Vec<Vec<f64>> = (0..n).map(|_| label(r, k, 0)).collect();
        if r.chance(0.3) && k > 1 {
            // an exact tie between two classes
            let (a, b) = (r.below(k), r.below(k));
            for (i, l) in labels.iter_mut().enumerate() {
                *l = vec![0.0; k];
                l[if i % 2 == 0 { a } else { b }] = 1.0;
            }
        }
        let rows: Vec<Vec<f64>> = (0..n).map(|_| vec![0.5; width.min(8)]).collect();
        RegressionLeaf {
            data: Some(MultiTargetDataSet {
                feature_columns: transpose(&rows, rows[0].len()),
                feature_rows: rows,
                labels,
            }),
        }
    }));
    let t = view(&root)?;
    let m = if width > 1000 { 5 } else { test_size(&mut c.rng) };
    let rows: Vec<Vec<f64>> = (0..m).map(|_| shape.row(&mut c.rng)).collect();
    let labels: Vec<Vec<f64>> = rows
        .iter()
        .map(|r| {
            if c.rng.chance(0.5) {
                expected_class(leaf_labels(t.leaf_for(r))).0
            } else if c.rng.chance(0.15) {
                // never equal to a one-hot vector unless it happens to be one
                (0..k).map(|_| *c.rng.pick(&[0.0, 1.0, 0.5, 2.0])).collect()
            } else {
                label(&mut c.rng, k, 0)
            }
        })
        .collect();
    if width < 1000 {
        c.describe(format!("{}\nrows {:?}\nlabels {:?}", t.text(), rows, labels));
    }
    check_classes(c, &t, &root, &rows, &labels)?;
    if t.leaves() > 1 {
        let mut h = t.print();
        for r in &rows {
            r.iter().for_each(|x| fnv(&mut h, x.to_bits()));
        }
        c.nontrivial(h);
    }
    if c.idx < 2 {
        c.sample(format!("tree {} rows {:?}", t.text().replace('\n', "; "), rows));
    }
    Ok(())
}

fn hand_mse(c: &mut Case) -> Result<(), String> {
    let shape = Shape::any(&mut c.rng);
    let k = if c.rng.chance(0.1) { *c.rng.pick(&[33, 256, 300]) } else { c.rng.range(1, 6) };
    let kind = c.rng.below(5);
    let width = shape.c.min(4);
    // pool of labels that the pre-sorted leaves refer to
    let pool: Vec<Vec<f64>> = (0..60).map(|_| label(&mut c.rng, k, kind)).collect();
    let make = |r: &mut Rng| -> Vec<usize> {
        let n = match r.below(6) {
            0 => 1,
            1 => 2,
            2 if r.chance(0.2) => *r.pick(&[255, 256, 257, 300, 513]),
            2 if r.chance(0.02) => r.span(6000),
            _ => r.range(2, 12),
        };
        (0..n).map(|_| r.below(60)).collect()
    };
    let seed = c.rng.u64();
    let mut r1 = Rng::new(seed);
    let plain = Box::new(shape.tree(&mut r1, &mut |r| {
        let idx = make(r);
        let rows: Vec<Vec<f64>> = idx.iter().map(|_| vec![0.25; width]).collect();
        RegressionLeaf {
            data: Some(MultiTargetDataSet {
                feature_columns: transpose(&rows, width),
                feature_rows: rows,
                labels: idx.iter().map(|i| pool[*i].clone()).collect(),
            }),
        }
    }));
    let mut r2 = Rng::new(seed);
    let sorted = Box::new(shape.tree(&mut r2, &mut |r| {
        let idx = make(r);
        RegressionLeafNewPartition {
            data: Some(MultiTargetDataSetSortedFeatures {
                sorted_feature_columns: (0..width)
                    .map(|_| idx.iter().map(|i| (0.25, *i)).collect())
                    .collect(),
                labels: idx.iter().map(|i| &pool[*i]).collect(),
            }),
        }
    }));
    let t1 = view(&plain)?;
    let t2 = view(&sorted)?;
    let m = if shape.c > 1000 { 5 } else { test_size(&mut c.rng) };
    let rows: Vec<Vec<f64>> = (0..m).map(|_| shape.row(&mut c.rng)).collect();
    let labels: Vec<Vec<f64>> = (0..m)
        .map(|_| {
            let kd = if c.rng.chance(0.7) { kind } else { c.rng.below(5) };
            label(&mut c.rng, k, kd)
        })
        .collect();
    if shape.c < 1000 {
        c.describe(format!("{}\nrows {:?}\nlabels {:?}", t1.text(), rows, labels));
    }
    let set = MultiTargetDataSet {
        feature_columns: transpose(&rows, shape.c),
        feature_rows: rows.clone(),
        labels: labels.clone(),
    };
    let got = guarded(|| calculate_overall_mean_squared_error(&set, &plain))?;
    check_mse(c, "plain tree", got, &t1, &rows, &labels)?;
    let got = guarded(|| calculate_overall_mean_squared_error_new_partition(&set, &sorted))?;
    check_mse(c, "pre-sorted tree", got, &t2, &rows, &labels)?;
    if t1.leaves() > 1 {
        let mut h = t1.print();
        for r in rows.iter().chain(&labels) {
            r.iter().for_each(|x| fnv(&mut h, x.to_bits()));
        }
        c.nontrivial(h);
    }
    Ok(())
}

fn trained(c: &mut Case) -> Result<(), String> {
    let one_hot = c.rng.chance(0.5);
    let d = if c.idx % 50 == 49 {
        let w = c.rng.u64() % 9;
        gen::big(&mut c.rng, w, if one_hot { Labels::OneHot } else { Labels::Any })
    } else {
        gen::any(&mut c.rng, if one_hot { Labels::OneHot } else { Labels::Any })
    };
    let levels = *c.rng.pick(&[0, 1, 2, 3, 5, 100]);
    let threads = c.rng.chance(0.3);
    c.describe(format!("limit {} {}", levels, d.text()));
    let set = d.set();
    let tree = guarded(|| RegressionMultiTargetDecisionTree::new(set.clone(), config(d.k(), levels, threads)))?;
    let root = Box::new(tree.root);
    let t = view(&root)?;
    let m = test_size(&mut c.rng);
    let mut rows = gen::probes(&mut c.rng, &d, m);
    let mut labels: Vec<Vec<f64>> = (0..m).map(|_| d.labels[c.rng.below(d.n())].clone()).collect();
    if c.rng.chance(0.3) {
        rows = d.rows.clone();
        labels = d.labels.clone();
    }
    if one_hot {
        check_classes(c, &t, &root, &rows, &labels)?;
    }
    let test = MultiTargetDataSet {
        feature_columns: transpose(&rows, d.c()),
        feature_rows: rows.clone(),
        labels: labels.clone(),
    };
    let got = guarded(|| calculate_overall_mean_squared_error(&test, &root))?;
    check_mse(c, "plain tree", got, &t, &rows, &labels)?;
    let tree = guarded(|| {
        RegressionMultiTargetDecisionTreeNewPartition::new(
            create_dataset_with_sorted_features(&set),
            config(d.k(), levels, threads),
        )
    })?;
    let root = Box::new(tree.root);
    let t2 = view(&root)?;
    let got = guarded(|| calculate_overall_mean_squared_error_new_partition(&test, &root))?;
    check_mse(c, "pre-sorted tree", got, &t2, &rows, &labels)?;
    if t.leaves() > 1 {
        c.nontrivial(d.hash() ^ levels as u64 ^ (rows.len() as u64) << 32);
    }
    Ok(())
}

/// Leaves of tens of thousands of rows.
fn huge_leaf(c: &mut Case) -> Result<(), String> {
    let k = c.rng.range(2, 4);
    let one_hot = c.idx % 2 == 0;
    let leaf = |c: &mut Case| -> Vec<Vec<f64>> {
        let mut classes: Vec<usize> = vec![];
        let top = c.rng.below(k);
        let most = *c.rng.pick(&[32_767, 32_768, 65_535, 65_536, 65_537, 65_600, 70_000, 131_072, 131_080]);
        for t in 0..k {
            let n = if t == top { most } else { c.rng.span(most) - 1 };
            classes.extend(std::iter::repeat(t).take(n));
        }
        c.rng.shuffle(&mut classes);
        let scale = *c.rng.pick(&[1.0, 0.1, 1e6]);
        classes
            .iter()
            .map(|t| {
                let mut v: Vec<f64> = if one_hot { vec![0.0; k] } else { (0..k).map(|_| c.rng.normal()).collect() };
                v[*t] = if one_hot { 1.0 } else { scale };
                v
            })
            .collect()
    };
    let lists = [leaf(c), leaf(c)];
    let node = |l: &Vec<Vec<f64>>| {
        let rows = vec![vec![0.5]; l.len()];
        TreeNode::leaf_node(
            common::question::Question::new(0, 0.0),
            RegressionLeaf {
                data: Some(MultiTargetDataSet { feature_columns: transpose(&rows, 1), feature_rows: rows, labels: l.clone() }),
            },
        )
    };
    let root = Box::new(TreeNode::new(
        common::question::Question::new(0, 0.5),
        Box::new(node(&lists[0])),
        Box::new(node(&lists[1])),
    ));
    let t = view(&root)?;
    c.describe(format!("two leaves of {} and {} rows, {} targets, one-hot {}", lists[0].len(), lists[1].len(), k, one_hot));
    let rows: Vec<Vec<f64>> = vec![vec![0.5], vec![0.4], vec![3.0]];
    let labels: Vec<Vec<f64>> = (0..3).map(|i| if one_hot && i < 2 { expected_class(&lists[i]).0 } else { lists[0][i].clone() }).collect();
    if one_hot {
        check_classes(c, &t, &root, &rows, &labels)?;
    } else {
        let set = MultiTargetDataSet { feature_columns: transpose(&rows, 1), feature_rows: rows.clone(), labels: labels.clone() };
        let got = guarded(|| calculate_overall_mean_squared_error(&set, &root))?;
        check_mse(c, "plain tree", got, &t, &rows, &labels)?;
        let pre = Box::new(TreeNode::new(
            common::question::Question::new(0, 0.5),
            Box::new(presorted_leaf(&lists[0])),
            Box::new(presorted_leaf(&lists[1])),
        ));
        let got = guarded(|| calculate_overall_mean_squared_error_new_partition(&set, &pre))?;
        check_mse(c, "pre-sorted tree", got, &t, &rows, &labels)?;
        c.saw("rows in large leaves", (lists[0].len() + lists[1].len()) as u64);
    }
    c.nontrivial(t.print());
    Ok(())
}

fn presorted_leaf(l: &Vec<Vec<f64>>) -> TreeNode<RegressionLeafNewPartition<'_>> {
    TreeNode::leaf_node(
        common::question::Question::new(0, 0.0),
        RegressionLeafNewPartition {
            data: Some(MultiTargetDataSetSortedFeatures {
                sorted_feature_columns: vec![(0..l.len()).map(|i| (0.25, i)).collect()],
                labels: l.iter().collect(),
            }),
        },
    )
}

fn main() {
    run(
        "C04",
        "cases: trees assembled by hand (bushy or chains to depth 300, repeated and unreachable thresholds, tied leaves, 1..513 leaf rows, 1..300 classes) and trained trees; test rows on, just below and just above thresholds; non-trivial: more than one leaf; distinct by tree and test rows",
        &["leaves of classification trees hold one-hot labels"],
        vec![
            Stage::new("hand-classes", hand_classes, (20_000, 300_000), (40, 250)),
            Stage::new("hand-mse", hand_mse, (20_000, 300_000), (40, 250)),
            Stage::new("trained", trained, (6_000, 80_000), (40, 250)),
            Stage::new("huge-leaf", huge_leaf, (12, 200), (10, 60)),
        ],
    )
}
