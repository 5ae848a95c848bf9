//! C26: learners coincide wherever their definitions coincide.
use multi_target_decision_tree::decision_trees::RegressionMultiTargetDecisionTree;
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::{
    LeafOutputCalculator, LeafOutputType,
};
use multi_target_decision_tree::grad_boost_decision_trees::{
    AMGBoostTree, GradBoostMultiTargetDecisionTree,
};
use multi_target_decision_tree::scorer::classification::{calculate_accuracy, predict_class};
use multi_target_decision_tree::scorer::regression::calculate_overall_mean_squared_error;
use vph::ens::{self, EKind};
use vph::forge;
use vph::gen::{self, Data, Labels};
use vph::oracle::{close, mean_of, EPS};
use vph::replay::{self, num_den};
use vph::run::{guarded, main as run, Case, Stage};
use vph::tree::{config, view, LeafView, Pair};

fn pair<'a>(
    cols: &'a [Vec<f64>],
    l1: &'a [Vec<f64>],
    l2: &'a [Vec<f64>],
    map: &'a [usize],
    delta: (f64, f64),
    same_tests: bool,
) -> Pair<'a> {
    Pair {
        cols1: cols,
        labels1: l1,
        cols2: cols,
        labels2: l2,
        map,
        copies: 1,
        delta1: delta.0,
        delta2: delta.1,
        same_tests,
        same: 0,
        ties: 0,
    }
}

/// How many rows to ask for: finding a leaf's average costs as much as its rows.
fn few(n: usize) -> usize {
    if n > 5000 {
        20
    } else {
        400
    }
}

fn labels_of(l: &LeafView) -> Result<&Vec<Vec<f64>>, String> {
    match l {
        LeafView::Data { labels, .. } => Ok(labels),
        l => Err(format!("unexpected leaf {:?}", l)),
    }
}

fn top_of(d: &Data) -> f64 {
    d.labels.iter().flatten().fold(1e-300, |a, x| a.max(x.abs()))
}

/// Boosting trees with the mean as leaf output, and a one-step ensemble with
/// learning rate 1, against the regression tree on the same data.
fn means(c: &mut Case, d: &Data, levels: u32) -> Result<(), String> {
    let (ta, tb) = (c.rng.chance(0.2), c.rng.chance(0.2));
    c.describe(format!("limit {} threads {} {}\n{}", levels, ta, tb, d.text()));
    let (n, k) = (d.n(), d.k());
    let cols = d.columns();
    let map: Vec<usize> = (0..n).collect();
    let top = top_of(d);
    let tol = 8.0 * EPS * (n as f64 + 10.0) * top;
    let root = guarded(|| Box::new(RegressionMultiTargetDecisionTree::new(d.set(), config(k, levels, ta)).root))?;
    let t1 = view(&root)?;
    let mean_leaf = |m: &Vec<f64>, o: &Vec<f64>, rows: &[usize], what: &str| -> Result<(), String> {
        if o.len() != k || (0..k).any(|t| !close(o[t], m[t], tol)) {
            return Err(format!(
                "{}: the leaf of {} rows holds {:?}, their labels in the regression tree's leaf average {:?}",
                what, rows.len(), o, m
            ));
        }
        Ok(())
    };
    // the boosting tree
    let t2 = guarded(|| {
        let t = GradBoostMultiTargetDecisionTree::new(
            d.set(),
            config(k, levels, tb),
            LeafOutputCalculator::new(LeafOutputType::Regression),
        );
        view(&t.root)
    })??;
    let mut p = pair(&cols, &d.labels, &d.labels, &map, (0.0, 0.0), true);
    let mut leaves = 0;
    p.compare(&t1, &t2, &map, 0, &mut |a, b, rows| {
        let m = mean_of(labels_of(a)?.iter(), k);
        leaves += 1;
        match b {
            LeafView::Output(o) => mean_leaf(&m, o, rows, "boosting tree"),
            b => Err(format!("unexpected leaf {:?}", b)),
        }
    })
    .map_err(|e| format!("regression tree and boosting tree with mean leaves: {}\n{}{}", e, t1.text(), t2.text()))?;
    c.saw("boosting trees with mean leaves compared with the regression tree", 1);
    // the approximate boosting tree
    if k > 1 {
        let t3 = guarded(|| {
            let t = AMGBoostTree::new(
                d.set(),
                config(k, levels, tb),
                LeafOutputCalculator::new(LeafOutputType::Regression),
            );
            view(&t.root)
        })??;
        p.compare(&t1, &t3, &map, 0, &mut |a, b, rows| {
            let m = mean_of(labels_of(a)?.iter(), k);
            leaves += 1;
            match b {
                LeafView::Amg(v, cl) => {
                    let best = m.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                    if *cl >= k || !close(*v, m[*cl], tol) || *v < best - tol {
                        return Err(format!(
                            "the leaf of {} rows holds {:?} for class {}, their labels average {:?}",
                            rows.len(), v, cl, m
                        ));
                    }
                    Ok(())
                }
                b => Err(format!("unexpected leaf {:?}", b)),
            }
        })
        .map_err(|e| format!("regression tree and approximate boosting tree with mean leaves: {}\n{}{}", e, t1.text(), t3.text()))?;
        c.saw("approximate boosting trees with mean leaves compared with the regression tree", 1);
    }
    c.saw("nodes grouping the rows alike", p.same);
    c.saw("nodes excused by a tie", p.ties);
    c.saw("leaf pairs compared", leaves);
    // one iteration, learning rate 1
    let r = replay::train(EKind::Reg, d, levels, tb, 1, 1.0)?;
    if r.trees.len() != 1 {
        return Err(format!("{} trees after one iteration", r.trees.len()));
    }
    let init = r.model.initial_guess().clone();
    let res: Vec<Vec<f64>> = match &r.residuals {
        Some(x) => x[0].clone(),
        None => d.labels.iter().map(|l| (0..k).map(|t| l[t] - init[t]).collect()).collect(),
    };
    let mut p = pair(&cols, &d.labels, &res, &map, (0.0, 4.0 * EPS * top), true);
    let alike = p
        .compare(&t1, &r.trees[0], &map, 0, &mut |a, b, rows| {
            let m = mean_of(labels_of(a)?.iter(), k);
            match b {
                LeafView::Output(o) => {
                    let o: Vec<f64> = (0..k).map(|t| o[t] + init[t]).collect();
                    mean_leaf(&m, &o, rows, "ensemble of one tree with learning rate 1, initial guess added")
                }
                b => Err(format!("unexpected leaf {:?}", b)),
            }
        })
        .map_err(|e| format!("regression tree and the tree of a one-step ensemble: {}\n{}{}", e, t1.text(), r.trees[0].text()))?;
    c.saw("one-step ensembles compared with the regression tree", 1);
    c.saw("nodes grouping the rows alike", p.same);
    c.saw("nodes excused by a tie", p.ties);
    if alike {
        let probes = gen::probes(&mut c.rng, d, 12);
        for row in probes.iter().chain(&d.rows).take(few(n)) {
            let m = mean_of(labels_of(t1.leaf_for(row))?.iter(), k);
            let got = guarded(|| r.model.predict(row))?;
            if got.len() != k || (0..k).any(|t| !close(got[t], m[t], 2.0 * tol)) {
                return Err(format!(
                    "row {:?}: one tree with learning rate 1 predicts {:?}, the leaf of the regression tree averages {:?}",
                    row, got, m
                ));
            }
            c.saw("predictions compared with the regression tree's leaf", 1);
        }
        // the two scores of one test set
        let test = Data {
            labels: (0..probes.len()).map(|i| d.labels[(i * 7 + 1) % n].clone()).collect(),
            rows: probes,
            whole: false,
            note: String::new(),
        };
        for s in [d.set(), test.set()] {
            // the library averages a leaf once per row scored
            if s.labels.is_empty() || s.labels.len() > 5000 {
                continue;
            }
            let (a, b) = guarded(|| (calculate_overall_mean_squared_error(&s, &root), r.model.score(&s)))?;
            let slack = 64.0 * tol * top + 64.0 * EPS * (s.labels.len() * k) as f64 * a.abs();
            if !close(a, b, slack) {
                return Err(format!("mean squared error {:?} with the regression tree, {:?} with the one-step ensemble", a, b));
            }
            c.saw("scores of tree and one-step ensemble compared", 1);
        }
        if t1.leaves() > 1 {
            c.nontrivial(d.hash() ^ levels as u64);
        }
    }
    if c.idx < 2 {
        c.sample(format!("{} limit {} => {}", d.brief(), levels, t1.text().replace('\n', "; ")));
    }
    Ok(())
}

fn trees(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = if c.rng.chance(0.2) { gen::needle(&mut c.rng) } else { gen::any(&mut c.rng, want) };
    let l = forge::levels(&mut c.rng, d.n());
    means(c, &d, l)
}

/// The first tree of either classification ensemble against the tree on the
/// one-hot labels.
fn first(c: &mut Case, d: &Data, levels: u32) -> Result<(), String> {
    let threads = c.rng.chance(0.2);
    let it = *c.rng.pick(&[1, 1, 2]);
    let lr = *c.rng.pick(&[0.1, 1.0, 0.5, 0.01]);
    c.describe(format!("limit {} threads {} learning rate {}\n{}", levels, threads, lr, d.text()));
    let (n, k) = (d.n(), d.k());
    let kf = k as f64;
    let cols = d.columns();
    let map: Vec<usize> = (0..n).collect();
    let root = guarded(|| Box::new(RegressionMultiTargetDecisionTree::new(d.set(), config(k, levels, threads)).root))?;
    let t1 = view(&root)?;
    let probes = gen::probes(&mut c.rng, d, 12);
    for kind in [EKind::Multi, EKind::Amg] {
        let r = replay::train(kind, d, levels, threads, it, lr)?;
        if r.trees.len() != it as usize {
            return Err(format!("{:?}: {} trees after {} iterations", kind, r.trees.len(), it));
        }
        let res: Vec<Vec<f64>> = match &r.residuals {
            Some(x) => x[0].clone(),
            None => d.labels.iter().map(|l| l.iter().map(|x| x - 1.0 / kf).collect()).collect(),
        };
        let mut p = pair(&cols, &d.labels, &res, &map, (0.0, 16.0 * EPS), true);
        let mut leaves = 0;
        let alike = p
            .compare(&t1, &r.trees[0], &map, 0, &mut |a, b, rows| {
                leaves += 1;
                let share = mean_of(labels_of(a)?.iter(), k);
                let want: Vec<f64> = share.iter().map(|f| kf * f - 1.0).collect();
                let tol = 256.0 * EPS * (rows.len() as f64 + 10.0) * kf * kf;
                match b {
                    LeafView::Output(o) => {
                        if o.len() != k || (0..k).any(|t| !close(o[t], want[t], tol)) {
                            return Err(format!(
                                "a leaf with class shares {:?} ({} rows) holds {:?}, expected {:?}",
                                share, rows.len(), o, want
                            ));
                        }
                    }
                    LeafView::Amg(v, cl) => {
                        let best = want.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                        if *cl >= k || !close(*v, best, tol) || !close(want[*cl], best, 1e-12) {
                            return Err(format!(
                                "a leaf with class shares {:?} ({} rows) holds {:?} for class {}, expected {:?}",
                                share, rows.len(), v, cl, best
                            ));
                        }
                    }
                    b => return Err(format!("unexpected leaf {:?}", b)),
                }
                Ok(())
            })
            .map_err(|e| format!("{:?}: the first tree and the tree on the one-hot labels: {}\n{}{}", kind, e, t1.text(), r.trees[0].text()))?;
        c.saw("first trees of classification ensembles compared", 1);
        c.saw("first-tree leaves compared with class shares", leaves);
        c.saw("nodes grouping the rows alike", p.same);
        c.saw("nodes excused by a tie", p.ties);
        if it == 1 && alike {
            let mut unique = true;
            for row in probes.iter().chain(&d.rows).take(few(n)) {
                let share = mean_of(labels_of(t1.leaf_for(row))?.iter(), k);
                let best = share.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                if share.iter().filter(|x| **x == best).count() != 1 {
                    unique = false;
                    continue;
                }
                let (a, b) = guarded(|| (predict_class(row, &root), r.model.predict(row)))?;
                if a != b {
                    return Err(format!(
                        "{:?}: row {:?} reaches a leaf with class shares {:?}; the tree predicts {:?}, the ensemble of one tree {:?}",
                        kind, row, share, a, b
                    ));
                }
                c.saw("classes predicted alike by tree and one-step ensemble", 1);
            }
            if unique && n <= 400 {
                let s = d.set();
                let (a, b) = guarded(|| (calculate_accuracy(&s, &root), r.model.score(&s)))?;
                if !close(a, b, 1e-12) {
                    return Err(format!("{:?}: accuracy {:?} with the tree, {:?} with the ensemble of one tree", kind, a, b));
                }
                c.saw("scores of tree and one-step ensemble compared", 1);
            }
        }
    }
    if t1.leaves() > 1 {
        c.nontrivial(d.hash() ^ (levels as u64) << 3 ^ lr.to_bits());
    }
    Ok(())
}

fn first_trees(c: &mut Case) -> Result<(), String> {
    let d = gen::any(&mut c.rng, Labels::OneHot);
    let l = forge::levels(&mut c.rng, d.n());
    first(c, &d, l)
}

/// With two classes the approximation is none: both classification ensembles
/// are the same model.
fn two(c: &mut Case, d: &Data, levels: u32, it: u32) -> Result<(), String> {
    let lr = *c.rng.pick(&[0.1, 0.3, 0.5, 1.0, 0.01, 1.0 / 3.0]);
    let (ta, tb) = (c.rng.chance(0.2), c.rng.chance(0.2));
    c.describe(format!("limit {} threads {} {} iterations {} learning rate {}\n{}", levels, ta, tb, it, lr, d.text()));
    let n = d.n();
    let cols = d.columns();
    let map: Vec<usize> = (0..n).collect();
    let a = replay::train(EKind::Multi, d, levels, ta, it, lr)?;
    let b = replay::train(EKind::Amg, d, levels, tb, it, lr)?;
    if a.trees.len() != b.trees.len() {
        return Err(format!("{} trees, {} in the approximate ensemble", a.trees.len(), b.trees.len()));
    }
    let (x, y) = match (&a.residuals, &b.residuals) {
        (Some(x), Some(y)) => (x, y),
        _ => return Ok(()),
    };
    // how far the scores may have drifted apart
    let mut drift = 16.0 * EPS;
    let mut size = 1.0f64;
    let mut alike = true;
    let mut compared = 0;
    for i in 0..a.trees.len() {
        let delta = drift + 16.0 * EPS * size;
        if delta > 1e-6 {
            c.saw("ensembles followed until rounding dominates", 1);
            alike = false;
            break;
        }
        for r in 0..n {
            for t in 0..2 {
                if !close(x[i][r][t], y[i][r][t], 2.0 * delta) {
                    return Err(format!(
                        "iteration {}: row {} has residuals {:?}, in the approximate ensemble {:?} (label {:?})",
                        i, r, x[i][r], y[i][r], d.labels[r]
                    ));
                }
            }
        }
        let mut p = pair(&cols, &x[i], &y[i], &map, (2.0 * delta, 2.0 * delta), true);
        let mut worst = 0.0f64;
        let mut top = 0.0f64;
        let same = p
            .compare(&a.trees[i], &b.trees[i], &map, 0, &mut |p, q, rows| {
                let m = rows.len() as f64;
                let mine: Vec<&Vec<f64>> = rows.iter().map(|r| &x[i][*r]).collect();
                let (num, den) = num_den(&mine);
                let (o, v, cl) = match (p, q) {
                    (LeafView::Output(o), LeafView::Amg(v, cl)) if o.len() == 2 && *cl < 2 => (o, *v, *cl),
                    (p, q) => return Err(format!("unexpected leaves {:?} {:?}", p, q)),
                };
                let slip = m * (4.0 * delta + (16.0 + m) * EPS);
                let low = den[0].min(den[1]) - slip;
                if low <= 0.0 {
                    worst = f64::INFINITY;
                    return Ok(());
                }
                let allow = slip / low + (num[0].abs().max(num[1].abs()) + slip) * slip / (low * low);
                let mut w = [-v, -v];
                w[cl] = v;
                for t in 0..2 {
                    if !close(o[t], w[t], allow) {
                        return Err(format!(
                            "a leaf of {} rows contributes {:?}, in the approximate ensemble {:?} (allowance {:e})",
                            rows.len(), o, w, allow
                        ));
                    }
                    top = top.max(o[t].abs());
                }
                worst = worst.max(allow);
                Ok(())
            })
            .map_err(|e| format!("iteration {}: {}\n{}{}", i, e, a.trees[i].text(), b.trees[i].text()))?;
        c.saw("iterations of two-class ensembles compared", 1);
        c.saw("nodes grouping the rows alike", p.same);
        c.saw("nodes excused by a tie", p.ties);
        compared += 1;
        if !same {
            alike = false;
            break;
        }
        size += lr * top;
        drift += lr * worst + 4.0 * EPS * size;
    }
    if alike {
        let probes = gen::probes(&mut c.rng, d, 12);
        for r in d.rows.iter().chain(&probes).take(400) {
            let w = ens::want(&a.model, &a.trees, r);
            if (w.score[0] - w.score[1]).abs() <= 4.0 * drift + w.tol[0] + w.tol[1] {
                c.saw("predictions left out because the two classes tie", 1);
                continue;
            }
            let (p, q) = guarded(|| (a.model.predict(r), b.model.predict(r)))?;
            if p != q {
                return Err(format!(
                    "row {:?} is predicted {:?}, by the approximate ensemble {:?} (scores {:?})",
                    r, p, q, w.score
                ));
            }
            c.saw("two-class predictions compared", 1);
        }
        c.saw("two-class ensembles alike throughout", 1);
    }
    if compared > 1 && a.trees.iter().any(|t| t.leaves() > 1) {
        c.nontrivial(d.hash() ^ (levels as u64) << 3 ^ lr.to_bits() ^ (it as u64) << 40);
    }
    Ok(())
}

fn two_classes(c: &mut Case) -> Result<(), String> {
    let n = match c.rng.below(8) {
        0 => c.rng.range(2, 6),
        1 => c.rng.range(60, 300),
        _ => c.rng.range(6, 60),
    };
    let cc = c.rng.range(1, 5);
    let d = if c.rng.chance(0.5) {
        // overlapping classes, so that leaves stay mixed
        let rows: Vec<Vec<f64>> = (0..n)
            .map(|_| (0..cc).map(|_| if c.rng.chance(0.3) { c.rng.int(0, 5) as f64 } else { c.rng.normal() }).collect())
            .collect();
        let noise = *c.rng.pick(&[0.3, 1.0, 3.0]);
        let labels = rows
            .iter()
            .map(|r| if r[0] + noise * c.rng.normal() > 0.3 { vec![0.0, 1.0] } else { vec![1.0, 0.0] })
            .collect();
        Data {
            rows,
            labels,
            whole: true,
            note: "two overlapping classes".into(),
        }
    } else {
        gen::data(&mut c.rng, n, cc, 2, Labels::OneHot)
    };
    let levels = *c.rng.pick(&[0, 1, 1, 2, 2, 3, 4, 100]);
    let it = *c.rng.pick(&[1, 2, 3, 5, 10, 30, 120]);
    two(c, &d, levels, it)
}

fn big(c: &mut Case) -> Result<(), String> {
    let shapes = [(257, 3, 2), (1025, 4, 2), (3000, 2, 3), (40, 300, 2), (60, 3, 30), (5000, 2, 2), (300, 2, 40), (2, 1, 2)];
    let (n, cc, k) = shapes[(c.idx % shapes.len() as u64) as usize];
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::data(&mut c.rng, n, cc, k, want);
    means(c, &d, 5)?;
    let d = gen::data(&mut c.rng, n, cc, k, Labels::OneHot);
    first(c, &d, 4)?;
    if k == 2 {
        two(c, &d, 3, 6)?;
    }
    Ok(())
}

/// Rows, features and targets over all orders of magnitude.
fn sized(c: &mut Case) -> Result<(), String> {
    let l = c.rng.range(1, 4) as u32;
    match c.rng.below(2) {
        0 => {
            let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
            let d = gen::sized(&mut c.rng, 120_000, want);
            means(c, &d, l)
        }
        _ => {
            let d = gen::sized(&mut c.rng, 120_000, Labels::OneHot);
            first(c, &d, l)
        }
    }
}

/// Very many rows, features or targets.
fn huge(c: &mut Case) -> Result<(), String> {
    let w = c.idx;
    let l = c.rng.range(1, 3) as u32;
    match (w / 4) % 2 {
        0 => {
            let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
            let d = gen::huge(&mut c.rng, w, want);
            means(c, &d, l)
        }
        _ => {
            let d = gen::huge(&mut c.rng, w, Labels::OneHot);
            first(c, &d, l)
        }
    }
}

fn main() {
    run(
        "C26",
        "cases: a data set learned by two learners whose definitions coincide on it (regression tree and boosting trees with mean leaves and a one-step ensemble; tree on one-hot labels and the first tree of a classification ensemble; the two classification ensembles on two classes), walked together and asked for predictions and scores; non-trivial: the trees split and were compared throughout; distinct by data and settings",
        &["finite data, one-hot labels for the classification ensembles", "below a node where two splits tie up to rounding, and once rounding in a two-class ensemble may exceed 1e-6, nothing is compared"],
        vec![
            Stage::new("trees", trees, (6_000, 150_000), (25, 250)),
            Stage::new("first", first_trees, (5_000, 120_000), (25, 250)),
            Stage::new("two-classes", two_classes, (3_000, 150_000), (25, 350)),
            Stage::new("big", big, (24, 240), (25, 200)),
            Stage::new("sized", sized, (150, 2_000), (25, 150)),
            Stage::new("huge", huge, (24, 240), (30, 150)),
        ],
    )
}
