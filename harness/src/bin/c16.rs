//! C16: regression boosting never increases the training error.
use multi_target_grad_boost::boosting_ensemble::boosting_types::RegressionBoostModel;
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;
use vph::gen::{self, Data, Labels};
use vph::oracle::{mean_of, Node, EPS};
use vph::run::{guarded, main as run, Case, Stage};
use vph::tree::config;

/// Takes the trees off the trained model one by one and scores the training
/// set each time with the project's own score.
fn judge(c: &mut Case, d: &Data, levels: u32, threads: bool, it: u32, lr: f64) -> Result<(), String> {
    c.describe(format!("limit {} threads {} iterations {} learning rate {:?}\n{}", levels, threads, it, lr, d.text()));
    let set = d.set();
    let (n, k) = (d.n(), d.k());
    let mut m = guarded(|| RegressionBoostModel::train(set.clone(), config(k, levels, threads), it, lr))?;
    if m.trees.len() != it as usize {
        return Err(format!("{} trees after {} iterations", m.trees.len(), it));
    }
    let big = d.labels.iter().flatten().map(|x| x.abs()).fold(0.0, f64::max);
    let mut err: Vec<f64> = vec![];
    loop {
        err.push(guarded(|| m.calculate_score(&set))?);
        if m.trees.pop().is_none() {
            break;
        }
    }
    err.reverse();
    // predictions stay within the labels' range by less than the error allows
    let scale = big + (err.iter().cloned().fold(0.0, f64::max) * n as f64 * k as f64).sqrt();
    let e = 4.0 * (it as f64 + n as f64 + 12.0) * EPS * scale;
    let mut fell = 0;
    for i in 1..err.len() {
        let slack = 2.0 * err[i - 1].max(0.0).sqrt() * e + e * e + 4.0 * (n + k + 16) as f64 * EPS * err[i - 1];
        if !(err[i] <= err[i - 1] + slack) {
            return Err(format!(
                "tree {} (learning rate {:?}, limit {}) raises the mean squared error on the {} training rows from {:?} to {:?}",
                i - 1, lr, levels, n, err[i - 1], err[i]
            ));
        }
        c.saw("steps of the training error compared", 1);
        if err[i] < err[i - 1] {
            fell += 1;
        }
    }
    // never worse than predicting the means
    let mean = mean_of(d.labels.iter(), k);
    let base = d
        .labels
        .iter()
        .map(|l| (0..k).map(|t| (l[t] - mean[t]) * (l[t] - mean[t])).sum::<f64>() / k as f64)
        .sum::<f64>()
        / n as f64;
    let last = *err.last().unwrap();
    let slack = 2.0 * base.sqrt() * e + e * e + 4.0 * (n + k + 16) as f64 * EPS * base;
    if !(last <= base + (it as f64 + 1.0) * slack) {
        return Err(format!("after {} trees the training error is {:?}, predicting the means gives {:?}", it, last, base));
    }
    c.saw("steps that lowered the training error", fell);
    c.saw("ensembles taken apart", 1);
    if fell > 1 {
        c.nontrivial(d.hash() ^ lr.to_bits() ^ (it as u64) << 20 ^ levels as u64);
    }
    if c.idx < 2 {
        c.sample(format!("{} limit {} learning rate {:?}: training errors {:?}", d.brief(), levels, lr, &err[..err.len().min(8)]));
    }
    Ok(())
}

fn any(c: &mut Case) -> Result<(), String> {
    let l = *c.rng.pick(&[Labels::Any, Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = if c.rng.chance(0.2) { gen::needle(&mut c.rng) } else { gen::any(&mut c.rng, l) };
    let levels = *c.rng.pick(&[0, 1, 2, 3, 4, 8, 100]);
    let threads = c.rng.chance(0.2);
    let it = *c.rng.pick(&[1, 2, 3, 5, 8, 16]);
    let lr = *c.rng.pick(&[0.1, 0.3, 1.0, 1.0, 1.5, 1.9, 1.999, 0.01, 1e-6, 1.0 / 3.0]);
    judge(c, &d, levels, threads, it, lr)
}

fn long(c: &mut Case) -> Result<(), String> {
    let l = *c.rng.pick(&[Labels::Any, Labels::Whole]);
    let d = gen::small(&mut c.rng, l);
    let levels = *c.rng.pick(&[1, 2, 3]);
    let lr = *c.rng.pick(&[0.1, 0.5, 1.0, 1.9]);
    judge(c, &d, levels, false, 300, lr)
}

fn big(c: &mut Case) -> Result<(), String> {
    let shapes = [(257, 3, 2), (1025, 3, 3), (5000, 3, 2), (40, 300, 2), (60, 3, 260), (300, 2, 40)];
    let (n, cc, k) = shapes[(c.idx % shapes.len() as u64) as usize];
    let d = gen::data(&mut c.rng, n, cc, k, Labels::Any);
    let lr = *c.rng.pick(&[0.1, 1.0, 1.9]);
    judge(c, &d, 4, true, 4, lr)
}

/// One full tree on one feature of distinct values reproduces the labels.
fn exact(c: &mut Case) -> Result<(), String> {
    let n = match c.rng.below(4) {
        0 => c.rng.range(1, 4),
        1 => *c.rng.pick(&[63, 64, 65, 100, 120]),
        _ => c.rng.range(4, 40),
    };
    let k = *c.rng.pick(&[1, 1, 2, 3, 5, 12]);
    let whole = c.rng.chance(0.6);
    let mut xs: Vec<f64> = match c.rng.below(5) {
        0 => (0..n).map(|i| i as f64).collect(),
        1 => (0..n).map(|i| -0.5 * i as f64 + 3.0).collect(),
        2 => {
            let mut x = *c.rng.pick(&[1.0, -1.0, 1e9, 0.1]);
            (0..n)
                .map(|_| {
                    x = gen::next_up(x);
                    x
                })
                .collect()
        }
        3 => (0..n).map(|i| ((i as f64) * 11.0 - 600.0).exp2() * if i % 2 == 0 { 1.0 } else { -1.0 }).collect(),
        _ => (0..n).map(|_| c.rng.normal()).collect(),
    };
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    xs.dedup();
    c.rng.shuffle(&mut xs);
    let style = c.rng.below(4);
    let labels: Vec<Vec<f64>> = (0..xs.len())
        .map(|i| {
            (0..k)
                .map(|t| match (whole, style) {
                    (true, 0) => ((i + t) % 2) as f64,
                    (true, 1) => c.rng.int(-50, 50) as f64,
                    (true, 2) => (i == 0) as u8 as f64,
                    (true, _) => i as f64 - 10.0 * t as f64,
                    (false, 0) => c.rng.normal() * 1e-5,
                    (false, 1) => c.rng.normal(),
                    (false, 2) => c.rng.normal() * 1e5,
                    (false, _) => i as f64 * 0.1,
                })
                .collect()
        })
        .collect();
    let d = Data {
        rows: xs.iter().map(|x| vec![*x]).collect(),
        labels,
        whole,
        note: "one distinct feature".into(),
    };
    let threads = c.rng.chance(0.3);
    c.describe(d.text());
    let m = guarded(|| RegressionBoostModel::train(d.set(), config(k, u32::MAX, threads), 1, 1.0))?;
    let cols = d.columns();
    let all: Vec<usize> = (0..d.n()).collect();
    // what the split search cannot tell apart from rounding (see DESIGN.md)
    let node = Node::new(&cols, &d.labels, &all, 0.0);
    let big = d.labels.iter().flatten().map(|x| x.abs()).fold(0.0, f64::max);
    let slack = if whole {
        1e-10 * (1.0 + big)
    } else {
        d.n() as f64 * (4.0 * node.tol).sqrt() + 1e-12 * big
    };
    for (r, l) in d.rows.iter().zip(&d.labels) {
        let p = guarded(|| m.predict(r))?;
        for t in 0..k {
            if !((p[t] - l[t]).abs() <= slack) {
                return Err(format!("row {:?} with label {:?} is predicted {:?} (allowance {:e})", r, l, p, slack));
            }
        }
        c.saw("training labels reproduced by one full tree", 1);
    }
    if d.n() > 2 {
        c.nontrivial(d.hash());
    }
    Ok(())
}

/// Rows, features and targets over all orders of magnitude.
fn sized(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::sized(&mut c.rng, 200_000, want);
    let lr = *c.rng.pick(&[0.1, 1.0, 1.9, 0.5]);
    let levels = c.rng.range(1, 4) as u32;
    judge(c, &d, levels, true, 3, lr)
}

/// Very many rows, features or targets.
fn huge(c: &mut Case) -> Result<(), String> {
    let w = c.idx;
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::huge(&mut c.rng, w, want);
    let lr = *c.rng.pick(&[0.1, 1.0, 1.9, 0.5]);
    let levels = c.rng.range(1, 3) as u32;
    judge(c, &d, levels, true, 3, lr)
}

fn main() {
    run(
        "C16",
        "cases: regression ensembles with learning rates between 0 and 2, whose trees are taken off one by one, the project's score of the training set observed each time; and single full trees on one feature of distinct values; non-trivial: at least two steps lowered the error (or more than two rows reproduced); distinct by data and settings",
        &["the allowance for a step is that of predictions off by 4 (iterations + rows + 12) eps times the largest label"],
        vec![
            Stage::new("any", any, (9_000, 200_000), (40, 400)),
            Stage::new("exact", exact, (10_000, 150_000), (20, 200)),
            Stage::new("long", long, (200, 3_000), (20, 250)),
            Stage::new("big", big, (24, 300), (30, 300)),
            Stage::new("sized", sized, (150, 2500), (25, 150)),
            Stage::new("huge", huge, (24, 240), (30, 150)),
        ],
    )
}
