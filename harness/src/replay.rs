//! Replays a trained ensemble iteration by iteration and judges every step.

use crate::ens::{EKind, Model};
use crate::gen::Data;
use crate::oracle::{close, mean_of, Sum, EPS};
use crate::run::guarded;
use crate::tree::{check_growth, config_with, find_best_split, LeafView, Stats, T};
use common::datasets::MultiTargetDataSet;
use common::results::BestSplitResult;
use std::cell::RefCell;

thread_local! {
    /// (expected number of rows, data of the root searches seen)
    static ROOTS: RefCell<(usize, Vec<MultiTargetDataSet>)> = const { RefCell::new((0, Vec::new())) };
}

/// The project's split search; root searches of the running training are
/// recorded on the training thread.
pub fn recording_search(d: &MultiTargetDataSet, k: u32) -> BestSplitResult {
    ROOTS.with(|r| {
        let mut r = r.borrow_mut();
        if r.0 == d.labels.len() && r.0 > 0 {
            r.1.push(d.clone());
        }
    });
    find_best_split(d, k)
}

pub struct Run {
    pub model: Model,
    pub trees: Vec<T>,
    /// residuals handed to the tree of each iteration, if all were seen
    pub residuals: Option<Vec<Vec<Vec<f64>>>>,
}

/// Trains with the recording search.
pub fn train(kind: EKind, d: &Data, levels: u32, threads: bool, iterations: u32, lr: f64) -> Result<Run, String> {
    ROOTS.with(|r| *r.borrow_mut() = (d.n(), vec![]));
    let cfg = config_with(d.k(), levels, threads, recording_search);
    let set = d.set();
    let model = guarded(|| Model::train(kind, set, cfg, iterations, lr));
    let seen = ROOTS.with(|r| std::mem::replace(&mut *r.borrow_mut(), (0, vec![])).1);
    let model = model?;
    let trees = model.trees()?;
    let mut residuals = None;
    if seen.len() == iterations as usize && d.n() > 1 {
        let cols = d.columns();
        for (i, s) in seen.iter().enumerate() {
            if s.feature_rows != d.rows || s.feature_columns != cols {
                return Err(format!("iteration {}: the tree is grown on other features than the training rows", i));
            }
        }
        residuals = Some(seen.into_iter().map(|s| s.labels).collect());
    }
    Ok(Run {
        model,
        trees,
        residuals,
    })
}

pub fn softmax(s: &[f64]) -> Vec<f64> {
    let m = s.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let e: Vec<f64> = s.iter().map(|x| (x - m).exp()).collect();
    let mut t = Sum::new();
    e.iter().for_each(|x| t.add(*x));
    e.iter().map(|x| x / t.get()).collect()
}

/// Multi-class leaf formula: numerator and denominator per class.
pub fn num_den(res: &[&Vec<f64>]) -> (Vec<f64>, Vec<f64>) {
    let k = res[0].len();
    let mut num = vec![Sum::new(); k];
    let mut den = vec![Sum::new(); k];
    for r in res {
        for t in 0..k {
            num[t].add(r[t]);
            let a = r[t].abs();
            den[t].add(a * (1.0 - a));
        }
    }
    (num.iter().map(|x| x.get()).collect(), den.iter().map(|x| x.get()).collect())
}

/// Does `out` satisfy out * den = (K-1)/K * num, given residual uncertainty
/// `delta` and `n` rows? Where the divisor vanishes the output is zero.
pub fn newton_ok(out: f64, num: f64, den: f64, k: usize, n: usize, delta: f64) -> bool {
    if !out.is_finite() {
        return false;
    }
    let kf = k as f64;
    let want = (kf - 1.0) / kf * num;
    let slip = n as f64 * (delta + 8.0 * EPS) + 4.0 * n as f64 * EPS * den.abs();
    if out == 0.0 && den.abs() <= slip + 1e-140 {
        return true;
    }
    (out * den - want).abs() <= (out.abs() + 1.0) * 2.0 * slip + 8.0 * EPS * (out * den).abs()
}

#[derive(Default)]
pub struct Seen {
    pub iterations: u64,
    pub leaves: u64,
    pub rows: u64,
    pub residual_vectors: u64,
    pub recorded: u64,
    pub grown: Stats,
    pub split_iterations: u64,
}

pub struct Setting {
    pub levels: u32,
    pub iterations: u32,
    pub lr: f64,
    /// judge the split choice of every node (cost: rows x features per node)
    pub growth: bool,
}

pub fn judge(kind: EKind, d: &Data, run: &Run, s: &Setting) -> Result<Seen, String> {
    let mut seen = Seen::default();
    let (n, k) = (d.n(), d.k());
    if run.trees.len() != s.iterations as usize {
        return Err(format!("{} trees after {} iterations", run.trees.len(), s.iterations));
    }
    if run.model.learning_rate().to_bits() != s.lr.to_bits() {
        return Err(format!("learning rate {:?} instead of {:?}", run.model.learning_rate(), s.lr));
    }
    let init = run.model.initial_guess().clone();
    if init.len() != k {
        return Err(format!("initial guess {:?} for {} targets", init, k));
    }
    let big: Vec<f64> = (0..k)
        .map(|t| d.labels.iter().map(|l| l[t].abs()).fold(0.0, f64::max))
        .collect();
    match kind {
        EKind::Reg => {
            let mean = mean_of(d.labels.iter(), k);
            for t in 0..k {
                if !close(init[t], mean[t], 4.0 * EPS * (n as f64 + 2.0) * big[t]) {
                    return Err(format!("initial guess {:?} for target {}, the labels average {:?}", init[t], t, mean[t]));
                }
            }
        }
        _ => {
            for t in 0..k {
                if !close(init[t], 1.0 / k as f64, 4.0 * EPS) {
                    return Err(format!("initial guess {:?} for class {} of {}", init[t], t, k));
                }
            }
        }
    }
    let cols = d.columns();
    let mut score: Vec<Vec<f64>> = vec![init.clone(); n];
    let mut scale = big.iter().cloned().fold(1e-300, f64::max);
    for (it, tree) in run.trees.iter().enumerate() {
        seen.iterations += 1;
        let at = |e: String| format!("iteration {}: {}\n{}", it, e, tree.text());
        for v in &score {
            for x in v {
                scale = scale.max(x.abs());
            }
        }
        let mut res: Vec<Vec<f64>> = (0..n)
            .map(|i| match kind {
                EKind::Reg => (0..k).map(|t| d.labels[i][t] - score[i][t]).collect(),
                _ => {
                    let p = softmax(&score[i]);
                    (0..k).map(|t| d.labels[i][t] - p[t]).collect()
                }
            })
            .collect();
        let mut delta = match kind {
            EKind::Reg => 8.0 * (it as f64 + 10.0) * EPS * scale,
            _ => 8.0 * (it as f64 + 10.0) * EPS * (1.0 + scale),
        };
        if let Some(all) = &run.residuals {
            let rec = &all[it];
            for i in 0..n {
                for t in 0..k {
                    // a class the row does not have: minus its probability, exact
                    // to rounding however small it is
                    let tol = match kind {
                        EKind::Reg => delta,
                        _ if d.labels[i][t] == 0.0 => delta.min(2.0 * delta * res[i][t].abs() + 1e-290),
                        _ => delta,
                    };
                    if rec[i].len() != k || !close(rec[i][t], res[i][t], tol) {
                        return Err(at(format!(
                            "row {} is given residual {:?}, expected {:?} (label {:?}, current {:?})",
                            i, rec[i], res[i], d.labels[i], score[i]
                        )));
                    }
                }
                seen.residual_vectors += 1;
            }
            seen.recorded += 1;
            // judge the tree on the very residuals it was grown on
            res = rec.clone();
            delta = 0.0;
        }
        if s.growth {
            check_growth(tree, &cols, &res, (0..n).collect(), s.levels, delta, false, &mut seen.grown)
                .map_err(at)?;
        }
        if tree.leaves() > 1 {
            seen.split_iterations += 1;
        }
        // leaf outputs, then the new scores
        let mut add: Vec<(Vec<usize>, Vec<f64>)> = vec![];
        tree.route(&d.rows, (0..n).collect(), &mut |leaf, idx| {
            seen.leaves += 1;
            seen.rows += idx.len() as u64;
            if idx.is_empty() {
                return Err("a leaf that no training row reaches".into());
            }
            let mine: Vec<&Vec<f64>> = idx.iter().map(|i| &res[*i]).collect();
            let m = idx.len();
            match (kind, leaf) {
                (EKind::Reg, LeafView::Output(o)) => {
                    let mean = mean_of(mine.iter().cloned(), k);
                    if o.len() != k {
                        return Err(format!("leaf output {:?} for {} targets", o, k));
                    }
                    for t in 0..k {
                        let b = mine.iter().map(|r| r[t].abs()).fold(0.0, f64::max);
                        if !close(o[t], mean[t], delta + 4.0 * EPS * (m as f64 + 2.0) * b) {
                            return Err(format!(
                                "the output of a leaf with {} rows is {:?}, their residuals average {:?}",
                                m, o, mean
                            ));
                        }
                    }
                    add.push((idx.to_vec(), o.clone()));
                }
                (EKind::Multi, LeafView::Output(o)) => {
                    let (num, den) = num_den(&mine);
                    if o.len() != k {
                        return Err(format!("leaf output {:?} for {} classes", o, k));
                    }
                    for t in 0..k {
                        if !newton_ok(o[t], num[t], den[t], k, m, delta) {
                            return Err(format!(
                                "the output of a leaf with {} rows is {:?} for class {}, expected {:?} ({:e} / {:e})",
                                m, o[t], t, (k as f64 - 1.0) / k as f64 * num[t] / den[t], num[t], den[t]
                            ));
                        }
                    }
                    add.push((idx.to_vec(), o.clone()));
                }
                (EKind::Amg, LeafView::Amg(v, class)) => {
                    let (num, den) = num_den(&mine);
                    if *class >= k {
                        return Err(format!("leaf class {} of {}", class, k));
                    }
                    if !newton_ok(*v, num[*class], den[*class], k, m, delta) {
                        return Err(format!(
                            "the value of a leaf with {} rows is {:?} for class {}, expected {:?} ({:e} / {:e})",
                            m, v, class, (k as f64 - 1.0) / k as f64 * num[*class] / den[*class], num[*class], den[*class]
                        ));
                    }
                    for t in 0..k {
                        let slip = m as f64 * (delta + 8.0 * EPS) + 4.0 * m as f64 * EPS * den[t].abs() + 1e-140;
                        if den[t] <= 4.0 * slip {
                            // vanishing divisor: the component is zero or unreliable
                            continue;
                        }
                        let x = (k as f64 - 1.0) / k as f64 * num[t] / den[t];
                        let tol = (x.abs() + v.abs() + 1.0) * 8.0 * slip / den[t] + 1e-12 * x.abs();
                        if x > *v + tol {
                            return Err(format!(
                                "a leaf with {} rows holds {:?} for class {}, but class {} has {:?}",
                                m, v, class, t, x
                            ));
                        }
                    }
                    let mut o = vec![-v / (k as f64 - 1.0); k];
                    o[*class] = *v;
                    add.push((idx.to_vec(), o));
                }
                (_, l) => return Err(format!("unexpected leaf {:?}", l)),
            }
            Ok(())
        })
        .map_err(at)?;
        for (idx, o) in add {
            for i in idx {
                for t in 0..k {
                    score[i][t] += s.lr * o[t];
                }
            }
        }
    }
    Ok(seen)
}
