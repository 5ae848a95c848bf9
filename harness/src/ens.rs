//! One face for the three ensembles.

use crate::hand::Shape;
use crate::oracle::{close, same_bits, Sum, EPS};
use crate::rng::{fnv, Rng};
use crate::run::{clip, guarded, Case};
use crate::tree::{view, LeafView, T};
use common::datasets::MultiTargetDataSet;
use multi_target_decision_tree::decision_trees::TreeConfig;
use multi_target_decision_tree::leaf::{AMGBoostLeaf, GradBoostLeaf};
use multi_target_grad_boost::boosting_ensemble::boosting_types::{
    AMGBoostModel, MultiClassBoostModel, RegressionBoostModel,
};
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum EKind {
    Reg,
    Multi,
    Amg,
}
pub const EKINDS: [EKind; 3] = [EKind::Reg, EKind::Multi, EKind::Amg];

pub enum Model {
    Reg(RegressionBoostModel),
    Multi(MultiClassBoostModel),
    Amg(AMGBoostModel),
}

impl Model {
    pub fn train(kind: EKind, data: MultiTargetDataSet, cfg: TreeConfig, iterations: u32, lr: f64) -> Model {
        match kind {
            EKind::Reg => Model::Reg(RegressionBoostModel::train(data, cfg, iterations, lr)),
            EKind::Multi => Model::Multi(MultiClassBoostModel::train(data, cfg, iterations, lr)),
            EKind::Amg => Model::Amg(AMGBoostModel::train(data, cfg, iterations, lr)),
        }
    }
    pub fn trees(&self) -> Result<Vec<T>, String> {
        match self {
            Model::Reg(m) => m.trees.iter().map(|t| view(t)).collect(),
            Model::Multi(m) => m.trees.iter().map(|t| view(t)).collect(),
            Model::Amg(m) => m.trees.iter().map(|t| view(t)).collect(),
        }
    }
    pub fn initial_guess(&self) -> &Vec<f64> {
        match self {
            Model::Reg(m) => &m.initial_guess,
            Model::Multi(m) => &m.initial_guess,
            Model::Amg(m) => &m.initial_guess,
        }
    }
    pub fn learning_rate(&self) -> f64 {
        match self {
            Model::Reg(m) => m.learning_rate,
            Model::Multi(m) => m.learning_rate,
            Model::Amg(m) => m.learning_rate,
        }
    }
    pub fn predict(&self, row: &[f64]) -> Vec<f64> {
        match self {
            Model::Reg(m) => m.predict(row),
            Model::Multi(m) => m.predict(row),
            Model::Amg(m) => m.predict(row),
        }
    }
    pub fn predictions(&self, s: &MultiTargetDataSet) -> Vec<Vec<f64>> {
        match self {
            Model::Reg(m) => m.calculate_all_predictions(s),
            Model::Multi(m) => m.calculate_all_predictions(s),
            Model::Amg(m) => m.calculate_all_predictions(s),
        }
    }
    pub fn score(&self, s: &MultiTargetDataSet) -> f64 {
        match self {
            Model::Reg(m) => m.calculate_score(s),
            Model::Multi(m) => m.calculate_score(s),
            Model::Amg(m) => m.calculate_score(s),
        }
    }
    /// trees, initial guess and learning rate, bit for bit
    pub fn fingerprint(&self) -> Result<u64, String> {
        let mut h = 5;
        for t in self.trees()? {
            t.fingerprint(&mut h);
        }
        for x in self.initial_guess() {
            fnv(&mut h, x.to_bits());
        }
        fnv(&mut h, self.learning_rate().to_bits());
        Ok(h)
    }
}

/// An ensemble assembled by hand, with a generator for rows that hit the
/// thresholds of its trees.
pub struct Hand {
    pub model: Model,
    pub shapes: Vec<Shape>,
    pub c: usize,
    pub k: usize,
    /// every sum of weighted leaf outputs is exact in any order
    pub exact: bool,
}

impl Hand {
    pub fn any(rng: &mut Rng, kind: EKind) -> Hand {
        let c = if rng.chance(0.02) { rng.span(1000) } else { rng.range(1, 6) };
        let exact = rng.chance(0.6);
        let many = rng.chance(0.03);
        let k = if many {
            30 + rng.span(1000)
        } else if kind == EKind::Amg && exact {
            *rng.pick(&[2, 3, 5, 9, 17])
        } else if kind == EKind::Reg {
            rng.range(1, 7)
        } else {
            rng.range(2, 9)
        };
        let exact = exact && (kind != EKind::Amg || (k - 1).is_power_of_two());
        let count = match rng.below(10) {
            0 => 0,
            1 => 1,
            2 if rng.chance(0.3) => rng.span(6000),
            2 => *rng.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300]),
            3 => rng.range(20, 60),
            _ => rng.range(2, 12),
        };
        let count = if many { count.min(6) } else { count };
        let lr = if exact {
            *rng.pick(&[0.5, 1.0, 0.25, 0.125, 2.0, 0.0, -1.0])
        } else {
            *rng.pick(&[0.1, 0.3, 1.0 / 3.0, 1.7, 0.01, 0.05, 0.9, -0.1, 1e-9])
        };
        let small = rng.chance(0.5);
        let num = move |rng: &mut Rng| -> f64 {
            if exact {
                if small {
                    rng.int(-2, 2) as f64
                } else {
                    rng.int(-64, 64) as f64 / 8.0
                }
            } else {
                match rng.below(6) {
                    0 => 0.0,
                    1 => rng.int(-3, 3) as f64,
                    2 => rng.normal() * 1e6,
                    3 => rng.normal() * 1e-9,
                    _ => rng.normal(),
                }
            }
        };
        let initial: Vec<f64> = match rng.below(3) {
            0 if kind != EKind::Reg => vec![1.0 / k as f64; k],
            1 => (0..k).map(|_| num(rng)).collect(),
            _ => {
                let v = num(rng);
                vec![v; k]
            }
        };
        // 1/K is exact only for powers of two
        let exact = exact && initial.iter().all(|x| (x * 1024.0).fract() == 0.0);
        let mut shapes = vec![];
        for _ in 0..count {
            let mut s = Shape::any(rng);
            s.c = c;
            if count > 20 || many {
                s.depth = s.depth.min(4);
            }
            shapes.push(s);
        }
        let model = match kind {
            EKind::Amg => {
                let mut trees = vec![];
                for s in &shapes {
                    trees.push(Box::new(s.tree(rng, &mut |rng| AMGBoostLeaf {
                        max_value: Some(num(rng)),
                        class: Some(match rng.below(4) {
                            0 => 0,
                            1 => k - 1,
                            _ => rng.below(k),
                        }),
                    })));
                }
                Model::Amg(AMGBoostModel {
                    trees,
                    initial_guess: initial,
                    learning_rate: lr,
                })
            }
            _ => {
                let mut trees = vec![];
                for s in &shapes {
                    trees.push(Box::new(s.tree(rng, &mut |rng| GradBoostLeaf {
                        leaf_output: Some((0..k).map(|_| num(rng)).collect()),
                    })));
                }
                if kind == EKind::Reg {
                    Model::Reg(RegressionBoostModel {
                        trees,
                        initial_guess: initial,
                        learning_rate: lr,
                    })
                } else {
                    Model::Multi(MultiClassBoostModel {
                        trees,
                        initial_guess: initial,
                        learning_rate: lr,
                    })
                }
            }
        };
        Hand {
            model,
            shapes,
            c,
            k,
            exact,
        }
    }
    pub fn row(&self, rng: &mut Rng) -> Vec<f64> {
        if self.shapes.is_empty() {
            return (0..self.c).map(|_| rng.normal()).collect();
        }
        // every feature hits a threshold of some tree
        let mut v = vec![];
        for _ in 0..self.c {
            let s = rng.below(self.shapes.len());
            v.push(self.shapes[s].one(rng));
        }
        v
    }
}

/// The score vector a row should get, and how far rounding may take it.
pub struct Want {
    pub score: Vec<f64>,
    pub tol: Vec<f64>,
}

pub fn want(m: &Model, trees: &[T], row: &[f64]) -> Want {
    let init = m.initial_guess();
    let k = init.len();
    let lr = m.learning_rate();
    let mut s: Vec<Sum> = vec![Sum::new(); k];
    let mut mag: Vec<f64> = vec![0.0; k];
    for t in 0..k {
        s[t].add(init[t]);
        mag[t] += init[t].abs();
    }
    for tree in trees {
        match tree.leaf_for(row) {
            LeafView::Output(o) => {
                for t in 0..k {
                    s[t].add(lr * o[t]);
                    mag[t] += (lr * o[t]).abs();
                }
            }
            LeafView::Amg(v, cl) => {
                for t in 0..k {
                    let o = if t == *cl { *v } else { -v / (k as f64 - 1.0) };
                    s[t].add(lr * o);
                    mag[t] += (lr * o).abs();
                }
            }
            _ => panic!("HARNESS-ERROR leaf kind"),
        }
    }
    let n = trees.len() as f64;
    Want {
        score: s.iter().map(|x| x.get()).collect(),
        tol: mag.iter().map(|m| 2.0 * (n + 6.0) * EPS * m + 1e-300).collect(),
    }
}

/// Judges a prediction; Ok(true) if the leading class is tied.
pub fn judge_prediction(kind: EKind, w: &Want, exact: bool, got: &[f64]) -> Result<bool, String> {
    let k = w.score.len();
    if got.len() != k {
        return Err(format!("prediction {:?} for {} targets", got, k));
    }
    if kind == EKind::Reg {
        for t in 0..k {
            if !close(got[t], w.score[t], w.tol[t]) {
                return Err(format!(
                    "the prediction for target {} is {:?}, the initial guess plus weighted leaf outputs is {:?}",
                    t, got[t], w.score[t]
                ));
            }
        }
        return Ok(false);
    }
    let ones = got.iter().filter(|x| **x == 1.0).count();
    let zeros = got.iter().filter(|x| **x == 0.0).count();
    if ones != 1 || ones + zeros != k {
        return Err(format!("the prediction {:?} is not one-hot", got));
    }
    let at = got.iter().position(|x| *x == 1.0).unwrap();
    let top = w.score.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let first = w.score.iter().position(|x| *x == top).unwrap();
    let tie = w.score.iter().filter(|x| **x == top).count() > 1;
    let ok = if exact {
        at == first
    } else {
        at == first || w.score[at] + w.tol[at] + w.tol[first] >= top
    };
    if !ok {
        return Err(format!(
            "class {} is predicted, the largest score is that of class {} (scores {:?})",
            at, first, w.score
        ));
    }
    Ok(tie)
}

/// Predicts the rows, then again in another order, some of them many times.
pub fn judge_model(c: &mut Case, kind: EKind, m: &Model, rows: &[Vec<f64>], exact: bool) -> Result<(), String> {
    let trees = m.trees()?;
    let before = m.fingerprint()?;
    let mut first: Vec<Vec<f64>> = vec![];
    for r in rows {
        let w = want(m, &trees, r);
        let kept = r.clone();
        let got = guarded(|| m.predict(r)).map_err(|e| format!("{:?} prediction of {}: {}", kind, clip(&format!("{:?}", r), 400), e))?;
        if !same_bits(r, &kept) {
            return Err("predicting altered the row".into());
        }
        let tie = judge_prediction(kind, &w, exact, &got)
            .map_err(|e| format!("{:?} ensemble of {} trees, row {}: {}", kind, trees.len(), clip(&format!("{:?}", r), 400), e))?;
        c.saw("predictions compared", 1);
        c.saw("tree walks behind them", trees.len() as u64);
        if tie {
            c.saw("predictions with an exactly tied leading class", 1);
        }
        first.push(got);
    }
    let mut order: Vec<usize> = (0..rows.len()).collect();
    c.rng.shuffle(&mut order);
    for i in order {
        let again = guarded(|| m.predict(&rows[i]))?;
        if !same_bits(&again, &first[i]) {
            return Err(format!(
                "{:?}: row {} was predicted {:?}, and after other predictions {:?}",
                kind, i, first[i], again
            ));
        }
        c.saw("predictions repeated after others", 1);
    }
    if m.fingerprint()? != before {
        return Err(format!("{:?}: predicting altered the model", kind));
    }
    Ok(())
}
