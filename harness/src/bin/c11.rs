//! C11: multi-class boosting fits each tree to the softmax residuals.
use multi_target_grad_boost::boosting_ensemble::boosting_types::GradBoostTrainingData;
use multi_target_grad_boost::boosting_ensemble::common_multi_class_boosting_functions::executor_helper_functions::calculate_residuals;
use vph::boost;
use vph::ens::EKind::Multi;
use vph::gen::{self, Labels};
use vph::oracle::EPS;
use vph::replay::softmax;
use vph::run::{guarded, main as run, Case, Stage};

fn any(c: &mut Case) -> Result<(), String> {
    boost::any(c, Multi)
}
fn long(c: &mut Case) -> Result<(), String> {
    boost::long(c, Multi)
}
fn big(c: &mut Case) -> Result<(), String> {
    boost::big(c, Multi)
}
fn steep(c: &mut Case) -> Result<(), String> {
    boost::steep(c, Multi)
}
/// The residual helper on scores of any size.
fn residuals(c: &mut Case) -> Result<(), String> {
    let d = if c.idx % 100 == 99 {
        gen::big(&mut c.rng, 0, Labels::OneHot)
    } else {
        gen::any(&mut c.rng, Labels::OneHot)
    };
    let scale = *c.rng.pick(&[1.0, 1.0, 1e-9, 10.0, 300.0, 800.0, 1e5, 1e12]);
    let off = *c.rng.pick(&[0.0, 0.0, 1000.0, -1000.0, 1e6]);
    let scores: Vec<Vec<f64>> = (0..d.n())
        .map(|_| {
            (0..d.k())
                .map(|_| match c.rng.below(6) {
                    0 => off,
                    1 => off + scale,
                    2 => off - scale,
                    _ => off + scale * c.rng.normal(),
                })
                .collect()
        })
        .collect();
    c.describe(format!("scores {:?}\n{}", scores, d.text()));
    let t = GradBoostTrainingData {
        data: d.set(),
        mutable_labels: scores.clone(),
        size: d.n(),
    };
    let got = guarded(|| calculate_residuals(&t))?;
    if t.mutable_labels != scores || t.data.labels != d.labels {
        return Err("computing residuals altered the training data".into());
    }
    if got.len() != d.n() {
        return Err(format!("{} residuals for {} rows", got.len(), d.n()));
    }
    for i in 0..d.n() {
        let p = softmax(&scores[i]);
        // rounding of the exponent's argument
        let big = scores[i].iter().map(|x| x.abs()).fold(1.0, f64::max);
        let tol = EPS * (64.0 + 4.0 * d.k() as f64 + 4.0 * big);
        for k in 0..d.k() {
            let want = d.labels[i][k] - p[k];
            if got[i].len() != d.k() || !((got[i][k] - want).abs() <= tol) {
                return Err(format!(
                    "row {}: scores {:?}, label {:?}: residuals {:?}, expected {:?} for class {}",
                    i, scores[i], d.labels[i], got[i], want, k
                ));
            }
        }
        let s: f64 = got[i].iter().sum();
        if !(s.abs() <= tol * d.k() as f64) {
            return Err(format!("row {}: the residuals {:?} sum to {:e}", i, got[i], s));
        }
        c.saw("residual vectors of given scores compared", 1);
        if big > 700.0 {
            c.saw("residual vectors with scores beyond the range of exp", 1);
        }
    }
    c.nontrivial(d.hash() ^ scale.to_bits() ^ off.to_bits());
    Ok(())
}

fn sized(c: &mut Case) -> Result<(), String> {
    boost::sized(c, Multi)
}

fn huge(c: &mut Case) -> Result<(), String> {
    boost::huge(c, Multi)
}

fn endless(c: &mut Case) -> Result<(), String> {
    boost::endless(c, Multi)
}

fn main() {
    run(
        "C11",
        "cases: trainings on generated one-hot data with 0 to 300 iterations, learning rates 0 to 1e5, depth limits 0 to unlimited, each iteration replayed from the public trees and the residuals recorded at the split search; and the residual helper on scores from 1e-9 to 1e12; non-trivial: at least two iterations and some tree splits (or given scores compared); distinct by data and settings",
        &["one-hot labels, two or more classes", "a leaf output is judged by output x divisor = (K-1)/K x numerator within rounding of the residuals, so where the divisor is itself rounding noise its value is not determined"],
        vec![
            Stage::new("residuals", residuals, (6_000, 80_000), (20, 150)),
            Stage::new("any", any, (10_000, 150_000), (50, 400)),
            Stage::new("long", long, (400, 6_000), (25, 250)),
            Stage::new("steep", steep, (3_000, 30_000), (20, 150)),
            Stage::new("big", big, (24, 240), (30, 200)),
            Stage::new("sized", sized, (120, 2_000), (25, 150)),
            Stage::new("huge", huge, (24, 240), (30, 150)),
            Stage::new("endless", endless, (16, 240), (25, 150)),
        ],
    )
}
