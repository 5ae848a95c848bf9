//! C23: leaf-output formulas hold for every set of residuals.
use common::datasets::MultiTargetDataSet;
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::{
    calculate_leaf_output_multi_class_loss, calculate_leaf_output_squared_loss, LeafOutputCalculator, LeafOutputType,
};
use vph::gen::transpose;
use vph::oracle::{close, mean_of, same_bits, Sum, EPS};
use vph::replay::softmax;
use vph::rng::{fnv, Rng};
use vph::run::{guarded, main as run, Case, Stage};

fn set(rng: &mut Rng, labels: Vec<Vec<f64>>) -> MultiTargetDataSet {
    let rows: Vec<Vec<f64>> = labels.iter().map(|_| vec![rng.normal(), 1.0]).collect();
    MultiTargetDataSet {
        feature_columns: transpose(&rows, 2),
        feature_rows: rows,
        labels,
    }
}

fn unchanged(a: &MultiTargetDataSet, b: &MultiTargetDataSet) -> Result<(), String> {
    let same = |x: &Vec<Vec<f64>>, y: &Vec<Vec<f64>>| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_bits(p, q));
    if same(&a.labels, &b.labels) && same(&a.feature_rows, &b.feature_rows) && same(&a.feature_columns, &b.feature_columns) {
        Ok(())
    } else {
        Err("computing a leaf output altered the leaf's data".into())
    }
}

const LONG: [usize; 8] = [65_535, 65_536, 65_537, 70_000, 32_769, 100_000, 131_073, 200_000];

fn rows(c: &mut Case) -> usize {
    if c.stage.ends_with("long") {
        return LONG[(c.idx % 8) as usize];
    }
    let rng = &mut c.rng;
    match rng.below(10) {
        0 | 1 => 1,
        2 => 2,
        3 => *rng.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 500]),
        4 if rng.chance(0.1) => rng.span(20_000),
        _ => rng.range(2, 30),
    }
}

fn finish(c: &mut Case, d: &MultiTargetDataSet, tag: u64) {
    let mut h = tag;
    d.labels.iter().flatten().for_each(|x| fnv(&mut h, x.to_bits()));
    c.nontrivial(h);
}

fn squared(c: &mut Case) -> Result<(), String> {
    let n = rows(c);
    let k = if c.rng.chance(0.05) { c.rng.span(600).max(2) } else { c.rng.range(1, 8) };
    let k = if n > 500 { k.min(4) } else { k };
    let kind = c.rng.below(5);
    let labels: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            (0..k)
                .map(|t| match kind {
                    0 => c.rng.int(-9, 9) as f64,
                    1 => c.rng.normal(),
                    2 => c.rng.normal() * 10f64.powi(c.rng.int(-12, 12) as i32),
                    3 => 1e8 + c.rng.normal() + t as f64,
                    _ => if i % 2 == 0 { 1e10 } else { -1e10 + t as f64 },
                })
                .collect()
        })
        .collect();
    let mut d = set(&mut c.rng, labels);
    c.describe(format!("{:?}", d.labels));
    let kept = d.clone();
    let calc = LeafOutputCalculator::new(LeafOutputType::Regression);
    for turn in 0..3 {
        let got = match turn {
            0 => guarded(|| calculate_leaf_output_squared_loss(&d))?,
            1 => guarded(|| (calc.calculate_leaf_output)(&d))?,
            _ => {
                c.rng.shuffle(&mut d.labels);
                let got = guarded(|| calculate_leaf_output_squared_loss(&d))?;
                d.labels = kept.labels.clone();
                got
            }
        };
        unchanged(&d, &kept)?;
        let mean = mean_of(d.labels.iter(), k);
        for t in 0..k {
            let mag: f64 = d.labels.iter().map(|l| l[t].abs()).sum();
            if got.len() != k || !close(got[t], mean[t], 2.0 * (n as f64 + 4.0) * EPS * mag / n as f64) {
                return Err(format!("the leaf output of {} residual vectors is {:?}, their mean {:?}", n, got, mean));
            }
            c.saw("regression leaf outputs compared", 1);
        }
    }
    finish(c, &d, 1);
    Ok(())
}

fn multi(c: &mut Case) -> Result<(), String> {
    let n = rows(c);
    let k = if c.rng.chance(0.05) { c.rng.span(600).max(2) } else { c.rng.range(2, 9) };
    let k = if n > 500 { k.min(4) } else { k };
    let kind = c.rng.below(8);
    let labels: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let truth = c.rng.below(k);
            let onehot = |t: usize| (t == truth) as u8 as f64;
            match kind {
                // softmax residuals of moderate and of large scores
                0 | 1 => {
                    let s = if kind == 0 { 1.0 } else { 30.0 };
                    let sc: Vec<f64> = (0..k).map(|_| c.rng.normal() * s).collect();
                    let p = softmax(&sc);
                    (0..k).map(|t| onehot(t) - p[t]).collect()
                }
                // saturated: exactly 0, 1 and -1
                2 => (0..k).map(|_| *c.rng.pick(&[0.0, -0.0, 1.0, -1.0])).collect(),
                // some saturated, some not
                3 => (0..k)
                    .map(|t| if (i + t) % 3 == 0 { 0.25 } else { *c.rng.pick(&[0.0, 1.0, -1.0]) })
                    .collect(),
                // a hair from saturation
                4 => (0..k)
                    .map(|_| {
                        let e = *c.rng.pick(&[EPS, EPS / 2.0, 1e-15, 1e-12, 1e-8]);
                        *c.rng.pick(&[1.0 - e, -1.0 + e, e, -e])
                    })
                    .collect(),
                // fitted: tiny residuals
                5 => (0..k)
                    .map(|_| c.rng.normal() * 10f64.powi(-(c.rng.int(5, 120) as i32)))
                    .map(|x: f64| x.max(-1.0).min(1.0))
                    .collect(),
                6 => (0..k).map(|_| c.rng.unit() * 2.0 - 1.0).collect(),
                _ => (0..k).map(|_| c.rng.int(-4, 4) as f64 / 4.0).collect(),
            }
        })
        .collect();
    let mut d = set(&mut c.rng, labels);
    c.describe(format!("{:?}", d.labels));
    let kept = d.clone();
    let calc = LeafOutputCalculator::new(LeafOutputType::MultiClassClassification);
    let kf = k as f64;
    for turn in 0..3 {
        let got = match turn {
            0 => guarded(|| calculate_leaf_output_multi_class_loss(&d))?,
            1 => guarded(|| (calc.calculate_leaf_output)(&d))?,
            _ => {
                c.rng.shuffle(&mut d.labels);
                let got = guarded(|| calculate_leaf_output_multi_class_loss(&d))?;
                d.labels = kept.labels.clone();
                got
            }
        };
        unchanged(&d, &kept)?;
        if got.len() != k {
            return Err(format!("{} entries for {} classes", got.len(), k));
        }
        for t in 0..k {
            let mut num = Sum::new();
            let mut den = Sum::new();
            let mut mag = 0.0;
            let mut slip = 0.0;
            let mut saturated = true;
            for l in &d.labels {
                let a = l[t].abs();
                num.add(l[t]);
                den.add(a * (1.0 - a));
                mag += a;
                // what rounding may do to |r|(1-|r|), however it is written
                slip += 8.0 * EPS * if a < 0.5 { a } else { 1.0 };
                saturated &= a == 0.0 || a == 1.0;
            }
            let (num, den) = (num.get(), den.get());
            slip += (n as f64 + 4.0) * EPS * den;
            let out = got[t];
            let say = |why: &str| {
                Err(format!(
                    "class {} of {}, {} rows: the output is {:?}, expected {:?} ({:e} / {:e}){}",
                    t, k, n, out, (kf - 1.0) / kf * num / den, num, den, why
                ))
            };
            if saturated {
                if out != 0.0 {
                    return say(": the divisor vanishes, the output should be zero");
                }
                c.saw("outputs with a vanishing divisor compared", 1);
                continue;
            }
            if !out.is_finite() {
                return say(": not finite");
            }
            if out == 0.0 && den <= slip + 1e-140 {
                continue;
            }
            let want = (kf - 1.0) / kf * num;
            let tol = out.abs() * slip * 2.0 + 4.0 * (n as f64 + 8.0) * EPS * (mag + out.abs() * den);
            if !((out * den - want).abs() <= tol) {
                return say("");
            }
            c.saw("multi-class leaf outputs compared", 1);
        }
    }
    finish(c, &d, 2 + kind as u64);
    if c.idx < 2 {
        c.sample(format!("{} residual vectors such as {:?} => {:?}", n, d.labels[0], calculate_leaf_output_multi_class_loss(&d)));
    }
    Ok(())
}

fn main() {
    run(
        "C23",
        "cases: sets of 1 to 200000 residual vectors of 1 to 600 entries: softmax residuals, residuals saturated at exactly 0 and +-1 or a hair from it, tiny residuals of a perfect fit, random ones; each set in its order and shuffled; non-trivial: every case; distinct by residuals",
        &["multi-class residuals lie between -1 and 1", "the multi-class output is judged by output x divisor = (K-1)/K x sum within rounding of |r|(1-|r|)"],
        vec![
            Stage::new("squared", squared, (40_000, 800_000), (15, 150)),
            Stage::new("multi", multi, (80_000, 1_500_000), (25, 250)),
            Stage::new("squared-long", squared, (4, 40), (15, 60)),
            Stage::new("multi-long", multi, (4, 60), (15, 80)),
        ],
    )
}
