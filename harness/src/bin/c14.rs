//! C14: ensemble scores equal an independent recomputation.
use common::datasets::MultiTargetDataSet;
use multi_target_grad_boost::boosting_ensemble::common_multi_class_boosting_functions::predict_helper_functions::calculate_accuracy_from_predictions;
use vph::ens::{EKind, Hand, Model, EKINDS};
use vph::gen::{self, transpose, Labels};
use vph::oracle::{close, same_bits, Sum, EPS};
use vph::rng::Rng;
use vph::run::{clip, guarded, main as run, Case, Stage};
use vph::tree::config;

fn size(rng: &mut Rng) -> usize {
    match rng.below(12) {
        0 => 1,
        1 => 2,
        2 => *rng.pick(&[63, 64, 65, 127, 128, 129]),
        3 => *rng.pick(&[255, 256, 257, 300]),
        4 if rng.chance(0.1) => rng.span(5000),
        _ => rng.range(3, 30),
    }
}

/// Labels for a test set: right, nearly right, wrong, not one-hot.
fn labels(rng: &mut Rng, kind: EKind, preds: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let k = preds[0].len();
    let right = *rng.pick(&[0.0, 0.3, 0.8, 1.0]);
    let style = rng.below(4);
    preds
        .iter()
        .map(|p| {
            if kind == EKind::Reg {
                if rng.chance(right * 0.5) {
                    return p.clone();
                }
                return (0..k)
                    .map(|t| match style {
                        0 => rng.normal(),
                        1 => p[t] + rng.normal() * 1e-3,
                        2 => rng.int(-1000, 1000) as f64,
                        _ => {
                            if t == 0 {
                                p[t] + 1.0
                            } else {
                                p[t]
                            }
                        }
                    })
                    .collect();
            }
            if rng.chance(right) {
                return p.clone();
            }
            let mut v = vec![0.0; k];
            match rng.below(8) {
                // the right class and another one
                0 => {
                    v = p.clone();
                    let x = rng.below(k);
                    v[x] = 1.0;
                }
                1 => {}
                2 => {
                    v = p.iter().map(|x| x * (1.0 - EPS)).collect();
                }
                3 => {
                    v = p.iter().map(|x| 1.0 - x).collect();
                }
                4 => {
                    v = p.clone();
                    let x = rng.below(k);
                    v[x] = 0.5;
                }
                _ => {
                    v[rng.below(k)] = 1.0;
                }
            }
            v
        })
        .collect()
}

fn judge(c: &mut Case, kind: EKind, m: &Model, rows: Vec<Vec<f64>>) -> Result<(), String> {
    let k = m.initial_guess().len();
    let single: Vec<Vec<f64>> = guarded(|| rows.iter().map(|r| m.predict(r)).collect())?;
    let lab = labels(&mut c.rng, kind, &single);
    let set = MultiTargetDataSet {
        feature_columns: transpose(&rows, rows[0].len()),
        feature_rows: rows,
        labels: lab,
    };
    let kept = set.clone();
    let all = guarded(|| m.predictions(&set))?;
    if all.len() != set.feature_rows.len() {
        return Err(format!("{} predictions for {} rows", all.len(), set.feature_rows.len()));
    }
    for (i, (a, s)) in all.iter().zip(&single).enumerate() {
        if !same_bits(a, s) {
            return Err(format!("row {} of {} is predicted {:?} in the set and {:?} alone", i, all.len(), a, s));
        }
        c.saw("predictions of a whole set compared with single ones", 1);
    }
    let got = guarded(|| m.score(&set))?;
    if set.feature_rows != kept.feature_rows || set.labels != kept.labels || set.feature_columns != kept.feature_columns {
        return Err("scoring altered the test set".into());
    }
    let n = all.len() as f64;
    if kind == EKind::Reg {
        let mut total = Sum::new();
        for (p, l) in all.iter().zip(&set.labels) {
            let mut e = Sum::new();
            for t in 0..k {
                let d = p[t] - l[t];
                e.add(d * d);
            }
            total.add(e.get() / k as f64);
        }
        let w = total.get() / n;
        if !close(got, w, w * EPS * 2.0 * (n + k as f64 + 16.0)) {
            return Err(format!("mean squared error {:?} on {} rows of {} targets, expected {:?}", got, n, k, w));
        }
        c.saw("mean squared errors compared", 1);
        if w > 0.0 {
            c.saw("mean squared errors above zero", 1);
        }
    } else {
        let hits = all.iter().zip(&set.labels).filter(|(p, l)| p == l).count();
        let w = hits as f64 / n;
        if !close(got, w, 1e-12) {
            return Err(format!("accuracy {:?}, {} of {} predictions equal their label", got, hits, n));
        }
        let direct = guarded(|| calculate_accuracy_from_predictions(&all, &set))?;
        if !close(direct, w, 1e-12) {
            return Err(format!("accuracy {:?} from the predictions, {} of {} equal their label", direct, hits, n));
        }
        c.saw("accuracies compared", 1);
        if hits > 0 && hits < all.len() {
            c.saw("accuracies strictly between 0 and 1", 1);
        }
    }
    let mut h = m.fingerprint()?;
    for l in set.labels.iter().chain(&set.feature_rows) {
        l.iter().for_each(|x| vph::rng::fnv(&mut h, x.to_bits()));
    }
    c.nontrivial(h);
    if c.idx < 2 {
        c.sample(clip(&format!("{:?} on {} rows: score {:?}, first label {:?}, first prediction {:?}", kind, n, got, set.labels[0], all[0]), 500));
    }
    Ok(())
}

fn hand(c: &mut Case) -> Result<(), String> {
    let kind = EKINDS[(c.idx % 3) as usize];
    let h = Hand::any(&mut c.rng, kind);
    let n = size(&mut c.rng);
    let n = if n > 300 && h.shapes.len() > 30 { 300 } else { n };
    let n = if h.k > 100 || h.c > 100 { n.min(40) } else { n };
    let mut rows: Vec<Vec<f64>> = (0..n).map(|_| h.row(&mut c.rng)).collect();
    if n > 1 && c.rng.chance(0.5) {
        for _ in 0..c.rng.range(1, n) {
            let (a, b) = (c.rng.below(n), c.rng.below(n));
            rows[a] = rows[b].clone();
        }
    }
    c.describe(format!(
        "{:?} initial {:?} learning rate {:?} {} trees\nrows {:?}",
        kind, h.model.initial_guess(), h.model.learning_rate(), h.shapes.len(), rows
    ));
    judge(c, kind, &h.model, rows)
}

fn trained(c: &mut Case) -> Result<(), String> {
    let kind = EKINDS[(c.idx % 3) as usize];
    let l = if kind == EKind::Reg { *c.rng.pick(&[Labels::Any, Labels::Whole]) } else { Labels::OneHot };
    let d = gen::any(&mut c.rng, l);
    let levels = *c.rng.pick(&[0, 1, 2, 3, 100]);
    let it = *c.rng.pick(&[0, 1, 2, 5]);
    let lr = *c.rng.pick(&[0.1, 0.5, 1.0]);
    c.describe(format!("{:?} limit {} iterations {} learning rate {}\n{}", kind, levels, it, lr, d.text()));
    let m = guarded(|| Model::train(kind, d.set(), config(d.k(), levels, false), it, lr))?;
    let n = size(&mut c.rng);
    let rows = gen::probes(&mut c.rng, &d, n);
    judge(c, kind, &m, rows)
}

fn big(c: &mut Case) -> Result<(), String> {
    let kind = EKINDS[(c.idx % 3) as usize];
    let h = Hand::any(&mut c.rng, kind);
    let n = if c.rng.chance(0.5) { *c.rng.pick(&[1000, 4097, 20_000, 66_000]) } else { 300 + c.rng.span(30_000) };
    let n = if h.k * h.c > 40 || h.shapes.len() > 30 { 1025 } else { n };
    let rows: Vec<Vec<f64>> = (0..n).map(|_| h.row(&mut c.rng)).collect();
    c.describe(format!("{:?} {} rows, {} trees (re-run by seed)", kind, n, h.shapes.len()));
    judge(c, kind, &h.model, rows)
}

fn main() {
    run(
        "C14",
        "cases: hand-assembled and trained ensembles of the three kinds, test sets of 1 to 66000 rows with labels that are right, wrong, nearly right or not one-hot at all; non-trivial: every case; distinct by model and test set",
        &["finite predictions and labels"],
        vec![
            Stage::new("hand", hand, (20_000, 400_000), (40, 400)),
            Stage::new("trained", trained, (6_000, 80_000), (30, 300)),
            Stage::new("big", big, (48, 800), (20, 200)),
        ],
    )
}
