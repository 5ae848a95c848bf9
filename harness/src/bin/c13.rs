//! C13: an ensemble predicts the initial guess plus the weighted leaf outputs.
use multi_target_grad_boost::boosting_ensemble::common_multi_class_boosting_functions::predict_helper_functions::get_binary_prediction;
use vph::ens::{judge_model as judge, EKind, Hand, Model, EKINDS};
use vph::gen::{self, Labels};
use vph::oracle::same_bits;
use vph::run::{clip, guarded, main as run, Case, Stage};
use vph::tree::config;

fn hand(c: &mut Case) -> Result<(), String> {
    let kind = EKINDS[(c.idx % 3) as usize];
    let h = Hand::any(&mut c.rng, kind);
    let m = c.rng.range(2, 16);
    let rows: Vec<Vec<f64>> = (0..m).map(|_| h.row(&mut c.rng)).collect();
    let trees = h.model.trees()?;
    c.describe(format!(
        "{:?} initial {:?} learning rate {:?}\nrows {:?}\n{}",
        kind, h.model.initial_guess(), h.model.learning_rate(), rows,
        trees.iter().map(|t| t.text()).collect::<Vec<_>>().join("--\n")
    ));
    judge(c, kind, &h.model, &rows, h.exact)?;
    if trees.iter().any(|t| t.leaves() > 1) {
        c.nontrivial(h.model.fingerprint()?);
    }
    if c.idx < 2 {
        c.sample(clip(
            &format!(
                "{:?}: initial {:?}, learning rate {:?}, {} trees; row {:?} => {:?}",
                kind, h.model.initial_guess(), h.model.learning_rate(), trees.len(), rows[0], h.model.predict(&rows[0])
            ),
            600,
        ));
    }
    Ok(())
}

fn trained(c: &mut Case) -> Result<(), String> {
    let kind = EKINDS[(c.idx % 3) as usize];
    let l = if kind == EKind::Reg { *c.rng.pick(&[Labels::Any, Labels::Whole]) } else { Labels::OneHot };
    let d = gen::any(&mut c.rng, l);
    let levels = *c.rng.pick(&[0, 1, 2, 3, 5, 100]);
    let it = *c.rng.pick(&[0, 1, 2, 5, 12]);
    let lr = *c.rng.pick(&[0.1, 0.5, 1.0, 0.03]);
    let threads = c.rng.chance(0.2);
    c.describe(format!("{:?} limit {} threads {} iterations {} learning rate {}\n{}", kind, levels, threads, it, lr, d.text()));
    let m = guarded(|| Model::train(kind, d.set(), config(d.k(), levels, threads), it, lr))?;
    let rows = gen::probes(&mut c.rng, &d, 20);
    judge(c, kind, &m, &rows, false)?;
    if m.trees()?.iter().any(|t| t.leaves() > 1) {
        c.nontrivial(m.fingerprint()?);
    }
    Ok(())
}

/// The choice of the class alone, on any scores.
fn choice(c: &mut Case) -> Result<(), String> {
    let k = if c.rng.chance(0.05) { *c.rng.pick(&[255, 256, 257, 300, 1000]) } else { c.rng.range(1, 12) };
    let palette: Vec<f64> = match c.rng.below(6) {
        0 => vec![-1.0, -2.0, -3.0],
        1 => vec![0.0, -0.0],
        2 => vec![1.0, 2.0, 3.0],
        3 => vec![1.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0],
        4 => vec![-1e300, 1e-300, -1e-300, 1e300, f64::MIN, f64::MAX],
        _ => (0..20).map(|_| c.rng.normal()).collect(),
    };
    let s: Vec<f64> = (0..k).map(|_| *c.rng.pick(&palette)).collect();
    c.describe(format!("{:?}", s));
    let kept = s.clone();
    let got = guarded(|| get_binary_prediction(&s))?;
    let top = s.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let first = s.iter().position(|x| *x == top).unwrap();
    let mut w = vec![0.0; k];
    w[first] = 1.0;
    if got != w || !same_bits(&s, &kept) {
        return Err(format!("scores {:?} give {:?}, the first largest is class {}", s, got, first));
    }
    c.saw("choices of a class compared", 1);
    if s.iter().filter(|x| **x == top).count() > 1 {
        c.saw("choices among tied classes", 1);
    }
    let mut h = 1;
    s.iter().for_each(|x| vph::rng::fnv(&mut h, x.to_bits()));
    c.nontrivial(h);
    Ok(())
}

fn main() {
    run(
        "C13",
        "cases: ensembles assembled by hand (0 to 1200 trees of any shape, rows on and next to thresholds, 1 to 1030 targets; half of them with dyadic values so that sums are exact and ties are real) and trained ensembles, each predicted row by row, then again in another order; and score vectors given to the class choice; non-trivial: some tree has a split; distinct by model",
        &["the prediction may differ from the exact sum by 2 (trees + 6) eps times the sum of the magnitudes added; without dyadic values a class within that of the largest is accepted"],
        vec![
            Stage::new("hand", hand, (30_000, 600_000), (40, 400)),
            Stage::new("trained", trained, (6_000, 80_000), (30, 300)),
            Stage::new("choice", choice, (100_000, 1_000_000), (10, 60)),
        ],
    )
}
