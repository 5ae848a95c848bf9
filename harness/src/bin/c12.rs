//! C12: approximate boosting keeps the leading class and balances the others.
use common::datasets::MultiTargetDataSet;
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::{
    LeafOutputCalculator, LeafOutputType,
};
use multi_target_decision_tree::grad_boost_decision_trees::AMGBoostTree;
use vph::boost;
use vph::ens::{judge_model, EKind::Amg, Hand, Model};
use vph::gen::{self, Labels};
use vph::run::{guarded, main as run, Case, Stage};
use vph::tree::{config, view, LeafView};

fn any(c: &mut Case) -> Result<(), String> {
    boost::any(c, Amg)
}
fn long(c: &mut Case) -> Result<(), String> {
    boost::long(c, Amg)
}
fn big(c: &mut Case) -> Result<(), String> {
    boost::big(c, Amg)
}
fn steep(c: &mut Case) -> Result<(), String> {
    boost::steep(c, Amg)
}

/// The label of the leaf's first row stands in for the leaf output, so that
/// exact ties and any sign can be fed to the choice of the leading class.
fn first_label(d: &MultiTargetDataSet) -> Vec<f64> {
    d.labels[0].clone()
}

fn leading(c: &mut Case) -> Result<(), String> {
    let mut d = gen::any(&mut c.rng, Labels::Whole);
    let k = if c.rng.chance(0.1) { *c.rng.pick(&[255, 256, 257, 300]) } else { c.rng.range(1, 8) };
    let palette: Vec<f64> = match c.rng.below(4) {
        0 => vec![-1.0, -2.0, -3.0],
        1 => vec![0.0, -0.0, 0.0],
        2 => vec![1.0, 2.0, 2.0, 3.0, -5.0],
        _ => vec![1e-300, -1e300, 5.0, 5.000000000000001, 1e10],
    };
    for l in d.labels.iter_mut() {
        *l = (0..k).map(|_| *c.rng.pick(&palette)).collect();
    }
    let levels = *c.rng.pick(&[0, 1, 2, 4]);
    let threads = c.rng.chance(0.5);
    c.describe(format!("limit {} threads {}\n{}", levels, threads, d.text()));
    let mut calc = LeafOutputCalculator::new(LeafOutputType::MultiClassClassification);
    calc.calculate_leaf_output = first_label;
    // keep the split search away from overflow
    let small = vph::gen::Data {
        labels: d.labels.iter().map(|l| l.iter().map(|x| if x.abs() > 1e100 { -1e100 } else { *x }).collect()).collect(),
        ..d.clone()
    };
    let set = small.set();
    let t = guarded(|| AMGBoostTree::new(set, config(k, levels, threads), calc))?;
    let t = view(&t.root)?;
    t.route(&d.rows, (0..d.n()).collect(), &mut |leaf, idx| {
        if idx.is_empty() {
            return Err("a leaf that no training row reaches".into());
        }
        let out = &small.labels[idx[0]];
        let top = out.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let first = out.iter().position(|x| *x == top).unwrap_or(0);
        match leaf {
            LeafView::Amg(v, cl) if *v == out[first] && *cl == first => Ok(()),
            l => Err(format!("leaf output {:?} is kept as {:?}, expected {:?} for class {}", out, l, top, first)),
        }
    })?;
    c.saw("leading classes compared", t.leaves() as u64);
    c.nontrivial(d.hash());
    Ok(())
}

/// Predictions against the sum of what each reached leaf contributes, for
/// ensembles assembled by hand (leaf values of any sign) and trained ones.
fn predicting(c: &mut Case) -> Result<(), String> {
    let (m, rows, exact) = if c.idx % 4 != 3 {
        let h = Hand::any(&mut c.rng, Amg);
        let n = c.rng.range(2, 12);
        let rows: Vec<Vec<f64>> = (0..n).map(|_| h.row(&mut c.rng)).collect();
        (h.model, rows, h.exact)
    } else {
        let d = gen::any(&mut c.rng, Labels::OneHot);
        let levels = *c.rng.pick(&[0, 1, 2, 3, 5]);
        let it = *c.rng.pick(&[1, 2, 5, 12]);
        let lr = *c.rng.pick(&[0.1, 0.5, 1.0, 3.0]);
        c.describe(format!("limit {} iterations {} learning rate {}\n{}", levels, it, lr, d.text()));
        let m = guarded(|| Model::train(Amg, d.set(), config(d.k(), levels, false), it, lr))?;
        let rows = gen::probes(&mut c.rng, &d, 12);
        (m, rows, false)
    };
    let trees = m.trees()?;
    if c.idx % 4 != 3 {
        c.describe(format!(
            "initial {:?} learning rate {:?}\nrows {:?}\n{}",
            m.initial_guess(), m.learning_rate(), rows,
            trees.iter().map(|t| t.text()).collect::<Vec<_>>().join("--\n")
        ));
    }
    judge_model(c, Amg, &m, &rows, exact)?;
    if trees.iter().any(|t| t.leaves() > 1) {
        c.nontrivial(m.fingerprint()?);
    }
    Ok(())
}

fn sized(c: &mut Case) -> Result<(), String> {
    boost::sized(c, Amg)
}

fn huge(c: &mut Case) -> Result<(), String> {
    boost::huge(c, Amg)
}

fn endless(c: &mut Case) -> Result<(), String> {
    boost::endless(c, Amg)
}

fn main() {
    run(
        "C12",
        "cases: trainings on generated one-hot data with 0 to 300 iterations, learning rates 0 to 1e5, depth limits 0 to unlimited, each iteration replayed from the public trees and the residuals recorded at the split search; and single trees whose leaf output is given (exact ties, all negative, both zeros); and predictions of hand-assembled and trained ensembles recomputed from their leaves; non-trivial: at least two iterations and some tree splits (or given outputs compared); distinct by data and settings",
        &["one-hot labels, two or more classes", "where a divisor of the leaf formula is rounding noise the component is not determined"],
        vec![
            Stage::new("leading", leading, (15_000, 150_000), (20, 150)),
            Stage::new("predicting", predicting, (8_000, 80_000), (20, 100)),
            Stage::new("any", any, (10_000, 150_000), (50, 400)),
            Stage::new("long", long, (400, 6_000), (25, 250)),
            Stage::new("steep", steep, (3_000, 30_000), (20, 150)),
            Stage::new("big", big, (24, 240), (30, 200)),
            Stage::new("sized", sized, (120, 2_000), (25, 150)),
            Stage::new("huge", huge, (24, 240), (30, 150)),
            Stage::new("endless", endless, (16, 240), (25, 150)),
        ],
    )
}
