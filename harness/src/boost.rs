//! Shared stages of the three boosting checks (C10, C11, C12).

use crate::ens::EKind;
use crate::gen::{self, Data, Labels};
use crate::replay::{judge, train, Setting};
use crate::run::Case;

pub fn one(c: &mut Case, kind: EKind, d: &Data, levels: u32, threads: bool, it: u32, lr: f64) -> Result<(), String> {
    c.describe(format!(
        "{:?} limit {} threads {} iterations {} learning rate {:?}\n{}",
        kind, levels, threads, it, lr, d.text()
    ));
    let run = train(kind, d, levels, threads, it, lr)?;
    let s = Setting {
        levels,
        iterations: it,
        lr,
        growth: true,
    };
    let seen = judge(kind, d, &run, &s)
        .map_err(|e| format!("{:?} (limit {}, threads {}, learning rate {:?}): {}", kind, levels, threads, lr, e))?;
    c.saw("ensembles replayed", 1);
    c.saw("iterations judged", seen.iterations);
    c.saw("iterations whose residuals were recorded at the split search", seen.recorded);
    c.saw("residual vectors compared", seen.residual_vectors);
    c.saw("leaf outputs compared", seen.leaves);
    c.saw("row updates replayed", seen.rows);
    c.saw("splits verified best for the residuals", seen.grown.splits);
    c.saw("leaves verified to have no useful split", seen.grown.stops_gain);
    if seen.split_iterations > 0 && it > 1 {
        c.nontrivial(d.hash() ^ (it as u64) << 20 ^ levels as u64 ^ lr.to_bits());
    }
    if c.idx < 2 {
        c.sample(format!(
            "{} limit {} iterations {} learning rate {:?} => initial guess {:?}, first tree {}",
            d.brief(), levels, it, lr, run.model.initial_guess(),
            run.trees.first().map(|t| t.text().replace('\n', "; ")).unwrap_or_default()
        ));
    }
    Ok(())
}

pub fn labels(c: &mut Case, kind: EKind) -> Labels {
    if kind == EKind::Reg {
        *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot])
    } else {
        Labels::OneHot
    }
}

pub fn setting(c: &mut Case) -> (u32, bool, u32, f64) {
    let levels = *c.rng.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 6, 100]);
    let threads = c.rng.chance(0.35);
    let it = *c.rng.pick(&[0, 1, 1, 2, 3, 4, 5, 8, 12]);
    let lr = *c.rng.pick(&[0.1, 0.1, 0.3, 0.5, 1.0, 1.0, 0.01, 1.7, 0.05, 0.0, 1.0 / 3.0]);
    (levels, threads, it, lr)
}

pub fn any(c: &mut Case, kind: EKind) -> Result<(), String> {
    let want = labels(c, kind);
    let d = gen::any(&mut c.rng, want);
    let (levels, threads, it, lr) = setting(c);
    one(c, kind, &d, levels, threads, it, lr)
}

/// Long runs on small data, far beyond the perfect fit.
pub fn long(c: &mut Case, kind: EKind) -> Result<(), String> {
    let want = labels(c, kind);
    let d = gen::small(&mut c.rng, want);
    let levels = *c.rng.pick(&[1, 2, 3]);
    let it = *c.rng.pick(&[60, 100, 257, 300]);
    let lr = *c.rng.pick(&[0.1, 0.3, 1.0, 0.5]);
    one(c, kind, &d, levels, false, it, lr)
}

pub fn big(c: &mut Case, kind: EKind) -> Result<(), String> {
    let want = labels(c, kind);
    let shapes = [(257, 3, 3), (1025, 4, 2), (3000, 2, 3), (40, 300, 2), (60, 3, 30), (40, 2, 260), (5000, 2, 2), (300, 2, 40)];
    let (n, cc, k) = shapes[(c.idx % shapes.len() as u64) as usize];
    let d = gen::data(&mut c.rng, n, cc, k, want);
    let lr = *c.rng.pick(&[0.1, 0.5, 1.0]);
    let levels = *c.rng.pick(&[2, 3, 5]);
    let threads = c.rng.chance(0.5);
    one(c, kind, &d, levels, threads, 3, lr)
}

/// Rows, features and classes over all orders of magnitude.
pub fn sized(c: &mut Case, kind: EKind) -> Result<(), String> {
    let want = labels(c, kind);
    let d = gen::sized(&mut c.rng, 150_000, want);
    let lr = *c.rng.pick(&[0.1, 0.5, 1.0]);
    let levels = c.rng.range(1, 4) as u32;
    let threads = c.rng.chance(0.5);
    one(c, kind, &d, levels, threads, 3, lr)
}

/// Thousands of iterations.
pub fn endless(c: &mut Case, kind: EKind) -> Result<(), String> {
    let (n, cc) = (c.rng.range(2, 9), c.rng.range(1, 2));
    let k = if kind == EKind::Reg { c.rng.range(1, 2) } else { c.rng.range(2, 3) };
    let want = labels(c, kind);
    let d = gen::data(&mut c.rng, n, cc, k, want);
    let it = *c.rng.pick(&[500, 999, 1001, 1025, 2049, 4097, 5001, 10_001]);
    let lr = *c.rng.pick(&[0.1, 0.01, 1.0, 0.5]);
    let levels = c.idx as u32 % 3;
    one(c, kind, &d, levels, false, it, lr)
}

/// Very many rows, features or classes.
pub fn huge(c: &mut Case, kind: EKind) -> Result<(), String> {
    let want = labels(c, kind);
    let w = c.idx;
    let d = gen::huge(&mut c.rng, w, want);
    let lr = *c.rng.pick(&[0.1, 0.5, 1.0]);
    let levels = c.rng.range(1, 3) as u32;
    let threads = c.rng.chance(0.5);
    one(c, kind, &d, levels, threads, 2, lr)
}

/// Large steps: scores of very large magnitude.
pub fn steep(c: &mut Case, kind: EKind) -> Result<(), String> {
    let want = labels(c, kind);
    let d = gen::any(&mut c.rng, want);
    let levels = *c.rng.pick(&[0, 1, 2, 3]);
    let it = *c.rng.pick(&[2, 3, 5]);
    let lr = if kind == EKind::Reg {
        *c.rng.pick(&[1.9, 2.5, 10.0])
    } else {
        *c.rng.pick(&[5.0, 50.0, 400.0, 1000.0, 1e5])
    };
    one(c, kind, &d, levels, false, it, lr)
}
