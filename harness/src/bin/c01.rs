//! C01: the split search returns a best split and its true gain.
use vph::gen::{self, Data, Labels};
use vph::oracle::Node;
use vph::run::{guarded, main as run, Case, Stage};
use vph::tree::find_best_split;

fn judge(c: &mut Case, d: &Data) -> Result<(), String> {
    c.describe(d.text());
    let set = d.set();
    let k = d.k();
    let r = guarded(|| find_best_split(&set, k as u32))?;
    if set.feature_rows != d.rows || set.labels != d.labels || set.feature_columns != d.columns() {
        return Err("the split search altered the data".into());
    }
    let cols = d.columns();
    let rows: Vec<usize> = (0..d.n()).collect();
    let n = Node::new(&cols, &d.labels, &rows, 0.0);
    let gain = r.gain;
    c.saw("split searches", 1);
    if !gain.is_finite() || gain < 0.0 {
        return Err(format!("reported gain {:?}", gain));
    }
    let best = n.best();
    let bg = best.map(|b| b.gain).unwrap_or(0.0);
    if gain == 0.0 {
        c.saw("searches reporting no gain", 1);
        if bg > n.tol {
            let b = best.unwrap();
            return Err(format!(
                "reported no gain although feature {} >= {:?} reduces the variance by {:e} (variance {:e}, allowance {:e})",
                b.col, b.value, bg, n.var, n.tol
            ));
        }
        if n.pure {
            c.saw("pure nodes", 1);
        }
    } else {
        if n.pure && d.whole {
            return Err(format!("reported gain {:e} on rows that all carry {:?}", gain, d.labels[0]));
        }
        let (g, b) = n.judge_split(r.question.column as usize, r.question.value)?;
        if (gain - g).abs() > n.tol {
            return Err(format!(
                "reported gain {:e} for feature {} >= {:?}, true gain {:e} (best {:e}, variance {:e}, allowance {:e})",
                gain, r.question.column, r.question.value, g, b, n.var, n.tol
            ));
        }
        c.saw("splits with verified optimum and gain", 1);
        if bg > n.tol {
            let mut cands = 0u64;
            let mut dup = false;
            for col in 0..cols.len() {
                let mut m = 0u64;
                n.scan(col, |_| m += 1);
                if (m as usize) + 1 < d.n() {
                    dup = true;
                }
                cands += m;
            }
            c.saw("candidate splits enumerated by the oracle", cands);
            if dup {
                c.saw("searches with repeated feature values", 1);
            }
            if cands > 1 {
                c.nontrivial(d.hash());
            }
        }
    }
    if c.idx < 3 {
        c.sample(format!(
            "{} => feature {} >= {:?}, gain {:?}, oracle best {:?}",
            d.brief(),
            r.question.column,
            r.question.value,
            gain,
            best
        ));
    }
    Ok(())
}

fn small(c: &mut Case) -> Result<(), String> {
    for _ in 0..20 {
        let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot, Labels::Any]);
        let d = gen::small(&mut c.rng, want);
        judge(c, &d)?;
    }
    Ok(())
}
fn any(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot, Labels::Any]);
    let d = gen::any(&mut c.rng, want);
    judge(c, &d)
}
fn big(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let w = c.idx;
    let d = gen::big(&mut c.rng, w, want);
    judge(c, &d)
}
/// One informative candidate hidden at a chosen place among useless ones.
fn needle(c: &mut Case) -> Result<(), String> {
    let d = gen::needle(&mut c.rng);
    judge(c, &d)
}
/// The best feature among many nearly as good.
fn decoys(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let (n, cc, k) = (c.rng.range(4, 500), c.rng.range(2, 12), c.rng.range(1, 4));
    let d = gen::decoys(&mut c.rng, n, cc, k, want);
    judge(c, &d)
}
/// The subsets a real tree asks about: recursive bisection.
fn nested(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::any(&mut c.rng, want);
    let mut todo = vec![d];
    let mut done = 0;
    while let Some(d) = todo.pop() {
        judge(c, &d)?;
        done += 1;
        if done > 30 || d.n() < 2 {
            continue;
        }
        let set = d.set();
        let r = guarded(|| find_best_split(&set, d.k() as u32))?;
        if r.gain == 0.0 {
            continue;
        }
        for side in [true, false] {
            let keep: Vec<usize> = (0..d.n())
                .filter(|i| (d.rows[*i][r.question.column as usize] >= r.question.value) == side)
                .collect();
            if !keep.is_empty() {
                todo.push(Data {
                    rows: keep.iter().map(|i| d.rows[*i].clone()).collect(),
                    labels: keep.iter().map(|i| d.labels[*i].clone()).collect(),
                    whole: d.whole,
                    note: d.note.clone(),
                });
            }
        }
    }
    Ok(())
}

/// Rows, features and targets over all orders of magnitude.
fn sized(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::sized(&mut c.rng, 1_000_000, want);
    judge(c, &d)
}

/// Very many rows, features or targets.
fn huge(c: &mut Case) -> Result<(), String> {
    let w = c.idx;
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::huge(&mut c.rng, w, want);
    judge(c, &d)
}

fn main() {
    run(
        "C01",
        "cases: generated data sets (16 feature shapes x 13 label shapes, copies and mirrors of columns, repeated rows, sizes 1..70000 rows, 1..70000 features, 1..260 targets); non-trivial: some split reduces the variance beyond rounding and at least two candidates exist; distinct by the bits of the data",
        &[
            "finite feature values and labels with |label| <= 1e13",
            "rounding allowance 32 n^1.5 eps times the mean squared label (labels are not centred by the code)",
        ],
        vec![
            Stage::new("small", small, (3000, 60_000), (30, 200)),
            Stage::new("any", any, (12_000, 250_000), (30, 250)),
            Stage::new("needle", needle, (6_000, 100_000), (20, 150)),
            Stage::new("decoys", decoys, (6_000, 100_000), (20, 150)),
            Stage::new("nested", nested, (600, 12_000), (20, 100)),
            Stage::new("big", big, (24, 240), (30, 150)),
            Stage::new("sized", sized, (300, 4000), (25, 150)),
            Stage::new("huge", huge, (24, 240), (30, 150)),
        ],
    )
}
