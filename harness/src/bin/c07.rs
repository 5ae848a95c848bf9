//! C07: the partition primitives are lossless, ordered and exact.
use common::data_processor::{create_dataset_with_sorted_features, new_partition};
use common::datasets::{MultiTargetDataSet, MultiTargetDataSetSortedFeatures};
use common::question::Question;
use multi_target_decision_tree::data_partitioner::partition;
use vph::gen::{self, next_down, next_up, Data, Labels};
use vph::oracle::same_bits;
use vph::run::{guarded, main as run, Case, Stage};

/// A feature, and a split value below, above, between and on observed values.
fn question(c: &mut Case, d: &Data) -> (usize, f64) {
    let j = match c.rng.below(4) {
        0 => 0,
        1 => d.c() - 1,
        _ => c.rng.below(d.c()),
    };
    let x = d.rows[c.rng.below(d.n())][j];
    let lo = d.rows.iter().map(|r| r[j]).fold(f64::INFINITY, f64::min);
    let hi = d.rows.iter().map(|r| r[j]).fold(f64::NEG_INFINITY, f64::max);
    let v = match c.rng.below(12) {
        0 => next_up(x),
        1 => next_down(x),
        2 => lo,
        3 => hi,
        4 => next_up(hi),
        5 => next_down(lo),
        6 => 0.0,
        7 => -x,
        8 => x / 2.0 + d.rows[c.rng.below(d.n())][j] / 2.0,
        9 => return (j, *c.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN])),
        _ => x,
    };
    (j, if v.is_finite() { v } else { x })
}

fn side(
    what: &str,
    got: &MultiTargetDataSet,
    rows: &[Vec<f64>],
    labels: &[Vec<f64>],
    want: &[usize],
) -> Result<(), String> {
    if got.feature_rows.len() != want.len() || got.labels.len() != want.len() {
        return Err(format!(
            "{} side: {} rows and {} labels, expected {}",
            what,
            got.feature_rows.len(),
            got.labels.len(),
            want.len()
        ));
    }
    for (p, i) in want.iter().enumerate() {
        if !same_bits(&got.feature_rows[p], &rows[*i]) {
            return Err(format!("{} side, position {}: row {:?}, expected {:?}", what, p, got.feature_rows[p], rows[*i]));
        }
        if !same_bits(&got.labels[p], &labels[*i]) {
            return Err(format!("{} side, position {}: label {:?}, expected {:?}", what, p, got.labels[p], labels[*i]));
        }
    }
    if want.is_empty() {
        if got.feature_columns.iter().any(|c| !c.is_empty()) {
            return Err(format!("{} side: columns without rows", what));
        }
        return Ok(());
    }
    let cc = rows[0].len();
    if got.feature_columns.len() != cc {
        return Err(format!("{} side: {} columns of {}", what, got.feature_columns.len(), cc));
    }
    for j in 0..cc {
        let col = &got.feature_columns[j];
        if col.len() != want.len() || want.iter().enumerate().any(|(p, i)| col[p].to_bits() != rows[*i][j].to_bits()) {
            return Err(format!("{} side: column {} is not the transpose of its rows", what, j));
        }
    }
    Ok(())
}

fn plain(c: &mut Case, d: &Data, times: usize) -> Result<(), String> {
    let mut idx: Vec<usize> = (0..d.n()).collect();
    let mut set = d.set();
    for step in 0..times {
        let (j, v) = question(c, d);
        c.describe(format!("split {} of feature {} at {:?}\n{}", step, j, v, d.text()));
        let q = Question::new(j as u32, v);
        let (f, t) = guarded(|| partition(&set, &q))
            .map_err(|e| format!("partition at feature {} >= {:?}: {}", j, v, e))?;
        if q.column as usize != j || q.value.to_bits() != v.to_bits() {
            return Err("the question was altered".into());
        }
        let (yes, no): (Vec<usize>, Vec<usize>) = idx.iter().partition(|i| d.rows[**i][j] >= v);
        let ctx = |e: String| format!("partition at feature {} >= {:?}: {}", j, v, e);
        side("true", &t, &d.rows, &d.labels, &yes).map_err(ctx)?;
        side("false", &f, &d.rows, &d.labels, &no).map_err(ctx)?;
        c.saw("plain partitions checked", 1);
        c.saw("rows placed", idx.len() as u64);
        if yes.is_empty() || no.is_empty() {
            c.saw("one-sided partitions", 1);
        } else {
            c.nontrivial(d.hash() ^ v.to_bits() ^ j as u64);
        }
        // go on with one side
        let take = if yes.is_empty() || (!no.is_empty() && c.rng.chance(0.5)) { false } else { true };
        if take {
            set = t;
            idx = yes;
        } else {
            set = f;
            idx = no;
        }
    }
    Ok(())
}

fn sorted_side(
    what: &str,
    got: &MultiTargetDataSetSortedFeatures,
    parent: &MultiTargetDataSetSortedFeatures,
    d: &Data,
    all: &[&Vec<f64>],
    want: &[usize],
) -> Result<(), String> {
    if got.labels.len() != want.len() {
        return Err(format!("{} side: {} labels, expected {}", what, got.labels.len(), want.len()));
    }
    for (p, i) in want.iter().enumerate() {
        if !std::ptr::eq(got.labels[p], all[*i]) {
            return Err(format!("{} side, position {}: not the label of row {}", what, p, i));
        }
    }
    if got.sorted_feature_columns.len() != d.c() {
        return Err(format!("{} side: {} columns of {}", what, got.sorted_feature_columns.len(), d.c()));
    }
    let mut on = vec![false; d.n()];
    for i in want {
        on[*i] = true;
    }
    for j in 0..d.c() {
        let expect: Vec<(u64, usize)> = parent.sorted_feature_columns[j]
            .iter()
            .filter(|p| on[p.1])
            .map(|p| (p.0.to_bits(), p.1))
            .collect();
        let have: Vec<(u64, usize)> =
            got.sorted_feature_columns[j].iter().map(|p| (p.0.to_bits(), p.1)).collect();
        if expect != have {
            return Err(format!(
                "{} side: sorted column {} is {:?}, expected {:?}",
                what,
                j,
                &got.sorted_feature_columns[j][..have.len().min(12)],
                expect.iter().take(12).map(|p| (f64::from_bits(p.0), p.1)).collect::<Vec<_>>()
            ));
        }
    }
    Ok(())
}

fn presorted(c: &mut Case, d: &Data, times: usize) -> Result<(), String> {
    let set = d.set();
    let mut cur = guarded(|| create_dataset_with_sorted_features(&set))?;
    let all = cur.labels.clone();
    let mut idx: Vec<usize> = (0..d.n()).collect();
    for step in 0..times {
        let (j, v) = question(c, d);
        c.describe(format!("pre-sorted split {} of feature {} at {:?}\n{}", step, j, v, d.text()));
        let (t, f) = guarded(|| new_partition(&cur, j, v, &all))
            .map_err(|e| format!("pre-sorted partition at feature {} >= {:?}: {}", j, v, e))?;
        let (yes, no): (Vec<usize>, Vec<usize>) = idx.iter().partition(|i| d.rows[**i][j] >= v);
        let ctx = |e: String| format!("pre-sorted partition at feature {} >= {:?}: {}", j, v, e);
        sorted_side("true", &t, &cur, d, &all, &yes).map_err(ctx)?;
        sorted_side("false", &f, &cur, d, &all, &no).map_err(ctx)?;
        c.saw("pre-sorted partitions checked", 1);
        if yes.is_empty() || no.is_empty() {
            c.saw("one-sided partitions", 1);
        } else {
            c.nontrivial(d.hash() ^ v.to_bits() ^ j as u64 ^ 1);
        }
        let take = if yes.is_empty() || (!no.is_empty() && c.rng.chance(0.5)) { false } else { true };
        if take {
            cur = t;
            idx = yes;
        } else {
            cur = f;
            idx = no;
        }
    }
    Ok(())
}

fn any(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::any(&mut c.rng, want);
    let times = c.rng.range(1, 6);
    plain(c, &d, times)?;
    presorted(c, &d, times)?;
    if c.idx < 2 {
        c.sample(format!("{}: {} nested partitions", d.brief(), times));
    }
    Ok(())
}
fn big(c: &mut Case) -> Result<(), String> {
    let w = c.idx;
    let d = gen::big(&mut c.rng, w, Labels::Any);
    plain(c, &d, 3)?;
    presorted(c, &d, 3)
}
/// The test of a single question.
fn questions(c: &mut Case) -> Result<(), String> {
    for _ in 0..50 {
        let d = gen::small(&mut c.rng, Labels::Any);
        let (j, v) = question(c, &d);
        let q = Question::new(j as u32, v);
        for r in &d.rows {
            let got = guarded(|| q.solve(r))?;
            if got != (r[j] >= v) {
                return Err(format!("question feature {} >= {:?} on row {:?} answers {}", j, v, r, got));
            }
            c.saw("questions answered", 1);
        }
        c.nontrivial(d.hash());
    }
    Ok(())
}

/// Rows, features and targets over all orders of magnitude.
fn sized(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::sized(&mut c.rng, 400_000, want);
    let times = c.rng.range(1, 4);
    plain(c, &d, times)?;
    presorted(c, &d, times)
}

/// Very many rows, features or targets.
fn huge(c: &mut Case) -> Result<(), String> {
    let w = c.idx;
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::huge(&mut c.rng, w, want);
    let times = c.rng.range(1, 4);
    plain(c, &d, times)?;
    presorted(c, &d, times)
}

fn main() {
    run(
        "C07",
        "cases: generated data sets, split values below, above, on, between and one bit beside the observed values, up to six nested partitions, plain and pre-sorted; non-trivial: both sides hold rows; distinct by data, feature and value",
        &["finite feature values; split values finite or infinite"],
        vec![
            Stage::new("questions", questions, (2_000, 20_000), (20, 100)),
            Stage::new("any", any, (40_000, 600_000), (60, 500)),
            Stage::new("big", big, (36, 400), (40, 200)),
            Stage::new("sized", sized, (400, 6000), (25, 150)),
            Stage::new("huge", huge, (24, 240), (30, 150)),
        ],
    )
}
