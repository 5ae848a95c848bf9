//! Builds each kind of tree from a data set and returns it with the training
//! data each leaf was made from (recorded through the public leaf-output
//! function pointer for the boosting trees).

use crate::gen::Data;
use crate::rng::Rng;
use crate::run::guarded;
use crate::tree::{view, LeafView, T};
use common::data_processor::create_dataset_with_sorted_features;
use common::datasets::MultiTargetDataSet;
use multi_target_decision_tree::decision_trees::{
    RegressionMultiTargetDecisionTree, RegressionMultiTargetDecisionTreeNewPartition, TreeConfig,
};
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::{
    LeafOutputCalculator, LeafOutputType,
};
use multi_target_decision_tree::grad_boost_decision_trees::{
    AMGBoostTree, GradBoostMultiTargetDecisionTree,
};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Plain,
    Presorted,
    Grad,
    Amg,
}
pub const KINDS: [Kind; 4] = [Kind::Plain, Kind::Presorted, Kind::Grad, Kind::Amg];

static NEXT: AtomicU64 = AtomicU64::new(1);
static REG: Mutex<Option<HashMap<u64, MultiTargetDataSet>>> = Mutex::new(None);

/// A leaf-output function that records the leaf's data under a fresh number.
pub fn record_leaf(d: &MultiTargetDataSet) -> Vec<f64> {
    let id = NEXT.fetch_add(1, SeqCst);
    let mut g = REG.lock().unwrap_or_else(|e| e.into_inner());
    g.get_or_insert_with(HashMap::new).insert(id, d.clone());
    vec![id as f64]
}

pub fn recording_calculator() -> LeafOutputCalculator {
    let mut c = LeafOutputCalculator::new(LeafOutputType::Regression);
    c.calculate_leaf_output = record_leaf;
    c
}

fn resolve(t: T) -> Result<T, String> {
    Ok(match t {
        T::Inner(c, v, a, b) => T::Inner(c, v, Box::new(resolve(*a)?), Box::new(resolve(*b)?)),
        T::Leaf(l) => {
            let id = match &l {
                LeafView::Output(v) if v.len() == 1 => v[0],
                LeafView::Amg(v, 0) => *v,
                l => return Err(format!("the leaf does not hold the output computed for it: {:?}", l)),
            };
            let mut g = REG.lock().unwrap_or_else(|e| e.into_inner());
            let d = g
                .as_mut()
                .and_then(|m| m.remove(&(id as u64)))
                .ok_or_else(|| format!("the leaf holds an output ({}) no computation returned", id))?;
            T::Leaf(LeafView::Data {
                rows: d.feature_rows,
                cols: d.feature_columns,
                labels: d.labels,
            })
        }
    })
}

/// Builds the tree; for the presorted kind `set` must outlive the call, so
/// the addresses of its labels can be compared with the leaf's references.
pub fn build(kind: Kind, set: &MultiTargetDataSet, cfg: TreeConfig) -> Result<T, String> {
    match kind {
        Kind::Plain => guarded(|| {
            let t = RegressionMultiTargetDecisionTree::new(set.clone(), cfg);
            view(&t.root)
        })?,
        Kind::Presorted => guarded(|| {
            let sorted = create_dataset_with_sorted_features(set);
            let t = RegressionMultiTargetDecisionTreeNewPartition::new(sorted, cfg);
            view(&t.root)
        })?,
        Kind::Grad => guarded(|| {
            let t = GradBoostMultiTargetDecisionTree::new(set.clone(), cfg, recording_calculator());
            view(&t.root)
        })?
        .and_then(resolve),
        Kind::Amg => guarded(|| {
            let t = AMGBoostTree::new(set.clone(), cfg, recording_calculator());
            view(&t.root)
        })?
        .and_then(resolve),
    }
}

pub fn levels(rng: &mut Rng, n: usize) -> u32 {
    match rng.below(10) {
        9 => *rng.pick(&[127, 128, 255, 256, 257, 512, 65_535, 65_536, 1 << 24]),
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 5,
        5 => n as u32,
        6 => u32::MAX,
        7 => 100,
        _ => rng.range(1, 12) as u32,
    }
}

/// Tree conservation monitor: every leaf holds exactly the training rows the
/// harness routes to it, unaltered, in order, paired with their labels.
/// Returns (leaves, rows accounted for).
pub fn check_conservation(t: &T, d: &Data, set: &MultiTargetDataSet) -> Result<(u64, u64), String> {
    let mut leaves = 0u64;
    let mut rows = 0u64;
    t.route(&d.rows, (0..d.n()).collect(), &mut |l, idx| {
        leaves += 1;
        rows += idx.len() as u64;
        if idx.is_empty() {
            return Err("a leaf that no training row reaches".to_string());
        }
        match l {
            LeafView::Data { rows, cols, labels } => {
                if rows.len() != idx.len() || labels.len() != idx.len() {
                    return Err(format!(
                        "a leaf holds {} rows and {} labels, {} training rows reach it",
                        rows.len(),
                        labels.len(),
                        idx.len()
                    ));
                }
                for (p, i) in idx.iter().enumerate() {
                    if !crate::oracle::same_bits(&rows[p], &d.rows[*i]) {
                        return Err(format!(
                            "position {} of a leaf holds row {:?}, expected training row {} = {:?}",
                            p, rows[p], i, d.rows[*i]
                        ));
                    }
                    if !crate::oracle::same_bits(&labels[p], &d.labels[*i]) {
                        return Err(format!(
                            "position {} of a leaf holds label {:?}, expected label {:?} of training row {}",
                            p, labels[p], d.labels[*i], i
                        ));
                    }
                }
                if cols.len() != d.c() {
                    return Err(format!("a leaf has {} columns of {}", cols.len(), d.c()));
                }
                for (j, col) in cols.iter().enumerate() {
                    if col.len() != idx.len()
                        || idx.iter().enumerate().any(|(p, i)| col[p].to_bits() != d.rows[*i][j].to_bits())
                    {
                        return Err(format!("column {} of a leaf is not that of its rows", j));
                    }
                }
            }
            LeafView::Sorted { cols, labels, refs } => {
                if labels.len() != idx.len() {
                    return Err(format!(
                        "a leaf holds {} labels, {} training rows reach it",
                        labels.len(),
                        idx.len()
                    ));
                }
                for (p, i) in idx.iter().enumerate() {
                    if refs[p] != &set.labels[*i] as *const Vec<f64> as usize {
                        return Err(format!(
                            "position {} of a leaf refers to a label other than that of training row {}",
                            p, i
                        ));
                    }
                    if !crate::oracle::same_bits(&labels[p], &d.labels[*i]) {
                        return Err(format!("the label of training row {} was altered", i));
                    }
                }
                if cols.len() != d.c() {
                    return Err(format!("a leaf has {} sorted columns of {}", cols.len(), d.c()));
                }
                for (j, col) in cols.iter().enumerate() {
                    check_sorted_column(col, &d.rows, j, idx)?;
                }
            }
            l => return Err(format!("unexpected leaf {:?}", l)),
        }
        Ok(())
    })?;
    Ok((leaves, rows))
}

/// A sorted column lists exactly the rows `idx` with their values, ascending.
pub fn check_sorted_column(
    col: &[(f64, usize)],
    rows: &[Vec<f64>],
    j: usize,
    idx: &[usize],
) -> Result<(), String> {
    if col.len() != idx.len() {
        return Err(format!(
            "sorted column {} lists {} rows, expected {}",
            j,
            col.len(),
            idx.len()
        ));
    }
    let mut seen: Vec<usize> = col.iter().map(|p| p.1).collect();
    seen.sort_unstable();
    let mut want = idx.to_vec();
    want.sort_unstable();
    if seen != want {
        return Err(format!("sorted column {} does not list exactly the rows {:?}", j, &want[..want.len().min(20)]));
    }
    for (p, (v, i)) in col.iter().enumerate() {
        if v.to_bits() != rows[*i][j].to_bits() {
            return Err(format!(
                "sorted column {} pairs row {} with {:?}, its value is {:?}",
                j, i, v, rows[*i][j]
            ));
        }
        if p > 0 && col[p - 1].0 > *v {
            return Err(format!("sorted column {} is not ascending at position {}", j, p));
        }
    }
    Ok(())
}
