//! C24: raising the depth limit only refines a tree.
use common::data_processor::create_dataset_with_sorted_features;
use multi_target_decision_tree::decision_trees::{
    RegressionMultiTargetDecisionTree, RegressionMultiTargetDecisionTreeNewPartition,
};
use multi_target_decision_tree::scorer::classification::calculate_accuracy;
use multi_target_decision_tree::scorer::regression::{
    calculate_overall_mean_squared_error, calculate_overall_mean_squared_error_new_partition,
};
use vph::ens::{EKind, Model, EKINDS};
use vph::forge::{self, Kind, KINDS};
use vph::gen::{self, Data, Labels};
use vph::oracle::{same_bits, EPS};
use vph::run::{guarded, main as run, Case, Stage};
use vph::tree::{config, LeafView, T};

/// What a leaf holds, row by row.
fn rows_of(l: &LeafView) -> Vec<Vec<u64>> {
    match l {
        LeafView::Data { rows, labels, .. } => rows
            .iter()
            .zip(labels)
            .map(|(r, l)| r.iter().chain(l.iter()).map(|x| x.to_bits()).collect())
            .collect(),
        LeafView::Sorted { refs, .. } => refs.iter().map(|a| vec![*a as u64]).collect(),
        _ => vec![],
    }
}

fn gather(t: &T, out: &mut Vec<Vec<u64>>) {
    match t {
        T::Leaf(l) => out.extend(rows_of(l)),
        T::Inner(_, _, a, b) => {
            gather(a, out);
            gather(b, out);
        }
    }
}

fn print_leaf(l: &LeafView) -> u64 {
    T::Leaf(l.clone()).print()
}

/// `a` (limit `limit`) must be `b` (a larger limit) cut off at level `limit`.
fn cut(a: &T, b: &T, level: u32, limit: u32, nodes: &mut u64, data: bool) -> Result<(), String> {
    *nodes += 1;
    match (a, b) {
        (T::Leaf(x), T::Leaf(y)) => {
            if data && print_leaf(x) != print_leaf(y) {
                return Err(format!("a leaf at level {} holds other data under the larger limit", level));
            }
            Ok(())
        }
        (T::Inner(c1, v1, a1, b1), T::Inner(c2, v2, a2, b2)) => {
            if level >= limit {
                return Err(format!("a node at level {} is split although the limit is {}", level, limit));
            }
            if c1 != c2 || v1.to_bits() != v2.to_bits() {
                return Err(format!(
                    "a node at level {} tests feature {} >= {:?}, under the larger limit feature {} >= {:?}",
                    level, c1, v1, c2, v2
                ));
            }
            cut(a1, a2, level + 1, limit, nodes, data)?;
            cut(b1, b2, level + 1, limit, nodes, data)
        }
        (T::Leaf(x), deep) => {
            if level < limit {
                return Err(format!(
                    "a leaf at level {} (limit {}) is split under the larger limit although the limit does not bind there",
                    level, limit
                ));
            }
            if data {
                let (mut p, mut q) = (rows_of(x), vec![]);
                gather(deep, &mut q);
                p.sort();
                q.sort();
                if p != q {
                    return Err(format!(
                        "a leaf at level {} holds {} rows, the leaves it is split into under the larger limit hold {} rows, not the same ones",
                        level, p.len(), q.len()
                    ));
                }
            }
            Ok(())
        }
        (T::Inner(..), T::Leaf(_)) => Err(format!(
            "a node at level {} is split with the smaller limit and not with the larger",
            level
        )),
    }
}

fn limits(c: &mut Case, n: usize) -> Vec<u32> {
    let mut l: Vec<u32> = vec![];
    let m = c.rng.range(2, 4);
    for _ in 0..m {
        l.push(forge::levels(&mut c.rng, n));
    }
    if c.rng.chance(0.5) {
        let b = c.rng.below(8) as u32;
        l.extend([b, b + 1]);
    }
    l.sort_unstable();
    l.dedup();
    if l.len() == 1 {
        l.push(l[0].saturating_add(1).max(1));
        l.dedup();
    }
    l
}

fn trees(c: &mut Case, d: &Data, limits: &[u32], kinds: &[Kind]) -> Result<(), String> {
    c.describe(format!("limits {:?}\n{}", limits, d.text()));
    let set = d.set();
    for kind in kinds {
        let mut before: Option<(u32, T)> = None;
        let mut cuts = 0;
        for l in limits {
            let threads = c.rng.chance(0.4);
            let t = forge::build(*kind, &set, config(d.k(), *l, threads))?;
            if let Some((limit, s)) = &before {
                let mut nodes = 0;
                cut(s, &t, 0, *limit, &mut nodes, true)
                    .map_err(|e| format!("{:?} trees with limits {} and {}: {}", kind, limit, l, e))?;
                c.saw("pairs of trees compared", 1);
                c.saw("nodes compared", nodes);
                if t.leaves() > s.leaves() {
                    c.saw("pairs in which the larger limit splits further", 1);
                    cuts += 1;
                } else if t.leaves() > 1 {
                    c.saw("pairs in which neither limit binds further", 1);
                }
            }
            before = Some((*l, t));
        }
        if cuts > 0 {
            c.nontrivial(d.hash() ^ limits.iter().fold(7u64, |a, l| a.wrapping_mul(31) ^ *l as u64));
        }
    }
    Ok(())
}

fn any(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = if c.rng.chance(0.2) { gen::needle(&mut c.rng) } else { gen::any(&mut c.rng, want) };
    let l = limits(c, d.n());
    trees(c, &d, &l, &KINDS)?;
    if c.idx < 2 {
        c.sample(format!("limits {:?} {}", l, d.brief()));
    }
    Ok(())
}

fn chain(c: &mut Case) -> Result<(), String> {
    let n = c.rng.range(20, 320);
    let d = gen::chain(&mut c.rng, n, false);
    let mut l = vec![*c.rng.pick(&[5, 31, 64]), *c.rng.pick(&[127, 128, 129]), *c.rng.pick(&[255, 256, 257]), 300];
    l.push(c.rng.range(1, n) as u32);
    l.push(c.rng.range(8, 40) as u32);
    l.sort_unstable();
    l.dedup();
    trees(c, &d, &l, &KINDS)
}

fn big(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let w = c.idx;
    let d = gen::big(&mut c.rng, w, want);
    let l = if d.n() > 6000 || d.c() > 6000 { vec![1, 2, 3] } else { limits(c, d.n()) };
    trees(c, &d, &l, &KINDS)
}

/// The error on the training rows, as the project's own scorers report it.
fn error(c: &mut Case) -> Result<(), String> {
    let one_hot = c.idx % 2 == 0;
    let d = gen::any(&mut c.rng, if one_hot { Labels::OneHot } else { Labels::Any });
    let set = d.set();
    let sorted = create_dataset_with_sorted_features(&set);
    let scale = d.labels.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
    let tol = 64.0 * (d.n() as f64 + 4.0) * EPS * scale * scale;
    let threads = c.rng.chance(0.2);
    let mut last: Option<(u32, f64, f64, f64)> = None;
    let mut seen = vec![];
    let ls = [0, 1, 2, 3, 4, 6, 9, 40, 300];
    c.describe(format!("limits {:?} threads {}\n{}", ls, threads, d.text()));
    for l in ls {
        let (mse, mse2, acc) = guarded(|| {
            let t = RegressionMultiTargetDecisionTree::new(d.set(), config(d.k(), l, threads));
            let root = Box::new(t.root);
            let mse = calculate_overall_mean_squared_error(&set, &root);
            let acc = if one_hot { calculate_accuracy(&set, &root) } else { 0.0 };
            let t = RegressionMultiTargetDecisionTreeNewPartition::new(sorted.clone(), config(d.k(), l, threads));
            let mse2 = calculate_overall_mean_squared_error_new_partition(&set, &Box::new(t.root));
            (mse, mse2, acc)
        })?;
        if let Some((pl, pm, pm2, pa)) = last {
            for (what, a, b) in [("plain data", pm, mse), ("pre-sorted data", pm2, mse2)] {
                if !(b <= a + tol) {
                    return Err(format!(
                        "trees on {}: the training error is {:?} with limit {} and {:?} with limit {}",
                        what, a, pl, b, l
                    ));
                }
            }
            if !(acc >= pa) {
                return Err(format!(
                    "the training accuracy is {:?} with limit {} and {:?} with limit {}",
                    pa, pl, acc, l
                ));
            }
            c.saw("training errors compared with that of a smaller limit", 2);
            if mse < pm {
                c.saw("of these, the error fell", 1);
            }
        }
        last = Some((l, mse, mse2, acc));
        seen.push((l, mse));
    }
    if seen.first().map(|x| x.1) != seen.last().map(|x| x.1) {
        c.nontrivial(d.hash());
    }
    Ok(())
}

/// A limit that no tree of the ensemble reaches has no effect; the first tree
/// of an ensemble is that of a larger limit, cut off.
fn ensembles(c: &mut Case) -> Result<(), String> {
    let kind = EKINDS[(c.idx % 3) as usize];
    let l = if kind == EKind::Reg { *c.rng.pick(&[Labels::Any, Labels::Whole]) } else { Labels::OneHot };
    let d = gen::any(&mut c.rng, l);
    let it = c.rng.range(1, 5) as u32;
    let lr = *c.rng.pick(&[0.1, 0.5, 1.0]);
    let wide = *c.rng.pick(&[4, 8, 100, 256]);
    c.describe(format!("{:?} limit {} iterations {} learning rate {}\n{}", kind, wide, it, lr, d.text()));
    let a = guarded(|| Model::train(kind, d.set(), config(d.k(), wide, false), it, lr))?;
    let (ta, pa) = (a.trees()?, a.fingerprint()?);
    let deepest = ta.iter().map(|t| t.depth()).max().unwrap_or(0) as u32;
    if deepest < wide {
        let mut others = vec![deepest, deepest + 1, wide.saturating_add(1), u32::MAX];
        c.rng.shuffle(&mut others);
        for o in &others[..2] {
            let b = guarded(|| Model::train(kind, d.set(), config(d.k(), *o, false), it, lr))?;
            if b.fingerprint()? != pa {
                return Err(format!(
                    "{:?}: no tree is deeper than {}, yet the ensembles trained with limits {} and {} differ",
                    kind, deepest, wide, o
                ));
            }
            c.saw("ensembles compared under limits no tree exceeds", 1);
        }
    }
    let narrow = c.rng.below(wide.min(5) as usize) as u32;
    let b = guarded(|| Model::train(kind, d.set(), config(d.k(), narrow, false), it, lr))?;
    let tb = b.trees()?;
    if ta.is_empty() || tb.is_empty() || !same_bits(a.initial_guess(), b.initial_guess()) {
        return Err(format!("{:?}: {} and {} trees, initial guesses {:?} and {:?}", kind, ta.len(), tb.len(), a.initial_guess(), b.initial_guess()));
    }
    let mut nodes = 0;
    cut(&tb[0], &ta[0], 0, narrow, &mut nodes, true)
        .map_err(|e| format!("{:?} ensemble, first trees with limits {} and {}: {}", kind, narrow, wide, e))?;
    c.saw("first trees of ensembles compared", 1);
    if deepest > 0 {
        c.nontrivial(d.hash() ^ (it as u64) << 9 ^ wide as u64);
    }
    Ok(())
}

/// Rows, features and targets over all orders of magnitude.
fn sized(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::sized(&mut c.rng, 250_000, want);
    let mut l = vec![c.rng.range(0, 2) as u32, c.rng.range(3, 5) as u32];
    if d.n() < 500 {
        l.push(forge::levels(&mut c.rng, d.n()).max(6));
    }
    trees(c, &d, &l, &KINDS)
}

/// Very many rows, features or targets.
fn huge(c: &mut Case) -> Result<(), String> {
    let w = c.idx;
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::huge(&mut c.rng, w, want);
    let mut l = vec![c.rng.range(0, 2) as u32, c.rng.range(3, 4) as u32];
    if d.n() < 500 {
        l.push(forge::levels(&mut c.rng, d.n()).max(6));
    }
    trees(c, &d, &l, &KINDS)
}

fn main() {
    run(
        "C24",
        "cases: generated data sets, each built with 2 to 6 depth limits from 0 to unlimited by every tree kind and compared node by node with the next larger limit; training errors and accuracies over nine limits; ensembles trained under limits none of their trees reaches; non-trivial: the larger limit splits further; distinct by data and limits",
        &["finite feature values and labels", "training errors are compared up to the rounding of the leaf averages"],
        vec![
            Stage::new("any", any, (2_500, 80_000), (30, 400)),
            Stage::new("chain", chain, (30, 400), (20, 100)),
            Stage::new("big", big, (16, 120), (30, 250)),
            Stage::new("error", error, (1_500, 50_000), (15, 150)),
            Stage::new("ensembles", ensembles, (3_000, 40_000), (20, 150)),
            Stage::new("sized", sized, (120, 2000), (25, 150)),
            Stage::new("huge", huge, (24, 240), (30, 150)),
        ],
    )
}
