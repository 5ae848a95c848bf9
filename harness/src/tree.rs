//! A plain view of the project's trees, and monitors over it.

use crate::oracle::Node;
use crate::rng::fnv;
use common::datasets::MultiTargetDataSet;
use common::results::BestSplitResult;
use multi_target_decision_tree::decision_trees::TreeConfig;
use multi_target_decision_tree::leaf::{
    AMGBoostLeaf, GradBoostLeaf, Leaf as LeafTrait, RegressionLeaf, RegressionLeafNewPartition,
};
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::split_finder::{SplitFinder, SplitMetric};

pub fn config(k: usize, levels: u32, threads: bool) -> TreeConfig {
    TreeConfig {
        split_finder: SplitFinder::new(SplitMetric::Variance),
        use_multi_threading: threads,
        number_of_classes: k as u32,
        max_levels: levels,
    }
}

pub fn config_with(
    k: usize,
    levels: u32,
    threads: bool,
    f: fn(&MultiTargetDataSet, u32) -> BestSplitResult,
) -> TreeConfig {
    let mut split_finder = SplitFinder::new(SplitMetric::Variance);
    split_finder.find_best_split = f;
    TreeConfig {
        split_finder,
        use_multi_threading: threads,
        number_of_classes: k as u32,
        max_levels: levels,
    }
}

pub fn find_best_split(d: &MultiTargetDataSet, k: u32) -> BestSplitResult {
    (SplitFinder::new(SplitMetric::Variance).find_best_split)(d, k)
}

#[derive(Clone, Debug, PartialEq)]
pub enum LeafView {
    Data {
        rows: Vec<Vec<f64>>,
        cols: Vec<Vec<f64>>,
        labels: Vec<Vec<f64>>,
    },
    Sorted {
        cols: Vec<Vec<(f64, usize)>>,
        labels: Vec<Vec<f64>>,
        /// addresses of the label vectors
        refs: Vec<usize>,
    },
    Output(Vec<f64>),
    Amg(f64, usize),
}

#[derive(Clone, Debug)]
pub enum T {
    Leaf(LeafView),
    Inner(u32, f64, Box<T>, Box<T>),
}

pub trait View {
    fn view(&self) -> Result<LeafView, String>;
}
impl View for RegressionLeaf {
    fn view(&self) -> Result<LeafView, String> {
        let d = self.data.as_ref().ok_or("leaf without data")?;
        Ok(LeafView::Data {
            rows: d.feature_rows.clone(),
            cols: d.feature_columns.clone(),
            labels: d.labels.clone(),
        })
    }
}
impl<'a> View for RegressionLeafNewPartition<'a> {
    fn view(&self) -> Result<LeafView, String> {
        let d = self.data.as_ref().ok_or("leaf without data")?;
        Ok(LeafView::Sorted {
            cols: d.sorted_feature_columns.clone(),
            labels: d.labels.iter().map(|l| (*l).clone()).collect(),
            refs: d.labels.iter().map(|l| *l as *const Vec<f64> as usize).collect(),
        })
    }
}
impl View for GradBoostLeaf {
    fn view(&self) -> Result<LeafView, String> {
        Ok(LeafView::Output(self.leaf_output.clone().ok_or("leaf without output")?))
    }
}
impl View for AMGBoostLeaf {
    fn view(&self) -> Result<LeafView, String> {
        Ok(LeafView::Amg(
            self.max_value.ok_or("leaf without value")?,
            self.class.ok_or("leaf without class")?,
        ))
    }
}

/// Err when the tree is malformed: an inner node lacking a branch or holding
/// leaf data, a leaf without data.
pub fn view<L: LeafTrait + View>(n: &TreeNode<L>) -> Result<T, String> {
    match (&n.true_branch, &n.false_branch, &n.leaf) {
        (None, None, Some(l)) => Ok(T::Leaf(l.view()?)),
        (Some(a), Some(b), None) => Ok(T::Inner(
            n.question.column,
            n.question.value,
            Box::new(view(a)?),
            Box::new(view(b)?),
        )),
        (a, b, l) => Err(format!(
            "malformed node: true branch {}, false branch {}, leaf {}",
            a.is_some(),
            b.is_some(),
            l.is_some()
        )),
    }
}

impl T {
    pub fn depth(&self) -> usize {
        match self {
            T::Leaf(_) => 0,
            T::Inner(_, _, a, b) => 1 + a.depth().max(b.depth()),
        }
    }
    pub fn leaves(&self) -> usize {
        match self {
            T::Leaf(_) => 1,
            T::Inner(_, _, a, b) => a.leaves() + b.leaves(),
        }
    }
    pub fn inner(&self) -> usize {
        self.leaves() - 1
    }
    /// The harness's own routing rule.
    pub fn leaf_for(&self, row: &[f64]) -> &LeafView {
        match self {
            T::Leaf(l) => l,
            T::Inner(c, v, a, b) => {
                if row[*c as usize] >= *v {
                    a.leaf_for(row)
                } else {
                    b.leaf_for(row)
                }
            }
        }
    }
    /// Visits every leaf with the indices of the rows routed to it.
    pub fn route<'a>(
        &'a self,
        rows: &[Vec<f64>],
        idx: Vec<usize>,
        f: &mut dyn FnMut(&'a LeafView, &[usize]) -> Result<(), String>,
    ) -> Result<(), String> {
        match self {
            T::Leaf(l) => f(l, &idx),
            T::Inner(c, v, a, b) => {
                if rows.len() > 0 && *c as usize >= rows[0].len() {
                    return Err(format!("inner node tests feature {} of {}", c, rows[0].len()));
                }
                let (x, y): (Vec<usize>, Vec<usize>) =
                    idx.into_iter().partition(|i| rows[*i][*c as usize] >= *v);
                a.route(rows, x, f)?;
                b.route(rows, y, f)
            }
        }
    }
    pub fn fingerprint(&self, h: &mut u64) {
        match self {
            T::Leaf(l) => {
                fnv(h, 1);
                match l {
                    LeafView::Data { rows, cols, labels } => {
                        for part in [rows, cols, labels] {
                            fnv(h, part.len() as u64);
                            for v in part {
                                fnv(h, v.len() as u64);
                                for x in v {
                                    fnv(h, x.to_bits());
                                }
                            }
                        }
                    }
                    LeafView::Sorted { cols, labels, .. } => {
                        for c in cols {
                            for (x, i) in c {
                                fnv(h, x.to_bits());
                                fnv(h, *i as u64);
                            }
                        }
                        for v in labels {
                            for x in v {
                                fnv(h, x.to_bits());
                            }
                        }
                    }
                    LeafView::Output(v) => {
                        for x in v {
                            fnv(h, x.to_bits());
                        }
                    }
                    LeafView::Amg(v, c) => {
                        fnv(h, v.to_bits());
                        fnv(h, *c as u64);
                    }
                }
            }
            T::Inner(c, v, a, b) => {
                fnv(h, 2);
                fnv(h, *c as u64);
                fnv(h, v.to_bits());
                a.fingerprint(h);
                b.fingerprint(h);
            }
        }
    }
    pub fn print(&self) -> u64 {
        let mut h = 3;
        self.fingerprint(&mut h);
        h
    }
    /// tests only, for messages
    pub fn text(&self) -> String {
        fn go(t: &T, d: usize, s: &mut String) {
            if s.len() > 4000 || d > 60 {
                return;
            }
            match t {
                T::Leaf(LeafView::Data { labels, .. }) | T::Leaf(LeafView::Sorted { labels, .. }) => {
                    s.push_str(&format!("{}leaf {} rows\n", " ".repeat(d), labels.len()))
                }
                T::Leaf(l) => s.push_str(&format!("{}leaf {:?}\n", " ".repeat(d), l)),
                T::Inner(c, v, a, b) => {
                    s.push_str(&format!("{}[{}] >= {:?}\n", " ".repeat(d), c, v));
                    go(a, d + 1, s);
                    go(b, d + 1, s);
                }
            }
        }
        let mut s = String::new();
        go(self, 0, &mut s);
        s
    }
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub splits: u64,
    pub stops_gain: u64,
    pub stops_depth: u64,
    pub pure: u64,
    pub deepest: u64,
}

/// Growth monitor (depth limit, best splits, no premature stop).
/// `whole`: labels are small whole numbers, so a pure node must not be split.
#[allow(clippy::too_many_arguments)]
pub fn check_growth(
    t: &T,
    cols: &[Vec<f64>],
    labels: &[Vec<f64>],
    rows: Vec<usize>,
    max_levels: u32,
    delta: f64,
    whole: bool,
    st: &mut Stats,
) -> Result<(), String> {
    grow(t, cols, labels, rows, 0, max_levels, delta, whole, st)
}

#[allow(clippy::too_many_arguments)]
fn grow(
    t: &T,
    cols: &[Vec<f64>],
    labels: &[Vec<f64>],
    rows: Vec<usize>,
    level: u32,
    max: u32,
    delta: f64,
    whole: bool,
    st: &mut Stats,
) -> Result<(), String> {
    if level > max {
        return Err(format!("a node at level {} with a limit of {}", level, max));
    }
    if rows.is_empty() {
        return Err(format!("no training row reaches a node at level {}", level));
    }
    st.deepest = st.deepest.max(level as u64);
    match t {
        T::Leaf(_) => {
            if level < max {
                st.stops_gain += 1;
                if rows.len() > 1 {
                    let n = Node::new(cols, labels, &rows, delta);
                    n.judge_stop().map_err(|e| format!("node at level {}: {}", level, e))?;
                }
            } else {
                st.stops_depth += 1;
            }
            Ok(())
        }
        T::Inner(c, v, a, b) => {
            if level >= max {
                return Err(format!("a node at level {} is split with a limit of {}", level, max));
            }
            st.splits += 1;
            let (x, y) = {
                let n = Node::new(cols, labels, &rows, delta);
                if n.pure && whole {
                    return Err(format!(
                        "node at level {}: all {} rows carry the label {:?}, yet it is split (feature {} >= {:?})",
                        level,
                        rows.len(),
                        labels[rows[0]],
                        c,
                        v
                    ));
                }
                if n.pure {
                    st.pure += 1;
                }
                n.judge_split(*c as usize, *v)
                    .map_err(|e| format!("node at level {}: {}", level, e))?;
                rows.iter().partition::<Vec<usize>, _>(|r| cols[*c as usize][**r] >= *v)
            };
            drop(rows);
            grow(a, cols, labels, x, level + 1, max, delta, whole, st)?;
            grow(b, cols, labels, y, level + 1, max, delta, whole, st)
        }
    }
}

/// Are the two trees the same grouping of rows, except below nodes where two
/// different splits tie up to rounding? `map` maps a row of the first data set
/// to its row in the second. Calls `leaves` on pairs of corresponding leaves.
/// Columns may differ (only groups are compared).
pub struct Pair<'a> {
    pub cols1: &'a [Vec<f64>],
    pub labels1: &'a [Vec<f64>],
    pub cols2: &'a [Vec<f64>],
    pub labels2: &'a [Vec<f64>],
    /// row of data 1 -> row of data 2 (its first copy)
    pub map: &'a [usize],
    /// data 2 holds each row this many times, a copy every `labels1.len()` rows
    pub copies: usize,
    pub delta1: f64,
    pub delta2: f64,
    /// tests on the same feature must use the same threshold
    pub same_tests: bool,
    pub same: u64,
    pub ties: u64,
}

impl<'a> Pair<'a> {
    /// In either representation: stopping is as good as splitting, or two
    /// different divisions of the rows are equally good, up to rounding.
    fn excused(&self, rows: &[usize]) -> bool {
        let mapped: Vec<usize> = (0..self.copies)
            .flat_map(|j| rows.iter().map(move |r| self.map[*r] + j * self.labels1.len()))
            .collect();
        for n in [
            Node::new(self.cols1, self.labels1, rows, self.delta1),
            Node::new(self.cols2, self.labels2, &mapped, self.delta2),
        ] {
            let slack = 2.0 * n.tol;
            let (near, best) = n.near_best(slack);
            let best = match best {
                Some(b) => b,
                None => continue,
            };
            if best.gain <= slack {
                return true;
            }
            let mut first: Option<Vec<bool>> = None;
            for c in near {
                let mut side: Vec<bool> =
                    n.rows.iter().map(|r| n.cols[c.col][*r] >= c.value).collect();
                if side[0] {
                    side.iter_mut().for_each(|x| *x = !*x);
                }
                match &first {
                    None => first = Some(side),
                    Some(f) => {
                        if *f != side {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }

    /// On Ok(true), the trees group the rows alike all the way down; Ok(false)
    /// if some subtree was excused by a tie.
    pub fn compare(
        &mut self,
        a: &T,
        b: &T,
        rows: &[usize],
        level: u32,
        leaves: &mut dyn FnMut(&LeafView, &LeafView, &[usize]) -> Result<(), String>,
    ) -> Result<bool, String> {
        match (a, b) {
            (T::Leaf(x), T::Leaf(y)) => {
                self.same += 1;
                leaves(x, y, rows)?;
                Ok(true)
            }
            (T::Inner(c1, v1, a1, b1), T::Inner(c2, v2, a2, b2)) => {
                let s1: Vec<bool> =
                    rows.iter().map(|r| self.cols1[*c1 as usize][*r] >= *v1).collect();
                let s2: Vec<bool> = rows
                    .iter()
                    .map(|r| self.cols2[*c2 as usize][self.map[*r]] >= *v2)
                    .collect();
                let same = s1 == s2;
                let opposite = s1.iter().zip(&s2).all(|(x, y)| x != y);
                if same || opposite {
                    let yes: Vec<usize> = (0..rows.len()).filter(|i| s1[*i]).map(|i| rows[i]).collect();
                    let no: Vec<usize> = (0..rows.len()).filter(|i| !s1[*i]).map(|i| rows[i]).collect();
                    if yes.is_empty() || no.is_empty() {
                        return Err(format!("level {}: a split leaves one side empty", level));
                    }
                    if self.same_tests && c1 == c2 && v1 != v2 {
                        return Err(format!(
                            "level {}: one tree tests feature {} >= {:?}, the other feature {} >= {:?}",
                            level, c1, v1, c2, v2
                        ));
                    }
                    if self.same_tests && c1 != c2 {
                        self.ties += 1;
                    }
                    self.same += 1;
                    let (p, q) = if same { (a2, b2) } else { (b2, a2) };
                    let same_columns = !self.same_tests || c1 == c2;
                    let x = self.compare(a1, p, &yes, level + 1, leaves)?;
                    let y = self.compare(b1, q, &no, level + 1, leaves)?;
                    return Ok(x && y && same_columns);
                }
                if self.excused(rows) {
                    self.ties += 1;
                    return Ok(false);
                }
                Err(format!(
                    "level {} ({} rows): one tree divides at feature {} >= {:?}, the other at feature {} >= {:?}, grouping the rows differently although no two splits tie",
                    level, rows.len(), c1, v1, c2, v2
                ))
            }
            _ => {
                if self.excused(rows) {
                    self.ties += 1;
                    return Ok(false);
                }
                Err(format!(
                    "level {} ({} rows): one tree stops where the other splits, although no tie explains it",
                    level,
                    rows.len()
                ))
            }
        }
    }
}
