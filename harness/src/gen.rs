//! Data-set generator: hostile mixtures of feature and label shapes.

use crate::rng::Rng;
use common::datasets::MultiTargetDataSet;

#[derive(Clone, Debug)]
pub struct Data {
    pub rows: Vec<Vec<f64>>,
    pub labels: Vec<Vec<f64>>,
    /// all labels are whole numbers small enough for exact sums of squares
    pub whole: bool,
    pub note: String,
}

impl Data {
    pub fn n(&self) -> usize {
        self.rows.len()
    }
    pub fn c(&self) -> usize {
        self.rows[0].len()
    }
    pub fn k(&self) -> usize {
        self.labels[0].len()
    }
    pub fn columns(&self) -> Vec<Vec<f64>> {
        transpose(&self.rows, self.c())
    }
    /// the project's data set, assembled without its own helpers
    pub fn set(&self) -> MultiTargetDataSet {
        MultiTargetDataSet {
            feature_rows: self.rows.clone(),
            feature_columns: self.columns(),
            labels: self.labels.clone(),
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = 17u64;
        for r in self.rows.iter().chain(self.labels.iter()) {
            for v in r {
                crate::rng::fnv(&mut h, v.to_bits());
            }
            crate::rng::fnv(&mut h, r.len() as u64);
        }
        h
    }
    pub fn text(&self) -> String {
        let mut s = format!(
            "{} rows, {} features, {} targets [{}]\n",
            self.n(),
            self.c(),
            self.k(),
            self.note
        );
        for (r, l) in self.rows.iter().zip(&self.labels).take(400) {
            s.push_str(&format!("{:?} -> {:?}\n", r, l));
            if s.len() > 60_000 {
                s.push_str("...\n");
                break;
            }
        }
        s
    }
    pub fn brief(&self) -> String {
        let mut s = format!(
            "n={} features={} targets={} [{}]",
            self.n(),
            self.c(),
            self.k(),
            self.note
        );
        for (r, l) in self.rows.iter().zip(&self.labels).take(3) {
            s.push_str(&crate::run::clip(&format!(" {:?}->{:?}", r, l), 160));
        }
        s
    }
}

pub fn transpose(rows: &[Vec<f64>], c: usize) -> Vec<Vec<f64>> {
    (0..c).map(|j| rows.iter().map(|r| r[j]).collect()).collect()
}

pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}
pub fn next_down(x: f64) -> f64 {
    -next_up(-x)
}

fn column(rng: &mut Rng, n: usize, kind: usize) -> (Vec<f64>, &'static str) {
    match kind {
        0 => {
            let m = rng.range(2, 6) as i64;
            ((0..n).map(|_| rng.int(0, m) as f64).collect(), "few-ints")
        }
        1 => {
            let v = *rng.pick(&[0.0, -3.5, 7.0, 1e300, -1e-300]);
            (vec![v; n], "constant")
        }
        2 => ((0..n).map(|_| rng.below(2) as f64).collect(), "binary"),
        3 => ((0..n).map(|_| rng.normal()).collect(), "normal"),
        4 => ((0..n).map(|i| i as f64).collect(), "increasing"),
        5 => ((0..n).map(|i| -(i as f64) * 0.5).collect(), "decreasing"),
        6 => (
            (0..n)
                .map(|_| {
                    let e = rng.int(-300, 300) as f64;
                    let s = if rng.chance(0.5) { 1.0 } else { -1.0 };
                    s * (1.0 + rng.unit()) * 10f64.powf(e)
                })
                .collect(),
            "huge-range",
        ),
        7 => {
            // adjacent doubles
            let base = *rng.pick(&[1.0, -1.0, 1e9, 0.1, 4294967296.0, -1e-5, 16777216.0]);
            let vals: Vec<f64> = {
                let mut v = vec![base];
                for _ in 0..4 {
                    let x = next_up(*v.last().unwrap());
                    v.push(x);
                }
                v
            };
            ((0..n).map(|_| *rng.pick(&vals)).collect(), "adjacent")
        }
        8 => {
            let vals = [0.0, -0.0, f64::from_bits(1), -f64::from_bits(1), f64::MIN_POSITIVE, 1e-310];
            ((0..n).map(|_| *rng.pick(&vals)).collect(), "zeros-subnormals")
        }
        9 => (
            (0..n).map(|_| rng.int(-5_000_000_000, 5_000_000_000) as f64).collect(),
            "large-ints",
        ),
        10 => ((0..n).map(|_| -(rng.int(1, 9) as f64)).collect(), "negative-ints"),
        11 => {
            // one rare value
            let r = rng.below(n);
            (
                (0..n).map(|i| if i == r { 1.0 } else { 0.0 }).collect(),
                "one-outlier",
            )
        }
        12 => {
            let m = (n / 3).max(1) as i64;
            ((0..n).map(|_| rng.int(0, m) as f64 / 4.0).collect(), "mid-dups")
        }
        13 => {
            let vals = [f64::MAX, f64::MIN, 1.0, -1.0, 0.0];
            ((0..n).map(|_| *rng.pick(&vals)).collect(), "extremes")
        }
        14 => {
            let mut v: Vec<f64> = (0..n).map(|i| i as f64 * 0.1).collect();
            rng.shuffle(&mut v);
            (v, "permutation")
        }
        _ => {
            // many values within one integer
            (
                (0..n).map(|_| 3.0 + rng.below(50) as f64 / 64.0).collect(),
                "fractions",
            )
        }
    }
}
const COLUMN_KINDS: usize = 16;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Labels {
    /// anything
    Any,
    /// exactly one 1 per row
    OneHot,
    /// whole numbers |x| <= 1000
    Whole,
}

fn labels(rng: &mut Rng, rows: &[Vec<f64>], k: usize, want: Labels) -> (Vec<Vec<f64>>, bool, String) {
    let n = rows.len();
    let c = rows[0].len();
    if want == Labels::OneHot {
        let kind = rng.below(6);
        let (name, f): (&str, Box<dyn FnMut(&mut Rng, usize) -> usize>) = match kind {
            0 => ("one-hot random", Box::new(move |r, _| r.below(k))),
            1 => {
                // threshold rules with noise
                let j = rng.below(c);
                let mut s: Vec<f64> = rows.iter().map(|r| r[j]).collect();
                s.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let cuts: Vec<f64> = (1..k).map(|i| s[(i * n / k).min(n - 1)]).collect();
                let noise = if rng.chance(0.5) { 0.0 } else { 0.1 };
                let col: Vec<f64> = rows.iter().map(|r| r[j]).collect();
                (
                    "one-hot rule",
                    Box::new(move |r, i| {
                        if r.chance(noise) {
                            r.below(k)
                        } else {
                            cuts.iter().filter(|t| col[i] >= **t).count().min(k - 1)
                        }
                    }),
                )
            }
            2 => {
                let p = rng.unit() * 0.2;
                let major = rng.below(k);
                (
                    "one-hot skewed",
                    Box::new(move |r, _| if r.chance(p) { r.below(k) } else { major }),
                )
            }
            3 => {
                let only = rng.below(k);
                ("one-hot single class", Box::new(move |_, _| only))
            }
            4 => {
                let a = rng.below(c);
                let b = rng.below(c);
                let m: Vec<(bool, bool)> = rows.iter().map(|r| (r[a] > 0.0, r[b] > 1.0)).collect();
                (
                    "one-hot xor",
                    Box::new(move |_, i| (m[i].0 as usize ^ m[i].1 as usize).min(k - 1)),
                )
            }
            _ => ("one-hot cyclic", Box::new(move |_, i| i % k)),
        };
        let mut f = f;
        let out = (0..n)
            .map(|i| {
                let mut v = vec![0.0; k];
                v[f(rng, i)] = 1.0;
                v
            })
            .collect();
        return (out, true, name.to_string());
    }
    let mut out = vec![vec![0.0; k]; n];
    let mut names = vec![];
    let mut whole = true;
    let kinds: &[usize] = if want == Labels::Whole {
        &[0, 1, 2, 3, 4, 5, 12]
    } else {
        &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]
    };
    let same = if rng.chance(0.4) { Some(*rng.pick(kinds)) } else { None };
    for t in 0..k {
        let kind = same.unwrap_or_else(|| *rng.pick(kinds));
        let name = match kind {
            0 => {
                for r in out.iter_mut() {
                    r[t] = rng.int(-3, 3) as f64;
                }
                "small-int"
            }
            1 => {
                let v = rng.int(-7, 7) as f64;
                for r in out.iter_mut() {
                    r[t] = v;
                }
                "constant-int"
            }
            2 => {
                let j = rng.below(c);
                let mut s: Vec<f64> = rows.iter().map(|r| r[j]).collect();
                s.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let t1 = s[rng.below(n)];
                let (a, b) = (rng.int(-50, 50) as f64, rng.int(-50, 50) as f64);
                for (i, r) in out.iter_mut().enumerate() {
                    r[t] = if rows[i][j] >= t1 { a } else { b };
                }
                "step"
            }
            3 => {
                for r in out.iter_mut() {
                    r[t] = rng.int(-1000, 1000) as f64;
                }
                "ints"
            }
            4 => {
                for r in out.iter_mut() {
                    r[t] = rng.below(2) as f64;
                }
                "binary"
            }
            5 => {
                let j = rng.below(c);
                let l = rng.below(c);
                for (i, r) in out.iter_mut().enumerate() {
                    r[t] = ((rows[i][j] > 0.0) ^ (rows[i][l] > 1.0)) as u8 as f64;
                }
                "xor"
            }
            6 => {
                whole = false;
                for r in out.iter_mut() {
                    r[t] = rng.normal();
                }
                "normal"
            }
            7 => {
                whole = false;
                let scale = 10f64.powi(rng.int(-12, 12) as i32);
                for r in out.iter_mut() {
                    r[t] = rng.normal() * scale;
                }
                "scaled-normal"
            }
            8 => {
                whole = false;
                let off = rng.normal() * 50.0;
                for r in out.iter_mut() {
                    r[t] = off + rng.unit();
                }
                "offset"
            }
            9 => {
                whole = false;
                let v = 0.1 + rng.unit();
                for r in out.iter_mut() {
                    r[t] = v;
                }
                "constant-real"
            }
            10 => {
                whole = false;
                let j = rng.below(c);
                let s = (0.5 + rng.unit()) * 2.0;
                for (i, r) in out.iter_mut().enumerate() {
                    let x = rows[i][j];
                    let y = if x.abs() > 1e6 { x.signum() * 1e3 } else { x };
                    r[t] = s * y + rng.normal() * 0.1;
                }
                "linear"
            }
            11 => {
                whole = false;
                for r in out.iter_mut() {
                    r[t] = if rng.chance(0.1) { rng.normal() * 100.0 } else { rng.normal() * 0.01 };
                }
                "heavy-tail"
            }
            _ => {
                let p = rng.below(n);
                for (i, r) in out.iter_mut().enumerate() {
                    r[t] = if i == p { 1.0 } else { 0.0 };
                }
                "one-spike"
            }
        };
        if t < 4 {
            names.push(name);
        }
    }
    (out, whole, names.join("/"))
}

pub fn size(rng: &mut Rng, small: bool) -> (usize, usize, usize) {
    if small {
        (rng.range(1, 12), rng.range(1, 4), rng.range(1, 3))
    } else {
        match rng.below(12) {
            0 => (rng.range(1, 3), rng.range(1, 3), rng.range(1, 3)),
            1..=6 => (rng.range(4, 40), rng.range(1, 6), rng.range(1, 4)),
            7 | 8 => (rng.range(40, 130), rng.range(1, 8), rng.range(1, 5)),
            9 => (rng.range(10, 40), rng.range(8, 40), rng.range(1, 3)),
            10 => (rng.range(10, 40), rng.range(1, 5), rng.range(6, 30)),
            _ => (rng.range(130, 400), rng.range(1, 4), rng.range(1, 3)),
        }
    }
}

pub fn data(rng: &mut Rng, n: usize, c: usize, k: usize, want: Labels) -> Data {
    let mut cols: Vec<Vec<f64>> = vec![];
    let mut names = vec![];
    let same = if rng.chance(0.25) { Some(rng.below(COLUMN_KINDS)) } else { None };
    for j in 0..c {
        if j > 0 && rng.chance(0.12) {
            let s = rng.below(j);
            cols.push(cols[s].clone());
            names.push("copy");
            continue;
        }
        if j > 0 && rng.chance(0.05) {
            let s = rng.below(j);
            cols.push(cols[s].iter().map(|x| -x).collect());
            names.push("mirror");
            continue;
        }
        let kind = same.unwrap_or_else(|| rng.below(COLUMN_KINDS));
        let (v, nm) = column(rng, n, kind);
        cols.push(v);
        names.push(nm);
    }
    let mut rows: Vec<Vec<f64>> = (0..n).map(|i| cols.iter().map(|v| v[i]).collect()).collect();
    if n > 3 && rng.chance(0.15) {
        // repeat some whole rows
        for _ in 0..rng.range(1, n / 2) {
            let (a, b) = (rng.below(n), rng.below(n));
            rows[a] = rows[b].clone();
        }
    }
    let (l, whole, ln) = labels(rng, &rows, k, want);
    names.truncate(8);
    Data {
        rows,
        labels: l,
        whole,
        note: format!("{}; {}", names.join(","), ln),
    }
}

/// One feature decides the labels (nearly) alone, the others are copies of it
/// in which a few rows are misplaced: the best split is only slightly better
/// than many others, and may come before or after them.
pub fn decoys(rng: &mut Rng, n: usize, c: usize, k: usize, want: Labels) -> Data {
    let c = c.max(2);
    let k = if want == Labels::OneHot { k.max(2) } else { k };
    let kind = *rng.pick(&[0, 2, 3, 4, 9, 10, 12, 14, 15]);
    let (base, name) = column(rng, n, kind);
    let at = rng.below(c);
    let mut rows = vec![vec![0.0; c]; n];
    for j in 0..c {
        let mut v = base.clone();
        if j != at {
            for _ in 0..1 + rng.below(1 + n / 20) {
                let i = rng.below(n);
                v[i] = base[rng.below(n)];
            }
        }
        for i in 0..n {
            rows[i][j] = v[i];
        }
    }
    let mut s = base.clone();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let cut = s[match rng.below(3) {
        0 => n / 2,
        1 => n - 1 - rng.below(1 + n / 10),
        _ => rng.below(n),
    }];
    let noise = if want == Labels::Any && rng.chance(0.4) { 0.01 } else { 0.0 };
    let scale = if want == Labels::Any { *rng.pick(&[1.0, 1.0, 1e-9, 1e-4, 1e6, 0.3]) } else { 1.0 };
    let mut labels = vec![vec![0.0; k]; n];
    let (lo, hi) = (rng.below(k), rng.below(k));
    let hi = if hi == lo { (lo + 1) % k } else { hi };
    let step = rng.int(1, 40) as f64;
    for i in 0..n {
        let up = base[i] >= cut;
        if want == Labels::OneHot {
            labels[i][if up { hi } else { lo }] = 1.0;
            continue;
        }
        for t in 0..k {
            let v = if up && t % 2 == 0 { step } else { 0.0 } + if noise > 0.0 { noise * rng.normal() } else { 0.0 };
            labels[i][t] = v * scale;
        }
    }
    Data {
        rows,
        labels,
        whole: want != Labels::Any,
        note: format!("decoys of column {} ({})", at, name),
    }
}

pub fn any(rng: &mut Rng, want: Labels) -> Data {
    let (n, c, k) = size(rng, false);
    let k = if want == Labels::OneHot { k.max(2) } else { k };
    if rng.chance(0.1) {
        return decoys(rng, n, c, k, want);
    }
    data(rng, n, c, k, want)
}

/// Another data set that is easily mistaken for `d`: same shape and, depending
/// on the draw, the same features, labels, first and last rows or sums.
pub fn sibling(rng: &mut Rng, d: &Data) -> Data {
    let mut o = d.clone();
    let n = d.n();
    o.note = format!("{}, sibling", d.note);
    let whole_rows = d.labels.iter().all(|l| l.iter().all(|v| *v == 0.0 || *v == 1.0));
    for _ in 0..rng.range(1, 2) {
        match rng.below(7) {
            // the label vectors of two rows trade places (never the first or last)
            0 if n > 3 => {
                let (a, b) = (rng.range(1, n - 2), rng.range(1, n - 2));
                o.labels.swap(a, b);
            }
            // all inner label vectors in another order: same sums, same ends
            1 if n > 3 => rng.shuffle(&mut o.labels[1..n - 1]),
            // inner labels altered
            2 if n > 2 && !whole_rows => {
                for l in o.labels[1..n - 1].iter_mut() {
                    for v in l.iter_mut() {
                        *v = *v * 0.5 + 3.0;
                    }
                }
                o.whole = false;
            }
            // the same labels under other features
            3 => {
                for r in o.rows.iter_mut() {
                    for v in r.iter_mut() {
                        *v = -*v;
                    }
                }
            }
            4 if n > 3 => rng.shuffle(&mut o.rows[1..n - 1]),
            // the last feature or label vector only
            5 => {
                let r = rng.below(n);
                let c = d.c() - 1;
                o.rows[r][c] = next_up(o.rows[r][c]).min(1e300);
            }
            _ => {
                let (a, b) = (rng.below(n), rng.below(n));
                o.rows.swap(a, b);
                o.labels.reverse();
            }
        }
    }
    o
}

pub fn small(rng: &mut Rng, want: Labels) -> Data {
    let (n, c, k) = size(rng, true);
    let k = if want == Labels::OneHot { k.max(2) } else { k };
    data(rng, n, c, k, want)
}

/// Sizes around the limits of small integer types and beyond.
pub fn big(rng: &mut Rng, which: u64, want: Labels) -> Data {
    let shapes = [
        (257, 3, 2),
        (30, 300, 2),
        (30, 3, 260),
        (2100, 4, 2),
        (1025, 3, 3),
        (5000, 3, 2),
        (600, 70, 2),
        (12, 1100, 2),
        (300, 2, 40),
        (70_000, 2, 1),
        (3, 70_000, 1),
        (520, 5, 3),
    ];
    let (n, c, k) = shapes[(which % shapes.len() as u64) as usize];
    let k = if want == Labels::OneHot { k.max(2) } else { k };
    let mut d = data(rng, n, c, k, want);
    d.note = format!("big; {}", d.note);
    d
}

/// Any size at all: rows, features and targets each over all orders of
/// magnitude, as long as rows x features x (targets + 8) stays within `cells`.
pub fn sized(rng: &mut Rng, cells: usize, want: Labels) -> Data {
    let mut room = (cells / 9).max(9);
    let (mut n, mut c, mut k) = (1, 1, 1);
    let mut order = [0, 1, 2, 0];
    rng.shuffle(&mut order);
    for what in order {
        match what {
            0 if n == 1 => {
                n = rng.span(room.min(70_000));
                room = (room / n).max(1);
            }
            1 => {
                c = rng.span(room.min(70_000));
                room = (room / c).max(1);
            }
            2 => {
                // room counts cells of one target
                let top = (room * 9).saturating_sub(8).max(1).min(600);
                k = rng.span(top);
                room = (room * 9 / (k + 8)).max(1);
            }
            _ => {}
        }
    }
    let k = if want == Labels::OneHot { k.max(2) } else { k };
    let mut d = data(rng, n.max(2), c, k, want);
    d.note = format!("sized; {}", d.note);
    d
}

/// The far ends of the range of sizes: very many rows, features or targets,
/// in turn.
pub fn huge(rng: &mut Rng, which: u64, want: Labels) -> Data {
    let (n, c, k) = match which % 4 {
        0 => {
            let n = 12_000 + rng.span(130_000);
            (n, rng.range(1, if n > 60_000 { 3 } else { 5 }), rng.range(1, 3))
        }
        1 => (rng.range(3, 60), 300 + rng.span(8_000), rng.range(1, 3)),
        2 => (rng.range(5, 120), rng.range(1, 4), 60 + rng.span(1_500)),
        _ => (70_000 + rng.below(80_000), rng.range(2, 3), rng.range(1, 2)),
    };
    let k = if want == Labels::OneHot { k.max(2) } else { k };
    let mut d = data(rng, n, c, k, want);
    d.note = format!("huge; {}", d.note);
    d
}

/// Labels that grow geometrically along one feature: the best tree peels off
/// one row at a time, so its depth is about the number of rows.
pub fn chain(rng: &mut Rng, n: usize, whole_labels: bool) -> Data {
    let mut pos: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut pos);
    let mut rows = vec![vec![0.0, 0.0]; n];
    let mut labels = vec![vec![0.0]; n];
    for (i, p) in pos.iter().enumerate() {
        rows[*p] = vec![i as f64, (i % 3) as f64];
        labels[*p] = vec![if whole_labels { (1u64 << i.min(20)) as f64 } else { 3f64.powi(i as i32) }];
    }
    Data {
        rows,
        labels,
        whole: whole_labels,
        note: "chain".to_string(),
    }
}

/// Rows to predict: training rows, rows on / just below / just above values
/// seen in training, and unrelated rows.
pub fn probes(rng: &mut Rng, d: &Data, m: usize) -> Vec<Vec<f64>> {
    (0..m)
        .map(|_| match rng.below(4) {
            0 => d.rows[rng.below(d.n())].clone(),
            1 => (0..d.c()).map(|j| d.rows[rng.below(d.n())][j]).collect(),
            2 => (0..d.c())
                .map(|j| {
                    let x = d.rows[rng.below(d.n())][j];
                    match rng.below(3) {
                        0 => x,
                        1 => {
                            if x < f64::MAX {
                                next_up(x)
                            } else {
                                x
                            }
                        }
                        _ => {
                            if x > f64::MIN {
                                next_down(x)
                            } else {
                                x
                            }
                        }
                    }
                })
                .collect(),
            _ => (0..d.c())
                .map(|_| *rng.pick(&[0.0, -0.0, 1.0, -1.0, 2.5, 1e300, -1e300, 0.1]))
                .collect(),
        })
        .collect()
}

/// Uninformative data with one good split hidden at a random column and
/// position (including the first and last of each), sometimes behind ties.
pub fn needle(rng: &mut Rng) -> Data {
    let n = *rng.pick(&[2, 3, 4, 5, 8, 9, 16, 17, 31, 33, 64, 65, 100, 127, 129, 200, 255, 256, 257]);
    let c = *rng.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65]);
    let k = *rng.pick(&[1, 1, 2, 3, 4, 5, 8, 9]);
    let col = match rng.below(3) {
        0 => 0,
        1 => c - 1,
        _ => rng.below(c),
    };
    // number of rows on the false side
    let cut = match rng.below(4) {
        0 => 1,
        1 => n - 1,
        _ => rng.range(1, n - 1),
    };
    let target = match rng.below(3) {
        0 => 0,
        1 => k - 1,
        _ => rng.below(k),
    };
    let scale = *rng.pick(&[1.0, 1.0, 1e-6, 1e6, 0.001]);
    let off = *rng.pick(&[0.0, 0.0, -10.0, 1e5]);
    let step = *rng.pick(&[1.0, 0.25, 1e-9, 1e8, 1e-3]);
    let dup = rng.chance(0.6);
    let noise = *rng.pick(&[0.0, 0.0, 0.01, 0.2]);
    let mut pos: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut pos);
    let mut rows = vec![vec![0.0; c]; n];
    let mut labels = vec![vec![0.0; k]; n];
    let flat: Vec<f64> = (0..k).map(|_| rng.int(-2, 2) as f64).collect();
    let levels = rng.range(1, 4);
    let const_cols = rng.chance(0.3);
    for (rank, i) in pos.iter().enumerate() {
        for j in 0..c {
            rows[*i][j] = if const_cols { 1.0 } else { rng.below(levels) as f64 };
        }
        // rank order along the needle column, with repeats on both sides of the cut
        let r = if dup {
            if rank < cut {
                (rank / 3) as f64
            } else {
                (n + (rank - cut) / 3) as f64
            }
        } else {
            rank as f64
        };
        rows[*i][col] = off + step * r;
        for t in 0..k {
            labels[*i][t] = flat[t] + if noise > 0.0 { noise * rng.normal() * scale } else { 0.0 };
        }
        if rank >= cut {
            labels[*i][target] += scale;
        }
    }
    Data {
        rows,
        labels,
        whole: false,
        note: format!("needle in column {} at {} of {}", col, cut, n),
    }
}
