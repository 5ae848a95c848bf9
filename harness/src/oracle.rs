//! Reference model of the split search: population variance reduction computed
//! from centred labels with compensated sums, so that its own error is far
//! below the tolerance granted to the code.

pub const EPS: f64 = f64::EPSILON;

/// Compensated (two-sum) accumulator.
#[derive(Clone, Copy, Default, Debug)]
pub struct Sum {
    s: f64,
    c: f64,
}
impl Sum {
    pub fn new() -> Sum {
        Sum { s: 0.0, c: 0.0 }
    }
    pub fn add(&mut self, x: f64) {
        let t = self.s + x;
        let bb = t - self.s;
        self.c += (self.s - (t - bb)) + (x - bb);
        self.s = t;
    }
    pub fn get(&self) -> f64 {
        let r = self.s + self.c;
        if r.is_finite() {
            r
        } else {
            self.s
        }
    }
}

pub fn mean_of<'a>(it: impl Iterator<Item = &'a Vec<f64>>, k: usize) -> Vec<f64> {
    let mut s = vec![Sum::new(); k];
    let mut n = 0usize;
    for v in it {
        n += 1;
        for t in 0..k {
            s[t].add(v[t]);
        }
    }
    s.iter().map(|x| x.get() / n as f64).collect()
}

/// The node of a tree as the oracle sees it.
pub struct Node<'a> {
    pub cols: &'a [Vec<f64>],
    pub rows: &'a [usize],
    pub k: usize,
    /// centred labels, row-major in the order of `rows`
    cen: Vec<f64>,
    /// sum over targets of the mean squared label (uncentred): scale of rounding
    pub m2: f64,
    /// sum over targets of the population variance
    pub var: f64,
    /// allowance for rounding in the code under test
    pub tol: f64,
    /// every row carries the same label vector
    pub pure: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct Cand {
    pub col: usize,
    pub value: f64,
    pub gain: f64,
}

impl<'a> Node<'a> {
    /// `delta`: how far the labels may be from those the code worked on.
    pub fn new(cols: &'a [Vec<f64>], labels: &[Vec<f64>], rows: &'a [usize], delta: f64) -> Node<'a> {
        let k = labels[rows[0]].len();
        let m = rows.len();
        let mean = mean_of(rows.iter().map(|r| &labels[*r]), k);
        let mut cen = Vec::with_capacity(m * k);
        let mut m2 = Sum::new();
        let mut var = Sum::new();
        for r in rows {
            for t in 0..k {
                let l = labels[*r][t];
                let c = l - mean[t];
                cen.push(c);
                m2.add(l * l / m as f64);
                var.add(c * c / m as f64);
            }
        }
        let pure = rows.iter().all(|r| labels[*r] == labels[rows[0]]);
        let m2 = m2.get();
        let var = var.get();
        let nf = m as f64;
        let mut tol = (64.0 + 32.0 * nf * nf.sqrt()) * EPS * m2 + 1e-300;
        if delta > 0.0 {
            tol += 4.0 * delta * (k as f64 * m2).sqrt() + 4.0 * delta * delta * k as f64;
        }
        Node {
            cols,
            rows,
            k,
            cen,
            m2,
            var,
            tol,
            pure,
        }
    }

    fn from_left(&self, left: &[Sum], ml: usize) -> f64 {
        let m = self.rows.len();
        if ml == 0 || ml == m {
            return 0.0;
        }
        let (a, b) = (ml as f64, (m - ml) as f64);
        let mut g = Sum::new();
        for s in left {
            let x = s.get();
            g.add(x / a * (x / b));
        }
        g.get()
    }

    /// Variance reduction of dividing at `col >= value`, and the sizes of the
    /// (true, false) sides.
    pub fn gain_of(&self, col: usize, value: f64) -> (f64, usize, usize) {
        let mut left = vec![Sum::new(); self.k];
        let mut ml = 0;
        for (i, r) in self.rows.iter().enumerate() {
            if self.cols[col][*r] < value {
                ml += 1;
                for t in 0..self.k {
                    left[t].add(self.cen[i * self.k + t]);
                }
            }
        }
        (self.from_left(&left, ml), self.rows.len() - ml, ml)
    }

    /// Every candidate (observed value other than the smallest) of a column.
    pub fn scan(&self, col: usize, mut f: impl FnMut(Cand)) {
        let c = &self.cols[col];
        let mut order: Vec<usize> = (0..self.rows.len()).collect();
        order.sort_by(|a, b| c[self.rows[*a]].total_cmp(&c[self.rows[*b]]));
        let mut left = vec![Sum::new(); self.k];
        for (pos, i) in order.iter().enumerate() {
            let v = c[self.rows[*i]];
            if pos > 0 && v != c[self.rows[order[pos - 1]]] {
                f(Cand {
                    col,
                    value: v,
                    gain: self.from_left(&left, pos),
                });
            }
            for t in 0..self.k {
                left[t].add(self.cen[i * self.k + t]);
            }
        }
    }

    pub fn best(&self) -> Option<Cand> {
        let mut best: Option<Cand> = None;
        for col in 0..self.cols.len() {
            self.scan(col, |c| {
                if best.map(|b| c.gain > b.gain).unwrap_or(true) {
                    best = Some(c);
                }
            });
        }
        best
    }

    /// All candidates within `slack` of the best.
    pub fn near_best(&self, slack: f64) -> (Vec<Cand>, Option<Cand>) {
        let best = self.best();
        let mut out = vec![];
        if let Some(b) = best {
            for col in 0..self.cols.len() {
                self.scan(col, |c| {
                    if c.gain >= b.gain - slack {
                        out.push(c)
                    }
                });
            }
        }
        (out, best)
    }

    pub fn observed(&self, col: usize, value: f64) -> bool {
        self.rows.iter().any(|r| self.cols[col][*r] == value)
    }

    /// Judges a chosen split (column, threshold).
    pub fn judge_split(&self, col: usize, value: f64) -> Result<(f64, f64), String> {
        if col >= self.cols.len() {
            return Err(format!("the split uses feature {} of {}", col, self.cols.len()));
        }
        if !self.observed(col, value) {
            return Err(format!(
                "threshold {:?} is not a value of feature {} among the {} rows",
                value,
                col,
                self.rows.len()
            ));
        }
        let (g, mt, mf) = self.gain_of(col, value);
        if mt == 0 || mf == 0 {
            return Err(format!(
                "the split feature {} >= {:?} leaves one side empty ({} / {})",
                col, value, mt, mf
            ));
        }
        let b = self.best().map(|b| (b.gain, b.col, b.value)).unwrap_or((0.0, 0, 0.0));
        if g < b.0 - self.tol {
            return Err(format!(
                "the split feature {} >= {:?} reduces the variance by {:e}, but feature {} >= {:?} by {:e} ({} rows, variance {:e}, rounding allowance {:e})",
                col, value, g, b.1, b.2, b.0, self.rows.len(), self.var, self.tol
            ));
        }
        Ok((g, b.0))
    }

    /// Judges a decision not to split.
    pub fn judge_stop(&self) -> Result<(), String> {
        if let Some(b) = self.best() {
            if b.gain > self.tol {
                return Err(format!(
                    "not split although feature {} >= {:?} reduces the variance by {:e} ({} rows, variance {:e}, rounding allowance {:e})",
                    b.col, b.value, b.gain, self.rows.len(), self.var, self.tol
                ));
            }
        }
        Ok(())
    }
}

/// |a-b| within tol, treating equal infinities as equal and NaN as different.
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol
}

pub fn same_bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
