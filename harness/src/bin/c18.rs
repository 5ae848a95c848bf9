//! C18: learning depends on the information in the data, not on its form.
use std::collections::HashMap;
use vph::ens::{EKind, Model};
use vph::forge::{self, check_conservation, Kind, KINDS};
use vph::gen::{self, next_up, Data, Labels};
use vph::oracle::{close, EPS};
use vph::replay;
use vph::run::{guarded, main as run, Case, Stage};
use vph::tree::{config, LeafView, Pair, T};

/// The same information in another form.
struct Form {
    d: Data,
    /// row of the original -> row of the new form
    map: Vec<usize>,
    /// per new column: the original column (None: a constant)
    cols: Vec<Option<usize>>,
    /// per original column: value -> new value, by bits of the value (+0 for both zeros)
    values: Vec<HashMap<u64, f64>>,
    constant: f64,
    /// new target -> original target
    targets: Vec<usize>,
    scale: f64,
    /// per original target
    shift: Vec<f64>,
    /// every row occurs this often
    copies: usize,
    names: Vec<&'static str>,
}

fn key(x: f64) -> u64 {
    (x + 0.0).to_bits()
}

impl Form {
    fn row(&self, r: &[f64]) -> Vec<f64> {
        self.cols
            .iter()
            .map(|c| match c {
                None => self.constant,
                Some(c) if self.values[*c].is_empty() => r[*c],
                Some(c) => self.values[*c][&key(r[*c])],
            })
            .collect()
    }
    fn label(&self, l: &[f64]) -> Vec<f64> {
        self.targets.iter().map(|t| l[*t] * self.scale + self.shift[*t]).collect()
    }
}

fn reform(c: &mut Case, d: &Data, probes: &[Vec<f64>], classes: bool) -> Form {
    let (n, cc, k) = (d.n(), d.c(), d.k());
    let mut f = Form {
        d: d.clone(),
        map: (0..n).collect(),
        cols: (0..cc).map(Some).collect(),
        values: vec![HashMap::new(); cc],
        constant: 0.0,
        targets: (0..k).collect(),
        scale: 1.0,
        shift: vec![0.0; k],
        copies: 1,
        names: vec![],
    };
    let only = if c.rng.chance(0.6) { Some(c.rng.below(9)) } else { None };
    // class labels stay one-hot
    let want = |i: usize, c: &mut Case| {
        only.map(|o| o == i).unwrap_or_else(|| c.rng.chance(0.5)) && !(classes && [2, 7, 8].contains(&i))
    };
    if want(8, c) && k <= 64 {
        let m = c.rng.range(2, 3);
        f.targets = (0..k * m).map(|t| if m == 2 { t % k } else { t / m }).collect();
        f.names.push("targets repeated alike");
    }
    if want(0, c) {
        // the new row order: order[p] = original row at position p
        let mut order: Vec<usize> = (0..n).collect();
        match c.rng.below(4) {
            0 => order.reverse(),
            1 => order.rotate_left(n / 2),
            2 => {
                let j = c.rng.below(cc);
                order.sort_by(|a, b| d.rows[*a][j].partial_cmp(&d.rows[*b][j]).unwrap());
            }
            _ => c.rng.shuffle(&mut order),
        }
        for (p, i) in order.iter().enumerate() {
            f.map[*i] = p;
        }
        f.names.push("rows reordered");
    }
    if want(1, c) {
        for j in 0..cc {
            if cc > 1 && c.rng.chance(0.3) {
                continue;
            }
            let mut v: Vec<f64> = d.rows.iter().chain(probes).map(|r| r[j] + 0.0).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.dedup();
            let style = c.rng.below(6);
            let mut x = *c.rng.pick(&[1.0, -1.0, 0.0, 1e12]);
            for (i, o) in v.iter().enumerate() {
                let i = i as f64;
                let y = match style {
                    0 => i,
                    1 => i * 0.1 - 3.0,
                    2 => -1e9 + i,
                    3 => (i * 3.0 - 500.0).max(-1000.0 + i * 1e-3).min(900.0 + i * 1e-3).exp2(),
                    4 => i * i * i + i / 3.0,
                    _ => {
                        x = next_up(x);
                        x
                    }
                };
                f.values[j].insert(key(*o), y);
            }
            let mut ys: Vec<f64> = v.iter().map(|o| f.values[j][&key(*o)]).collect();
            if ys.windows(2).any(|w| !(w[0] < w[1])) {
                // not strictly increasing after rounding: use ranks
                ys.clear();
                for (i, o) in v.iter().enumerate() {
                    f.values[j].insert(key(*o), i as f64);
                }
            }
        }
        f.names.push("features transformed");
    }
    if want(2, c) {
        f.scale = *c.rng.pick(&[2.0, 0.5, 1024.0, 3.0, 0.1, 10.0, 1e6, 1e-6, 0.25, 1.0 / 3.0]);
        f.names.push("labels scaled");
    }
    if want(3, c) {
        match c.rng.below(3) {
            0 => f.targets.reverse(),
            1 => f.targets.rotate_left(1),
            _ => c.rng.shuffle(&mut f.targets),
        }
        f.names.push("targets reordered");
    }
    if want(4, c) {
        f.constant = *c.rng.pick(&[0.0, -7.5, 1e300, 3.0]);
        for _ in 0..c.rng.range(1, 3) {
            let new = if c.rng.chance(0.5) { None } else { Some(c.rng.below(cc)) };
            let at = c.rng.below(f.cols.len() + 1);
            f.cols.insert(at, new);
        }
        f.names.push("columns added");
    }
    if want(5, c) {
        match c.rng.below(3) {
            0 => f.cols.reverse(),
            1 => f.cols.rotate_left(1),
            _ => c.rng.shuffle(&mut f.cols),
        }
        f.names.push("columns reordered");
    }
    if want(6, c) && n <= 400 {
        f.copies = *c.rng.pick(&[2, 2, 3, 4, 7]);
        f.names.push("all rows repeated alike");
    }
    if want(7, c) {
        // whole shifts of whole labels are exact
        let top = d.labels.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
        let unit = if d.whole { 1.0 } else { top * 0.37 };
        for t in 0..k {
            f.shift[t] = unit * *c.rng.pick(&[0.0, 1.0, -1.0, -3.0, 16.0]);
        }
        f.names.push("labels shifted");
    }
    let mut rows = vec![vec![]; n * f.copies];
    let mut labels = vec![vec![]; n * f.copies];
    for i in 0..n {
        for j in 0..f.copies {
            rows[f.map[i] + j * n] = f.row(&d.rows[i]);
            labels[f.map[i] + j * n] = f.label(&d.labels[i]);
        }
    }
    f.d.rows = rows;
    f.d.labels = labels;
    f.d.note = f.names.join(", ");
    f
}

/// Do the two trees test the same original columns everywhere?
fn same_columns(a: &T, b: &T, f: &Form) -> bool {
    match (a, b) {
        (T::Leaf(_), T::Leaf(_)) => true,
        (T::Inner(c1, _, a1, b1), T::Inner(c2, _, a2, b2)) => {
            f.cols[*c2 as usize] == Some(*c1 as usize) && same_columns(a1, a2, f) && same_columns(b1, b2, f)
        }
        _ => false,
    }
}

fn path(t: &T, row: &[f64], out: &mut Vec<bool>) {
    if let T::Inner(c, v, a, b) = t {
        let yes = row[*c as usize] >= *v;
        out.push(yes);
        path(if yes { a } else { b }, row, out);
    }
}

fn leaf_labels(l: &LeafView) -> Vec<Vec<f64>> {
    match l {
        LeafView::Data { labels, .. } => labels.clone(),
        LeafView::Sorted { labels, .. } => labels.clone(),
        _ => panic!("HARNESS-ERROR leaf kind"),
    }
}

fn sorted(mut v: Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

fn judge(c: &mut Case, d: &Data, levels: u32) -> Result<(), String> {
    let probes = gen::probes(&mut c.rng, d, 8);
    let f = reform(c, d, &probes, false);
    let kind: Kind = *c.rng.pick(&KINDS);
    let threads = c.rng.chance(0.2);
    c.describe(format!("{:?} limit {} threads {}\n{}\n{}", kind, levels, threads, d.text(), f.d.text()));
    let (s1, s2) = (d.set(), f.d.set());
    let at = |e: String| format!("{:?} tree, {}: {}", kind, f.d.note, e);
    let t1 = forge::build(kind, &s1, config(d.k(), levels, threads)).map_err(at)?;
    let t2 = forge::build(kind, &s2, config(f.d.k(), levels, threads)).map_err(at)?;
    check_conservation(&t2, &f.d, &s2).map_err(at)?;
    let (c1, c2) = (d.columns(), f.d.columns());
    let mut pair = Pair {
        cols1: &c1,
        labels1: &d.labels,
        cols2: &c2,
        labels2: &f.d.labels,
        map: &f.map,
        copies: f.copies,
        delta1: 0.0,
        delta2: 0.0,
        same_tests: false,
        same: 0,
        ties: 0,
    };
    let all: Vec<usize> = (0..d.n()).collect();
    if f.shift.iter().any(|x| *x != 0.0) {
        // the shifted labels are rounded
        pair.delta2 = f.d.labels.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs())) * 2.0 * EPS;
    }
    let mut leaves = 0;
    let same = pair
        .compare(&t1, &t2, &all, 0, &mut |a, b, _| {
            leaves += 1;
            let want: Vec<Vec<f64>> =
                (0..f.copies).flat_map(|_| leaf_labels(a)).map(|l| f.label(&l)).collect();
            if sorted(want) != sorted(leaf_labels(b)) {
                return Err("corresponding leaves hold different labels".into());
            }
            Ok(())
        })
        .map_err(|e| at(format!("{}\noriginal:\n{}new form:\n{}", e, t1.text(), t2.text())))?;
    c.saw("tree pairs compared", 1);
    c.saw("nodes grouping the rows alike", pair.same);
    c.saw("nodes excused by a tie", pair.ties);
    c.saw("leaf pairs compared", leaves);
    for nm in &f.names {
        c.saw(nm, 1);
    }
    if same {
        c.saw("tree pairs alike throughout", 1);
        if same_columns(&t1, &t2, &f) {
            for r in &probes {
                let (mut p, mut q) = (vec![], vec![]);
                path(&t1, r, &mut p);
                path(&t2, &f.row(r), &mut q);
                if p != q {
                    return Err(at(format!("test row {:?} and its new form {:?} take different paths\n{}{}", r, f.row(r), t1.text(), t2.text())));
                }
                c.saw("test rows followed through both trees", 1);
            }
        }
        if t1.leaves() > 1 {
            c.nontrivial(d.hash() ^ f.d.hash().rotate_left(7) ^ levels as u64);
        }
    }
    if c.idx < 2 {
        c.sample(format!("{} / {}: {} => {}", d.brief(), f.d.note, t1.text().replace('\n', "; "), t2.text().replace('\n', "; ")));
    }
    Ok(())
}

fn any(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::Any, Labels::OneHot]);
    let d = if c.rng.chance(0.25) { gen::needle(&mut c.rng) } else { gen::any(&mut c.rng, want) };
    let l = forge::levels(&mut c.rng, d.n());
    judge(c, &d, l)
}

/// Labels without ties: generic noise on a few features of distinct values.
fn generic(c: &mut Case) -> Result<(), String> {
    let n = *c.rng.pick(&[2, 3, 5, 9, 17, 33, 65, 100]);
    let cc = c.rng.range(1, 6);
    let k = c.rng.range(1, 5);
    let dup = c.rng.chance(0.5);
    let rows: Vec<Vec<f64>> = (0..n)
        .map(|_| (0..cc).map(|_| if dup { c.rng.int(0, 1 + n as i64 / 2) as f64 } else { c.rng.normal() }).collect())
        .collect();
    let labels = (0..n).map(|_| (0..k).map(|_| c.rng.normal()).collect()).collect();
    let d = Data {
        rows,
        labels,
        whole: false,
        note: "generic".into(),
    };
    let l = forge::levels(&mut c.rng, n);
    judge(c, &d, l)
}

fn big(c: &mut Case) -> Result<(), String> {
    let shapes = [(257, 3, 2), (30, 300, 2), (30, 3, 260), (1025, 3, 3), (2100, 4, 2), (520, 5, 3), (300, 2, 40)];
    let (n, cc, k) = shapes[(c.idx % shapes.len() as u64) as usize];
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::data(&mut c.rng, n, cc, k, want);
    judge(c, &d, 6)
}

fn ensemble(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Any, Labels::Whole]);
    let d = if c.rng.chance(0.4) {
        let n = c.rng.range(5, 60);
        let cc = c.rng.range(1, 4);
        let mut d = gen::data(&mut c.rng, n, cc, 2, Labels::Whole);
        for l in d.labels.iter_mut().flatten() {
            *l += c.rng.normal();
        }
        d
    } else {
        gen::any(&mut c.rng, want)
    };
    let f = reform(c, &d, &[], false);
    let levels = *c.rng.pick(&[1, 2, 3, 5]);
    let it = *c.rng.pick(&[1, 2, 3, 5]);
    let lr = *c.rng.pick(&[0.1, 0.5, 1.0]);
    c.describe(format!("limit {} iterations {} learning rate {}\n{}\n{}", levels, it, lr, d.text(), f.d.text()));
    let at = |e: String| format!("{} iterations, {}: {}", it, f.d.note, e);
    let r1 = replay::train(EKind::Reg, &d, levels, false, it, lr).map_err(at)?;
    let r2 = replay::train(EKind::Reg, &f.d, levels, false, it, lr).map_err(at)?;
    let (c1, c2) = (d.columns(), f.d.columns());
    let all: Vec<usize> = (0..d.n()).collect();
    let k = f.targets.len();
    let big = d.labels.iter().flatten().map(|x| x.abs()).fold(1e-300, f64::max);
    let shift = f.shift.iter().map(|x| x.abs()).fold(0.0, f64::max);
    let mut delta = 8.0 * EPS * (big + shift / f.scale) * (f.d.n() as f64 + 10.0);
    for (t, orig) in f.targets.iter().enumerate() {
        let (a, b) = (r1.model.initial_guess()[*orig] * f.scale + f.shift[*orig], r2.model.initial_guess()[t]);
        if !close(a, b, delta * f.scale) {
            return Err(at(format!("initial guess {:?}, in the new form {:?}", a, b)));
        }
    }
    let mut alike = true;
    if let (Some(x), Some(y)) = (&r1.residuals, &r2.residuals) {
        for i in 0..it as usize {
            let mut pair = Pair {
                cols1: &c1,
                labels1: &x[i],
                cols2: &c2,
                labels2: &y[i],
                map: &f.map,
                copies: f.copies,
                delta1: delta,
                delta2: delta * f.scale,
                same_tests: false,
                same: 0,
                ties: 0,
            };
            let slack = delta * f.scale;
            let same = pair
                .compare(&r1.trees[i], &r2.trees[i], &all, 0, &mut |a, b, rows| match (a, b) {
                    (LeafView::Output(a), LeafView::Output(b)) => {
                        for t in 0..k {
                            let w = a[f.targets[t]] * f.scale;
                            if !close(b[t], w, slack) {
                                return Err(format!("a leaf of {} rows holds {:?}, in the new form {:?}", rows.len(), a, b));
                            }
                        }
                        Ok(())
                    }
                    _ => Err("unexpected leaves".into()),
                })
                .map_err(|e| at(format!("tree {}: {}", i, e)))?;
            c.saw("ensemble trees compared", 1);
            c.saw("nodes excused by a tie", pair.ties);
            if !same {
                alike = false;
                break;
            }
            delta *= 1.0 + lr + 0.01;
        }
    } else if d.n() > 1 {
        alike = false;
    }
    if alike {
        for i in 0..d.n() {
            let a = guarded(|| r1.model.predict(&d.rows[i]))?;
            let b = guarded(|| r2.model.predict(&f.d.rows[f.map[i]]))?;
            for t in 0..k {
                if !close(b[t], a[f.targets[t]] * f.scale + f.shift[f.targets[t]], delta * f.scale * (it as f64 + 2.0)) {
                    return Err(at(format!("training row {} is predicted {:?}, in the new form {:?}", i, a, b)));
                }
            }
            c.saw("predictions compared", 1);
        }
        c.saw("ensembles alike throughout", 1);
        if it > 1 && r1.trees.iter().any(|t| t.leaves() > 1) {
            c.nontrivial(d.hash() ^ f.d.hash().rotate_left(9) ^ it as u64);
        }
    }
    Ok(())
}

fn alike(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Leaf(x), T::Leaf(y)) => x == y,
        (T::Inner(_, _, a1, b1), T::Inner(_, _, a2, b2)) => alike(a1, a2) && alike(b1, b2),
        _ => false,
    }
}

/// The classification ensembles, for features replaced by increasing
/// functions of them and constant columns added after the others: nothing
/// that is summed changes, so the leaves must be the same.
fn classes(c: &mut Case) -> Result<(), String> {
    let kind = if c.idx % 2 == 0 { EKind::Multi } else { EKind::Amg };
    let d = gen::any(&mut c.rng, Labels::OneHot);
    let probes = gen::probes(&mut c.rng, &d, 8);
    let mut values = vec![];
    for j in 0..d.c() {
        let mut v: Vec<f64> = d.rows.iter().chain(&probes).map(|r| r[j] + 0.0).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        let (step, off) = (*c.rng.pick(&[1.0, 0.1, 3.0, 1e-3, 1e6]), *c.rng.pick(&[0.0, -50.0, 7.0]));
        let m: HashMap<u64, f64> = v.iter().enumerate().map(|(i, o)| (key(*o), off + step * i as f64)).collect();
        values.push(m);
    }
    let extra = c.rng.below(3);
    let form = |r: &Vec<f64>| -> Vec<f64> {
        let mut v: Vec<f64> = r.iter().enumerate().map(|(j, x)| values[j][&key(*x)]).collect();
        v.extend(vec![2.5; extra]);
        v
    };
    let other = Data {
        rows: d.rows.iter().map(form).collect(),
        labels: d.labels.clone(),
        whole: true,
        note: "features transformed".into(),
    };
    let levels = *c.rng.pick(&[1, 2, 3, 5]);
    let it = *c.rng.pick(&[1, 2, 3, 6]);
    let lr = *c.rng.pick(&[0.1, 0.5, 1.0]);
    let threads = c.rng.chance(0.2);
    c.describe(format!("{:?} limit {} iterations {} learning rate {}\n{}\n{}", kind, levels, it, lr, d.text(), other.text()));
    let a = guarded(|| Model::train(kind, d.set(), config(d.k(), levels, threads), it, lr))?;
    let b = guarded(|| Model::train(kind, other.set(), config(d.k(), levels, threads), it, lr))?;
    let (ta, tb) = (a.trees()?, b.trees()?);
    for (i, (x, y)) in ta.iter().zip(&tb).enumerate() {
        if !alike(x, y) {
            return Err(format!(
                "{:?}: tree {} differs after features were replaced by increasing functions of them\noriginal:\n{}new form:\n{}",
                kind, i, x.text(), y.text()
            ));
        }
        c.saw("trees of classification ensembles compared", 1);
    }
    if ta.len() != tb.len() {
        return Err(format!("{:?}: {} and {} trees", kind, ta.len(), tb.len()));
    }
    for r in d.rows.iter().chain(&probes) {
        let (p, q) = guarded(|| (a.predict(r), b.predict(&form(r))))?;
        if p != q {
            return Err(format!("{:?}: row {:?} is predicted {:?}, in the new form {:?}", kind, r, p, q));
        }
        c.saw("classes predicted in both forms", 1);
    }
    if ta.iter().any(|t| t.leaves() > 1) {
        c.nontrivial(d.hash() ^ it as u64 ^ (levels as u64) << 20);
    }
    Ok(())
}

/// The classification ensembles under the forms that keep labels one-hot;
/// sums are taken in another order, so leaf values agree only as far as their
/// conditioning allows.
fn class_forms(c: &mut Case) -> Result<(), String> {
    let kind = if c.idx % 2 == 0 { EKind::Multi } else { EKind::Amg };
    let d = if c.rng.chance(0.6) {
        // overlapping classes, so that leaves stay mixed
        let (n, cc, k) = (c.rng.range(8, 80), c.rng.range(1, 5), c.rng.range(2, 5));
        let noise = *c.rng.pick(&[0.5, 1.5, 4.0]);
        let rows: Vec<Vec<f64>> = (0..n).map(|_| (0..cc).map(|_| c.rng.normal()).collect()).collect();
        let labels = rows
            .iter()
            .map(|r| {
                let x = (r[0] + r[cc - 1] + noise * c.rng.normal() + 2.0).max(0.0);
                let mut l = vec![0.0; k];
                l[(x as usize).min(k - 1)] = 1.0;
                l
            })
            .collect();
        Data { rows, labels, whole: true, note: "overlapping classes".into() }
    } else {
        gen::any(&mut c.rng, Labels::OneHot)
    };
    let probes = gen::probes(&mut c.rng, &d, 8);
    let f = reform(c, &d, &probes, true);
    let levels = *c.rng.pick(&[0, 1, 2, 3, 5]);
    let it = *c.rng.pick(&[1, 2, 3, 6, 15]);
    let lr = *c.rng.pick(&[0.1, 0.3, 0.5, 1.0]);
    let threads = c.rng.chance(0.2);
    c.describe(format!("{:?} limit {} iterations {} learning rate {}\n{}\n{}", kind, levels, it, lr, d.text(), f.d.text()));
    let at = |e: String| format!("{:?}, {} iterations, {}: {}", kind, it, f.d.note, e);
    let r1 = replay::train(kind, &d, levels, threads, it, lr).map_err(at)?;
    let r2 = replay::train(kind, &f.d, levels, threads, it, lr).map_err(at)?;
    if r1.trees.len() != r2.trees.len() {
        return Err(at(format!("{} and {} trees", r1.trees.len(), r2.trees.len())));
    }
    let (x, y) = match (&r1.residuals, &r2.residuals) {
        (Some(x), Some(y)) => (x, y),
        _ => return Ok(()),
    };
    let (c1, c2) = (d.columns(), f.d.columns());
    let all: Vec<usize> = (0..d.n()).collect();
    let k = d.k();
    let kf = k as f64;
    let (mut drift, mut size) = (16.0 * EPS, 1.0f64);
    let mut alike = true;
    let mut compared = 0;
    for i in 0..r1.trees.len() {
        let delta = drift + 16.0 * EPS * size;
        if delta > 1e-6 {
            c.saw("class ensembles followed until rounding dominates", 1);
            alike = false;
            break;
        }
        for r in 0..d.n() {
            for t in 0..k {
                let (a, b) = (x[i][r][f.targets[t]], y[i][f.map[r]][t]);
                if !close(a, b, 2.0 * delta) {
                    return Err(at(format!("tree {}: row {} has residual {:?}, in the new form {:?}", i, r, a, b)));
                }
            }
        }
        let mut pair = Pair {
            cols1: &c1,
            labels1: &x[i],
            cols2: &c2,
            labels2: &y[i],
            map: &f.map,
            copies: f.copies,
            delta1: 2.0 * delta,
            delta2: 2.0 * delta,
            same_tests: false,
            same: 0,
            ties: 0,
        };
        let (mut worst, mut top, mut torn) = (0.0f64, 0.0f64, false);
        let same = pair
            .compare(&r1.trees[i], &r2.trees[i], &all, 0, &mut |a, b, rows| {
                let m = rows.len() as f64;
                let mine: Vec<&Vec<f64>> = rows.iter().map(|r| &x[i][*r]).collect();
                let (num, den) = replay::num_den(&mine);
                let slip = m * (4.0 * delta + (16.0 + m * f.copies as f64) * EPS);
                // per original class: what the leaf value may differ by
                let allow: Vec<f64> = (0..k)
                    .map(|t| {
                        let low = den[t] - slip;
                        if low <= 0.0 {
                            f64::INFINITY
                        } else {
                            slip / low + (num[t].abs() + slip) * slip / (low * low)
                        }
                    })
                    .collect();
                match (a, b) {
                    (LeafView::Output(a), LeafView::Output(b)) => {
                        for t in 0..k {
                            let o = f.targets[t];
                            if !close(b[t], a[o], allow[o]) && allow[o].is_finite() {
                                return Err(format!("a leaf of {} rows holds {:?}, in the new form {:?} (allowance {:e})", rows.len(), a, b, allow[o]));
                            }
                            top = top.max(a[o].abs());
                            worst = worst.max(allow[o]);
                        }
                    }
                    (LeafView::Amg(v, cl), LeafView::Amg(w, cm)) => {
                        if *cm >= k || *cl >= k {
                            return Err(format!("a leaf holds class {}, in the new form {}, of {}", cl, cm, k));
                        }
                        let o = f.targets[*cm];
                        if allow.iter().any(|a| !a.is_finite()) {
                            // some class has no reliable value
                            worst = f64::INFINITY;
                            return Ok(());
                        }
                        let exact = (kf - 1.0) / kf * num[o] / den[o];
                        if o != *cl && (exact - v).abs() > 2.0 * (allow[o] + allow[*cl]) {
                            return Err(format!(
                                "a leaf of {} rows holds {:?} for class {}, in the new form {:?} for class {} (class {} of the original, whose value is {:?})",
                                rows.len(), v, cl, w, cm, o, exact
                            ));
                        }
                        if !close(*v, *w, allow[o] + allow[*cl]) {
                            return Err(format!("a leaf of {} rows holds {:?}, in the new form {:?} (allowance {:e})", rows.len(), v, w, allow[o]));
                        }
                        torn |= o != *cl;
                        top = top.max(v.abs());
                        worst = worst.max(allow[o] + allow[*cl]);
                    }
                    _ => return Err("unexpected leaves".into()),
                }
                Ok(())
            })
            .map_err(|e| at(format!("tree {}: {}\noriginal:\n{}new form:\n{}", i, e, r1.trees[i].text(), r2.trees[i].text())))?;
        c.saw("trees of class ensembles compared between forms", 1);
        c.saw("nodes grouping the rows alike", pair.same);
        c.saw("nodes excused by a tie", pair.ties);
        compared += 1;
        if !same || torn {
            alike = false;
            break;
        }
        size += lr * top;
        drift += lr * worst + 4.0 * EPS * size;
    }
    for nm in &f.names {
        c.saw(nm, 1);
    }
    if alike {
        for i in 0..d.n() {
            let w = vph::ens::want(&r1.model, &r1.trees, &d.rows[i]);
            let mut s = w.score.clone();
            s.sort_by(|a, b| b.total_cmp(a));
            if s[0] - s[1] <= 4.0 * drift + 2.0 * w.tol.iter().cloned().fold(0.0, f64::max) {
                continue;
            }
            let (a, b) = guarded(|| (r1.model.predict(&d.rows[i]), r2.model.predict(&f.d.rows[f.map[i]])))?;
            if (0..k).any(|t| b[t] != a[f.targets[t]]) {
                return Err(at(format!("training row {} is predicted {:?}, in the new form {:?}", i, a, b)));
            }
            c.saw("classes predicted in both forms", 1);
        }
        c.saw("class ensembles alike throughout", 1);
    }
    if compared > 1 && r1.trees.iter().any(|t| t.leaves() > 1) {
        c.nontrivial(d.hash() ^ f.d.hash().rotate_left(11) ^ it as u64);
    }
    Ok(())
}

/// Rows, features and targets over all orders of magnitude.
fn sized(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::sized(&mut c.rng, 150_000, want);
    let l = c.rng.range(1, 4) as u32;
    judge(c, &d, l)
}

/// Very many rows, features or targets.
fn huge(c: &mut Case) -> Result<(), String> {
    let w = c.idx;
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::huge(&mut c.rng, w, want);
    let l = c.rng.range(1, 3) as u32;
    judge(c, &d, l)
}

fn main() {
    run(
        "C18",
        "cases: a data set and the same information in another form (rows, columns or targets reordered, all rows repeated alike, features replaced by increasing functions of them, labels scaled or shifted, constant or repeated columns added, alone or combined), both learned and the two trees walked together; non-trivial: the trees split and agree throughout; distinct by both data sets and limit",
        &["finite data", "below a node where two different splits (or a split and none) tie up to rounding in either form nothing is compared"],
        vec![
            Stage::new("any", any, (10_000, 300_000), (40, 400)),
            Stage::new("generic", generic, (10_000, 300_000), (40, 400)),
            Stage::new("ensemble", ensemble, (6_000, 80_000), (30, 300)),
            Stage::new("classes", classes, (3_000, 40_000), (20, 150)),
            Stage::new("class-forms", class_forms, (3_000, 60_000), (25, 250)),
            Stage::new("big", big, (42, 400), (30, 300)),
            Stage::new("sized", sized, (200, 3000), (25, 150)),
            Stage::new("huge", huge, (24, 240), (30, 150)),
        ],
    )
}
