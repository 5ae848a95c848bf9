//! C08: column and sorted views.
use common::data_processor::{create_dataset_with_sorted_features, new_partition};
use common::data_reader::{create_feature_columns, read_csv_data_multi_target, read_csv_data_one_hot_multi_target};
use common::datasets::MultiTargetDataSet;
use common::feature_sorter::get_sorted_feature_tuple_vector;
use common::question::Question;
use common::results::BestSplitResult;
use multi_target_decision_tree::data_partitioner::partition;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use vph::ens::{EKind, Model, EKINDS};
use vph::forge::{self, Kind, KINDS};
use vph::gen::{self, Data, Labels};
use vph::run::{guarded, main as run, Case, Stage};
use vph::tree::{config_with, find_best_split, LeafView, T};

fn sorted_ok(col: &[f64], got: &[(f64, usize)]) -> Result<(), String> {
    if got.len() != col.len() {
        return Err(format!("{} entries for {} values", got.len(), col.len()));
    }
    let mut want: Vec<(f64, usize)> = col.iter().cloned().enumerate().map(|(i, v)| (v, i)).collect();
    // stable by value; rows in order among equal values (0.0 equals -0.0)
    want.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal).then(a.1.cmp(&b.1)));
    for (p, (g, w)) in got.iter().zip(&want).enumerate() {
        if g.0.to_bits() != w.0.to_bits() || g.1 != w.1 {
            return Err(format!("position {} holds {:?}, expected {:?} ({} values)", p, g, w, col.len()));
        }
    }
    Ok(())
}

fn judge(c: &mut Case, d: &Data) -> Result<(), String> {
    c.describe(d.text());
    let rows = d.rows.clone();
    let cols = guarded(|| create_feature_columns(&rows))?;
    if rows != d.rows {
        return Err("create_feature_columns altered the rows".into());
    }
    if cols.len() != d.c() {
        return Err(format!("{} columns, expected {}", cols.len(), d.c()));
    }
    for j in 0..d.c() {
        if cols[j].len() != d.n() || (0..d.n()).any(|i| cols[j][i].to_bits() != d.rows[i][j].to_bits()) {
            return Err(format!("column {} is not the transpose of the rows", j));
        }
    }
    c.saw("column views compared", 1);
    let set = d.set();
    let s = guarded(|| create_dataset_with_sorted_features(&set))?;
    if s.labels.len() != d.n() || s.labels.iter().zip(&set.labels).any(|(a, b)| !std::ptr::eq(*a, b)) {
        return Err("the pre-sorted form does not refer to the original labels in row order".into());
    }
    if s.sorted_feature_columns.len() != d.c() {
        return Err(format!("{} sorted columns of {}", s.sorted_feature_columns.len(), d.c()));
    }
    let mut repeats = false;
    for j in 0..d.c() {
        let col = &set.feature_columns[j];
        sorted_ok(col, &s.sorted_feature_columns[j]).map_err(|e| format!("pre-sorted column {}: {}", j, e))?;
        let before = col.clone();
        let alone = guarded(|| get_sorted_feature_tuple_vector(col))?;
        sorted_ok(&before, &alone).map_err(|e| format!("sorted column {}: {}", j, e))?;
        repeats |= alone.windows(2).any(|w| w[0].0 == w[1].0);
        c.saw("sorted columns compared", 2);
        c.saw("values in them", 2 * col.len() as u64);
    }
    if set.feature_rows != d.rows || set.labels != d.labels {
        return Err("sorting altered the data set".into());
    }
    if repeats {
        c.saw("data sets with repeated values", 1);
    }
    if d.n() > 1 {
        c.nontrivial(d.hash());
    }
    if c.idx < 2 {
        c.sample(format!("{} => first sorted column {:?}", d.brief(), s.sorted_feature_columns[0].iter().take(8).collect::<Vec<_>>()));
    }
    Ok(())
}

fn any(c: &mut Case) -> Result<(), String> {
    let d = gen::any(&mut c.rng, Labels::Any);
    judge(c, &d)
}
fn big(c: &mut Case) -> Result<(), String> {
    let w = c.idx;
    let d = gen::big(&mut c.rng, w, Labels::Whole);
    judge(c, &d)
}
/// The columns of a data set are the transpose of its rows.
fn transposed(rows: &[Vec<f64>], cols: &[Vec<f64>]) -> Result<(), String> {
    if rows.is_empty() {
        return if cols.iter().all(|c| c.is_empty()) { Ok(()) } else { Err("columns without rows".into()) };
    }
    if cols.len() != rows[0].len() {
        return Err(format!("{} columns, the rows have {} values", cols.len(), rows[0].len()));
    }
    for (j, col) in cols.iter().enumerate() {
        if col.len() != rows.len() || (0..rows.len()).any(|i| col[i].to_bits() != rows[i][j].to_bits()) {
            return Err(format!("column {} of {} is not the transpose of the {} rows", j, cols.len(), rows.len()));
        }
    }
    Ok(())
}

/// A sorted view of some rows: ascending, rows in order among equal values.
fn view_sorted(cols: &[Vec<(f64, usize)>], d: &Data, m: usize) -> Result<(), String> {
    for (j, col) in cols.iter().enumerate() {
        if col.len() != m {
            return Err(format!("sorted column {} lists {} of {} rows", j, col.len(), m));
        }
        for (v, i) in col {
            if *i >= d.n() || v.to_bits() != d.rows[*i][j].to_bits() {
                return Err(format!("sorted column {} pairs row {} with {:?}", j, i, v));
            }
        }
        for w in col.windows(2) {
            if !(w[0].0 < w[1].0 || (w[0].0 == w[1].0 && w[0].1 < w[1].1)) {
                return Err(format!("sorted column {} lists {:?} before {:?}", j, w[0], w[1]));
            }
        }
    }
    Ok(())
}

static SEARCHES: AtomicU64 = AtomicU64::new(0);
static WRONG: Mutex<Option<String>> = Mutex::new(None);

/// The project's own search; on the way in, the views are compared.
fn watching(d: &MultiTargetDataSet, k: u32) -> BestSplitResult {
    SEARCHES.fetch_add(1, SeqCst);
    if let Err(e) = transposed(&d.feature_rows, &d.feature_columns) {
        *WRONG.lock().unwrap_or_else(|e| e.into_inner()) = Some(e);
    }
    find_best_split(d, k)
}

fn leaves(t: &T, d: &Data) -> Result<u64, String> {
    Ok(match t {
        T::Leaf(LeafView::Data { rows, cols, .. }) => {
            transposed(rows, cols)?;
            1
        }
        T::Leaf(LeafView::Sorted { cols, labels, .. }) => {
            view_sorted(cols, d, labels.len())?;
            1
        }
        T::Leaf(_) => 0,
        T::Inner(_, _, a, b) => leaves(a, d)? + leaves(b, d)?,
    })
}

/// The views of the parts a data set is divided into: partitions, the data
/// sets given to the split search while learning, leaves.
fn parts(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::OneHot]);
    let d = if c.idx % 16 == 15 { gen::sized(&mut c.rng, 60_000, want) } else { gen::any(&mut c.rng, want) };
    c.describe(d.text());
    let set = d.set();
    for _ in 0..2 {
        let j = c.rng.below(d.c());
        let v = d.rows[c.rng.below(d.n())][j];
        let q = Question::new(j as u32, v);
        let at = |e: String| format!("partition at feature {} >= {:?}: {}", j, v, e);
        let (f, t) = guarded(|| partition(&set, &q))?;
        for s in [&f, &t] {
            transposed(&s.feature_rows, &s.feature_columns).map_err(at)?;
        }
        let sorted = guarded(|| create_dataset_with_sorted_features(&set))?;
        let all: Vec<&Vec<f64>> = set.labels.iter().collect();
        let (f, t) = guarded(|| new_partition(&sorted, j, v, &all))?;
        for s in [&f, &t] {
            view_sorted(&s.sorted_feature_columns, &d, s.labels.len()).map_err(at)?;
        }
        c.saw("views of partitions compared", 4);
    }
    WRONG.lock().unwrap_or_else(|e| e.into_inner()).take();
    let before = SEARCHES.load(SeqCst);
    let levels = *c.rng.pick(&[1, 2, 3, 5]);
    let kind: Kind = *c.rng.pick(&KINDS);
    let t = forge::build(kind, &set, config_with(d.k(), levels, false, watching))?;
    c.saw("views of leaves compared", leaves(&t, &d).map_err(|e| format!("{:?} tree, limit {}: a leaf: {}", kind, levels, e))?);
    let ens = if want == Labels::OneHot { *c.rng.pick(&EKINDS) } else { EKind::Reg };
    guarded(|| Model::train(ens, set.clone(), config_with(d.k(), levels, false, watching), 2, 0.5))?;
    if let Some(e) = WRONG.lock().unwrap_or_else(|e| e.into_inner()).take() {
        return Err(format!("a data set given to the split search ({:?} tree, {:?} ensemble, limit {}): {}", kind, ens, levels, e));
    }
    c.saw("views at split searches compared", SEARCHES.load(SeqCst) - before);
    if t.leaves() > 1 {
        c.nontrivial(d.hash() ^ levels as u64);
    }
    Ok(())
}

/// The column views of data sets read from files.
fn files(c: &mut Case) -> Result<(), String> {
    let d = if c.idx % 16 == 15 { gen::sized(&mut c.rng, 60_000, Labels::OneHot) } else { gen::any(&mut c.rng, Labels::OneHot) };
    c.describe(d.text());
    let dir = match std::env::var("VPH_SCRATCH") {
        Ok(s) => std::path::PathBuf::from(s),
        Err(_) => vph::run::fail("VPH_SCRATCH is not set"),
    };
    let line = |v: &[f64]| v.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(",") + "\n";
    let head = |n: usize| (0..n).map(|i| format!("f{}", i)).collect::<Vec<_>>().join(",") + "\n";
    let (mut one, mut fs, mut ls) = (head(d.c() + 1), head(d.c()), head(d.k()));
    for (r, l) in d.rows.iter().zip(&d.labels) {
        let class = l.iter().position(|x| *x == 1.0).unwrap_or(0);
        one += &line(&r.iter().cloned().chain([class as f64]).collect::<Vec<_>>());
        fs += &line(r);
        ls += &line(l);
    }
    let paths: Vec<String> = [one, fs, ls]
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let p = dir.join(format!("views-{}-{}.csv", c.idx, i));
            if let Err(e) = std::fs::write(&p, s) {
                vph::run::fail(&format!("cannot write {}: {}", p.display(), e));
            }
            p.to_string_lossy().to_string()
        })
        .collect();
    let got = guarded(|| (read_csv_data_one_hot_multi_target(&paths[0], d.k()), read_csv_data_multi_target(&paths[1], &paths[2])));
    for p in &paths {
        let _ = std::fs::remove_file(p);
    }
    let (a, b) = got?;
    for (what, s) in [("one-hot file", &a), ("feature and label files", &b)] {
        if s.feature_rows != d.rows {
            return Err(format!("{}: the rows are not those of the file", what));
        }
        transposed(&s.feature_rows, &s.feature_columns).map_err(|e| format!("{}: {}", what, e))?;
        c.saw("column views of loaded files compared", 1);
    }
    if d.n() > 1 {
        c.nontrivial(d.hash());
    }
    Ok(())
}

/// One column of any length, in orders that stress a sort.
fn column(c: &mut Case) -> Result<(), String> {
    let r = &mut c.rng;
    let n = match r.below(6) {
        0 => r.range(0, 4),
        1 => r.range(15, 70),
        2 => *r.pick(&[127, 128, 129, 255, 256, 257, 511, 512, 513]),
        3 => r.range(1000, 5000),
        4 => *r.pick(&[65_535, 65_536, 65_537, 70_000]),
        _ => r.range(5, 40),
    };
    let special = [0.0, -0.0, f64::MAX, f64::MIN, f64::from_bits(1), -f64::from_bits(1), f64::MIN_POSITIVE, 1.0, -1.0];
    let m = r.range(1, 40) as i64;
    let kind = r.below(7);
    let v: Vec<f64> = (0..n)
        .map(|i| match kind {
            0 => r.int(-m, m) as f64,
            1 => *r.pick(&special),
            2 => i as f64,
            3 => -(i as f64),
            4 => (i % 17) as f64 - 8.0,
            5 => r.normal() * 1e-9 + 1.0,
            _ => f64::from_bits(r.u64()),
        })
        .map(|x| if x.is_finite() { x } else { 0.5 })
        .collect();
    c.describe(format!("{:?}", v));
    let before = v.clone();
    let got = guarded(|| get_sorted_feature_tuple_vector(&v))?;
    sorted_ok(&before, &got)?;
    c.saw("sorted columns compared", 1);
    c.saw("values in them", n as u64);
    if n > 1 {
        let mut h = 2;
        v.iter().for_each(|x| vph::rng::fnv(&mut h, x.to_bits()));
        c.nontrivial(h);
    }
    Ok(())
}

/// Rows, features and targets over all orders of magnitude.
fn sized(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::sized(&mut c.rng, 400_000, want);
    judge(c, &d)
}

fn main() {
    run(
        "C08",
        "cases: generated data sets and single columns of 0 to 70000 values (repeats, both zeros, subnormals, random bit patterns, sorted, reversed, periodic), the parts data sets are divided into while learning, and files; non-trivial: more than one row; distinct by the bits of the data",
        &["finite values"],
        vec![
            Stage::new("column", column, (8_000, 80_000), (40, 200)),
            Stage::new("any", any, (30_000, 400_000), (40, 300)),
            Stage::new("parts", parts, (1_500, 20_000), (30, 250)).serial(),
            Stage::new("files", files, (2_000, 25_000), (20, 150)),
            Stage::new("big", big, (36, 400), (40, 200)),
            Stage::new("sized", sized, (400, 6000), (25, 150)),
        ],
    )
}
