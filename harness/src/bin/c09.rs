//! C09: CSV loading is faithful and rejects malformed rows.
use common::data_reader::{
    get_feature_names, read_csv_data, read_csv_data_multi_target, read_csv_data_one_hot_multi_target,
};
use std::path::PathBuf;
use vph::oracle::same_bits;
use vph::rng::{fnv, Rng};
use vph::run::{guarded, main as run, Case, Stage};

fn scratch() -> PathBuf {
    match std::env::var("VPH_SCRATCH") {
        Ok(s) => PathBuf::from(s),
        Err(_) => vph::run::fail("VPH_SCRATCH is not set"),
    }
}

fn number(r: &mut Rng) -> String {
    match r.below(15) {
        0 => format!("{}", r.int(-20, 20)),
        1 => format!("{:?}", r.normal()),
        2 => format!("{:e}", r.normal() * 1e10),
        3 => format!("{:.3}", r.normal() * 100.0),
        4 => format!("{:E}", r.normal() * 1e-200),
        5 => format!("{:?}", f64::from_bits(r.u64() & 0x7fdf_ffff_ffff_ffff)),
        6 => format!("-{}", r.unit()),
        7 => format!("{:05}", r.int(0, 999)),
        8 => format!("+{}", r.int(0, 999)),
        9 => r.pick(&["0", "-0", "0.0", "-0.0", ".5", "5.", "1e3", "1E+3", "2e-3", "1e308", "4.9e-324", "9007199254740993", "0.1", "16777217", "1.7976931348623157e308", "123456789012345678901234567890"]).to_string(),
        10 => format!("{}", r.int(-3_000_000_000, 9_000_000_000)),
        11 => format!("{}.{}", r.int(0, 9), "3".repeat(r.range(1, 40))),
        12 => lengthy(r),
        _ => format!("{}", r.normal()),
    }
}

/// Numbers written with very many characters, where the last ones matter.
fn lengthy(r: &mut Rng) -> String {
    let z = r.range(20, 700);
    let (a, b) = (r.int(1, 999), r.int(-30, 30));
    match r.below(5) {
        0 => format!("{}{}e{}", "0".repeat(z), a, b),
        1 => format!("{}{}e-{}", a, "0".repeat(z), z),
        2 => format!("-0.{}{}e{}", "0".repeat(z), a, z),
        3 => format!("{:.*}", z, r.normal() * 1e-8),
        _ => format!("{}.{}e{}", a, "0".repeat(z), b),
    }
}

#[derive(Clone)]
struct Table {
    header: Vec<String>,
    cells: Vec<Vec<String>>,
}

struct Style {
    crlf: bool,
    last_newline: bool,
    quote: f64,
}

fn style(r: &mut Rng) -> Style {
    Style {
        crlf: r.chance(0.3),
        last_newline: r.chance(0.7),
        quote: *r.pick(&[0.0, 0.0, 0.1, 1.0]),
    }
}

fn quoted(s: &str) -> String {
    format!("\"{}\"", s.replace('"', "\"\""))
}

fn text(t: &Table, st: &Style, r: &mut Rng) -> String {
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let mut lines = vec![];
    lines.push(
        t.header
            .iter()
            .map(|h| {
                let must = h.contains(|c| c == ',' || c == '"' || c == '\n' || c == '\r');
                if must || (t.header.len() == 1 && h.is_empty()) || r.chance(st.quote) {
                    quoted(h)
                } else {
                    h.clone()
                }
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    for row in &t.cells {
        lines.push(
            row.iter()
                .map(|x| {
                    let must = x.contains(',') || (row.len() == 1 && x.is_empty());
                    if must || r.chance(st.quote) {
                        quoted(x)
                    } else {
                        x.clone()
                    }
                })
                .collect::<Vec<_>>()
                .join(","),
        );
    }
    let mut s = lines.join(nl);
    if st.last_newline {
        s.push_str(nl);
    }
    s
}

fn names(r: &mut Rng, n: usize) -> Vec<String> {
    let plain = r.chance(0.5);
    (0..n)
        .map(|i| {
            if plain {
                return format!("f{}", i);
            }
            match r.below(8) {
                0 => "sepal length (cm)".to_string(),
                1 => format!("a,b{}", i),
                2 => "say \"x\"".to_string(),
                3 => "größe µ 漢字".to_string(),
                4 => "same".to_string(),
                5 => r.pick(&[" padded ", "# id", "#", ";x", "// c", "", "\t", "1.5", "nan"]).to_string(),
                6 => format!("{}", i),
                _ => format!("Col_{}", i),
            }
        })
        .collect()
}

fn table(r: &mut Rng, cols: usize, rows: usize) -> Table {
    let dup = r.chance(0.2);
    let mut cells: Vec<Vec<String>> = vec![];
    for _ in 0..rows {
        if dup && !cells.is_empty() && r.chance(0.4) {
            let i = r.below(cells.len());
            cells.push(cells[i].clone());
        } else {
            cells.push((0..cols).map(|_| number(r)).collect());
        }
    }
    Table {
        header: names(r, cols),
        cells,
    }
}

fn size(r: &mut Rng) -> (usize, usize) {
    match r.below(20) {
        0 => (r.range(200, 2000), r.range(1, 5)),
        4 => {
            let w = r.span(300);
            (r.span((20_000 / w).max(1)), w)
        }
        1 => (r.range(1, 20), r.range(100, 600)),
        2 => (1, 1),
        3 => (1, r.range(1, 6)),
        _ => (r.range(1, 40), r.range(1, 9)),
    }
}

struct Files(Vec<PathBuf>);
impl Files {
    fn put(&mut self, c: &Case, tag: &str, s: &str) -> String {
        let p = scratch().join(format!("{}-{}-{}-{}.csv", c.stage, c.idx, tag, self.0.len()));
        if let Err(e) = std::fs::write(&p, s) {
            vph::run::fail(&format!("cannot write {}: {}", p.display(), e));
        }
        self.0.push(p.clone());
        p.to_string_lossy().to_string()
    }
}
impl Drop for Files {
    fn drop(&mut self) {
        for p in &self.0 {
            let _ = std::fs::remove_file(p);
        }
    }
}

fn parsed(t: &Table) -> Vec<Vec<f64>> {
    t.cells
        .iter()
        .map(|r| r.iter().map(|x| x.parse::<f64>().expect("HARNESS-ERROR number")).collect())
        .collect()
}

fn same_rows(what: &str, got: &[Vec<f64>], want: &[Vec<f64>]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: {} records loaded, the file has {}", what, got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if !same_bits(g, w) {
            return Err(format!("{}: record {} loaded as {:?}, the file says {:?}", what, i, &g[..g.len().min(30)], &w[..w.len().min(30)]));
        }
    }
    Ok(())
}

fn transposed(what: &str, cols: &[Vec<f64>], rows: &[Vec<f64>]) -> Result<(), String> {
    let cc = rows.first().map(|r| r.len()).unwrap_or(0);
    if cols.len() != cc {
        return Err(format!("{}: {} columns, rows have {}", what, cols.len(), cc));
    }
    for j in 0..cc {
        if cols[j].len() != rows.len() || (0..rows.len()).any(|i| cols[j][i].to_bits() != rows[i][j].to_bits()) {
            return Err(format!("{}: column {} is not the transpose of the rows", what, j));
        }
    }
    Ok(())
}

fn hash(s: &str) -> u64 {
    let mut h = 1;
    s.bytes().for_each(|b| fnv(&mut h, b as u64));
    h
}

fn well_formed(c: &mut Case) -> Result<(), String> {
    let mut files = Files(vec![]);
    let (n, w) = size(&mut c.rng);
    let st = style(&mut c.rng);
    // one file, last field is the label
    let t = table(&mut c.rng, w + 1, n);
    let s = text(&t, &st, &mut c.rng);
    c.describe(s.clone());
    let path = files.put(c, "single", &s);
    let want = parsed(&t);
    let d = guarded(|| read_csv_data(&path)).map_err(|e| format!("a well-formed file is rejected: {}", e))?;
    let feats: Vec<Vec<f64>> = want.iter().map(|r| r[..w].to_vec()).collect();
    let labels: Vec<f64> = want.iter().map(|r| r[w]).collect();
    same_rows("features", &d.features, &feats)?;
    if !same_bits(&d.labels, &labels) {
        return Err(format!("labels loaded as {:?}, the file says {:?}", &d.labels[..d.labels.len().min(30)], &labels[..labels.len().min(30)]));
    }
    let nm = guarded(|| get_feature_names(&path))?;
    if nm != t.header {
        return Err(format!("header read as {:?}, the file says {:?}", nm, t.header));
    }
    c.saw("files loaded and compared", 1);
    c.saw("records compared", n as u64);
    c.nontrivial(hash(&s));
    if c.idx < 2 {
        c.sample(format!("{:?}", vph::run::clip(&s, 400)));
    }
    // one-hot
    let k = if c.rng.chance(0.1) { *c.rng.pick(&[255, 256, 257, 300]) } else { c.rng.range(1, 12) };
    let mut t = t;
    let classes: Vec<usize> = (0..n)
        .map(|i| if i == 0 { k - 1 } else { c.rng.below(k) })
        .collect();
    for (r, cl) in t.cells.iter_mut().zip(&classes) {
        r[w] = match c.rng.below(3) {
            0 => format!("{}.0", cl),
            1 => format!("{:e}", *cl as f64),
            _ => format!("{}", cl),
        };
    }
    let s = text(&t, &st, &mut c.rng);
    c.describe(s.clone());
    let path = files.put(c, "onehot", &s);
    let d = guarded(|| read_csv_data_one_hot_multi_target(&path, k))
        .map_err(|e| format!("a well-formed file is rejected: {}", e))?;
    same_rows("features", &d.feature_rows, &feats)?;
    transposed("one-hot data set", &d.feature_columns, &feats)?;
    if d.labels.len() != n {
        return Err(format!("{} labels for {} records", d.labels.len(), n));
    }
    for (i, l) in d.labels.iter().enumerate() {
        let mut v = vec![0.0; k];
        v[classes[i]] = 1.0;
        if *l != v {
            return Err(format!("record {}: class {} of {} encoded as {:?}", i, classes[i], k, l));
        }
    }
    c.saw("one-hot files compared", 1);
    // two files
    let lw = c.rng.range(1, 12);
    let tf = table(&mut c.rng, w, n);
    let tl = table(&mut c.rng, lw, n);
    let st2 = style(&mut c.rng);
    let sf = text(&tf, &st, &mut c.rng);
    let sl = text(&tl, &st2, &mut c.rng);
    c.describe(format!("{}\n----\n{}", sf, sl));
    let pf = files.put(c, "features", &sf);
    let pl = files.put(c, "labels", &sl);
    let d = guarded(|| read_csv_data_multi_target(&pf, &pl))
        .map_err(|e| format!("a well-formed pair of files is rejected: {}", e))?;
    let (wf, wl) = (parsed(&tf), parsed(&tl));
    same_rows("features", &d.feature_rows, &wf)?;
    same_rows("labels", &d.labels, &wl)?;
    transposed("multi-target data set", &d.feature_columns, &wf)?;
    c.saw("feature/label file pairs compared", 1);
    Ok(())
}

const BAD: [&str; 44] = [
    "abc", "", "1.5x", "0x10", "1 2", "--3", "1,5", "1.2.3", "e5", "-", "+", ".", "1e", "five", "?", "NA", "1_000", "12a",
    "#", "#3", "# 1.5", ";", ";2", "//", "//4", "%", "%5", "!6", "'7'", "'", "\\N", "\\", "*", "(8)", "$9", "10%", "true", "null", "None", "1f", "1.0f64", "٣", "−1", "1d3",
];

/// Breaks one record in one place; every reader must refuse.
fn malformed(c: &mut Case) -> Result<(), String> {
    let mut files = Files(vec![]);
    let (n, w) = size(&mut c.rng);
    let n = n.min(60);
    let st = style(&mut c.rng);
    let k = c.rng.range(2, 6);
    let mut t = table(&mut c.rng, w + 1, n);
    for r in t.cells.iter_mut() {
        r[w] = format!("{}", c.rng.below(k));
    }
    let at = match c.rng.below(3) {
        0 => 0,
        1 => n - 1,
        _ => c.rng.below(n),
    };
    let pos = match c.rng.below(3) {
        0 => 0,
        1 => w,
        _ => c.rng.below(w + 1),
    };
    let kind = c.rng.below(4);
    let what = match kind {
        0 => {
            t.cells[at].remove(pos);
            "a missing field"
        }
        1 => {
            let x = if c.rng.chance(0.2) { String::new() } else { number(&mut c.rng) };
            t.cells[at].insert(pos, x);
            "an extra field"
        }
        2 => {
            t.cells[at][pos] = c.rng.pick(&BAD).to_string();
            "a non-numeric field"
        }
        _ => {
            t.cells[at][w] = format!("{}", k as i64 + c.rng.int(0, 300));
            "a class label beyond the number of classes"
        }
    };
    if t.cells[at].is_empty() || (t.cells[at].len() == 1 && t.cells[at][0].is_empty() && kind != 2) {
        return Ok(());
    }
    let s = text(&t, &st, &mut c.rng);
    c.describe(s.clone());
    let path = files.put(c, "bad", &s);
    let r = guarded(|| read_csv_data_one_hot_multi_target(&path, k));
    if let Ok(d) = r {
        return Err(format!(
            "one-hot reader: record {} with {} (position {}) is accepted: {} rows, row {:?} label {:?}",
            at, what, pos, d.feature_rows.len(),
            d.feature_rows.get(at), d.labels.get(at)
        ));
    }
    c.saw("malformed records refused", 1);
    c.nontrivial(hash(&s));
    if kind < 3 {
        if let Ok(d) = guarded(|| read_csv_data(&path)) {
            return Err(format!(
                "single-label reader: record {} with {} (position {}) is accepted: {} rows, row {:?} label {:?}",
                at, what, pos, d.features.len(), d.features.get(at), d.labels.get(at)
            ));
        }
        c.saw("malformed records refused", 1);
        // as the feature or the label file of a pair
        let good = table(&mut c.rng, 2, n);
        let gs = text(&good, &Style { crlf: false, last_newline: true, quote: 0.0 }, &mut c.rng);
        let gp = files.put(c, "good", &gs);
        for (f, l, side) in [(&path, &gp, "feature"), (&gp, &path, "label")] {
            if guarded(|| read_csv_data_multi_target(f, l)).is_ok() {
                return Err(format!("pair reader: record {} of the {} file with {} (position {}) is accepted", at, side, what, pos));
            }
            c.saw("malformed records refused", 1);
        }
    }
    if c.idx < 2 {
        c.sample(format!("record {} with {} at {}: {:?}", at, what, pos, vph::run::clip(&s, 300)));
    }
    Ok(())
}

/// Every position of a small file broken in turn.
fn every_position(c: &mut Case) -> Result<(), String> {
    let mut files = Files(vec![]);
    let n = c.rng.range(1, 6);
    let w = c.rng.range(2, 4);
    let st = Style { crlf: c.idx % 2 == 0, last_newline: c.idx % 3 != 0, quote: 0.0 };
    let t = table(&mut c.rng, w, n);
    for i in 0..n {
        for j in 0..w {
            for kind in 0..3 {
                let mut b = t.clone();
                match kind {
                    0 => {
                        b.cells[i].remove(j);
                    }
                    1 => b.cells[i].insert(j, "1".into()),
                    _ => b.cells[i][j] = c.rng.pick(&BAD).to_string(),
                }
                if b.cells[i].iter().all(|x| x.is_empty()) {
                    continue;
                }
                let s = text(&b, &st, &mut c.rng);
                c.describe(s.clone());
                let p = files.put(c, "pos", &s);
                if let Ok(d) = guarded(|| read_csv_data(&p)) {
                    return Err(format!("record {} broken at field {} (kind {}) is accepted: {} rows", i, j, kind, d.features.len()));
                }
                c.saw("malformed records refused", 1);
                c.nontrivial(hash(&s));
            }
        }
    }
    Ok(())
}

/// Files of many records: all of them, and refused where one late record is broken.
fn long(c: &mut Case) -> Result<(), String> {
    let mut files = Files(vec![]);
    let n = 1500 + c.rng.span(if c.thorough { 150_000 } else { 40_000 });
    let w = c.rng.range(1, 3);
    let k = c.rng.range(2, 5);
    let st = style(&mut c.rng);
    let mut t = table(&mut c.rng, w + 1, n);
    for r in t.cells.iter_mut() {
        r[w] = format!("{}", c.rng.below(k));
    }
    let s = text(&t, &st, &mut c.rng);
    c.describe(vph::run::clip(&s, 2000));
    let path = files.put(c, "long", &s);
    let want = parsed(&t);
    let feats: Vec<Vec<f64>> = want.iter().map(|r| r[..w].to_vec()).collect();
    let labels: Vec<f64> = want.iter().map(|r| r[w]).collect();
    let d = guarded(|| read_csv_data(&path)).map_err(|e| format!("a well-formed file is rejected: {}", e))?;
    same_rows("features", &d.features, &feats)?;
    if !same_bits(&d.labels, &labels) {
        return Err(format!("the labels of {} records are loaded as other numbers", n));
    }
    let d = guarded(|| read_csv_data_one_hot_multi_target(&path, k)).map_err(|e| format!("a well-formed file is rejected: {}", e))?;
    same_rows("features", &d.feature_rows, &feats)?;
    transposed("one-hot data set", &d.feature_columns, &feats)?;
    if d.labels.len() != n || d.labels.iter().zip(&labels).any(|(l, y)| l.len() != k || (0..k).any(|j| l[j] != if j == *y as usize { 1.0 } else { 0.0 })) {
        return Err(format!("the one-hot labels of {} records do not stand for their classes", n));
    }
    let d = guarded(|| read_csv_data_multi_target(&path, &path)).map_err(|e| format!("a well-formed pair of files is rejected: {}", e))?;
    same_rows("features", &d.feature_rows, &want)?;
    same_rows("labels", &d.labels, &want)?;
    transposed("multi-target data set", &d.feature_columns, &want)?;
    c.saw("records of long files compared", 3 * n as u64);
    c.saw("bytes of long files", s.len() as u64);
    // now one record late in the file is broken
    let good = files.put(c, "good", &s);
    for round in 0..3 {
        let mut b = t.clone();
        let at = if round == 0 { n - 1 } else { n / 2 + c.rng.below(n - n / 2) };
        let what = match c.rng.below(4) {
            0 => {
                b.cells[at].remove(0);
                "a missing field"
            }
            1 => {
                b.cells[at].push("1".into());
                "an extra field"
            }
            2 => {
                b.cells[at][c.rng.below(w + 1)] = "abc".into();
                "a non-numeric field"
            }
            _ => {
                b.cells[at][w] = format!("{}", k + c.rng.below(3));
                "a class label beyond the number of classes"
            }
        };
        if what == "a missing field" && b.cells[at].is_empty() {
            continue;
        }
        let broken = text(&b, &st, &mut c.rng);
        let p = files.put(c, "late", &broken);
        if let Ok(d) = guarded(|| read_csv_data_one_hot_multi_target(&p, k)) {
            return Err(format!("one-hot reader: record {} of {} with {} is accepted: {} rows", at, n, what, d.feature_rows.len()));
        }
        if !what.starts_with("a class") {
            if let Ok(d) = guarded(|| read_csv_data(&p)) {
                return Err(format!("single-label reader: record {} of {} with {} is accepted: {} rows", at, n, what, d.features.len()));
            }
            for (f, l, side) in [(&p, &good, "feature"), (&good, &p, "label")] {
                if guarded(|| read_csv_data_multi_target(f, l)).is_ok() {
                    return Err(format!("pair reader: record {} of {} of the {} file with {} is accepted", at, n, side, what));
                }
            }
        }
        c.saw("malformed records late in long files refused", 1);
    }
    c.nontrivial(hash(&s));
    Ok(())
}

fn main() {
    run(
        "C09",
        "cases: CSV files written to a scratch directory (number formats, quoting, LF / CRLF, with and without final newline, header names with commas, quotes and non-ASCII text, 1..40000 records, 1..600 fields), and the same with one record broken in one place; non-trivial: the file was accepted and compared, or had to be refused; distinct by content",
        &[
            "at least one record per file",
            "class labels are non-negative whole numbers (a negative or fractional class label is outside the property)",
            "a blank line is not a record",
        ],
        vec![
            Stage::new("well-formed", well_formed, (5_000, 60_000), (40, 300)),
            Stage::new("malformed", malformed, (10_000, 100_000), (40, 300)),
            Stage::new("every-position", every_position, (400, 4_000), (30, 200)),
            Stage::new("long", long, (24, 300), (30, 150)),
        ],
    )
}
