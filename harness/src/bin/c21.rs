//! C21: the program reports the true test error of the model it trains.
//!
//! The real program (built from /repo/main, VPH_CLI) runs in a scratch
//! directory holding the four files; what it prints is read back and compared
//! with the model trained by the library on the same numbers, evaluated here.
use std::fmt::Write as _;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use vph::ens::{want, EKind, Model};
use vph::gen::{self, Data, Labels};
use vph::oracle::{close, Sum};
use vph::rng::Rng;
use vph::run::{clip, guarded, main as run, Case, Stage};
use vph::tree::config;

fn var(name: &str) -> PathBuf {
    match std::env::var(name) {
        Ok(s) => PathBuf::from(s),
        Err(_) => vph::run::fail(&format!("{} is not set", name)),
    }
}

fn write(rng: &mut Rng, rows: &[Vec<f64>]) -> String {
    let mut s = String::new();
    let style = rng.below(3);
    let _ = writeln!(s, "{}", (0..rows[0].len()).map(|j| format!("c{}", j)).collect::<Vec<_>>().join(","));
    for r in rows {
        let line: Vec<String> = r
            .iter()
            .map(|x| match style {
                0 => format!("{}", x),
                1 => format!("{:?}", x),
                _ => format!("{:e}", x),
            })
            .collect();
        let _ = writeln!(s, "{}", line.join(","));
    }
    s
}

fn numbers(line: &str) -> Option<Vec<f64>> {
    let t = line.trim();
    let t = t.strip_prefix('[')?.strip_suffix(']')?;
    if t.trim().is_empty() {
        return Some(vec![]);
    }
    t.split(',').map(|x| x.trim().parse().ok()).collect()
}

fn data(c: &mut Case, n: usize, cc: usize, k: usize, want: Labels) -> Data {
    gen::data(&mut c.rng, n, cc, k, want)
}

fn program(c: &mut Case) -> Result<(), String> {
    let n = *c.rng.pick(&[11, 12, 20, 40, 90, 150]);
    let m = *c.rng.pick(&[1, 2, 5, 30, 120]);
    sized(c, n, m)
}
/// Files of realistic and awkward sizes.
fn large(c: &mut Case) -> Result<(), String> {
    let sizes = [(1000, 1100), (3000, 40), (257, 2100), (64, 5000), (2049, 257), (513, 1025), (11, 20_000), (5000, 513)];
    let (n, m) = if c.idx % 2 == 0 {
        sizes[(c.idx / 2 % sizes.len() as u64) as usize]
    } else {
        (10 + c.rng.span(3000), c.rng.span(8000))
    };
    sized(c, n, m)
}
fn sized(c: &mut Case, n: usize, m: usize) -> Result<(), String> {
    let cc = c.rng.range(1, 8);
    // the program is written for ten targets
    let k = 10;
    let l = *c.rng.pick(&[Labels::OneHot, Labels::OneHot, Labels::Any, Labels::Whole]);
    let train = data(c, n, cc, k, l);
    let rows = gen::probes(&mut c.rng, &train, m);
    let test = Data {
        labels: (0..m)
            .map(|_| {
                let mut v = train.labels[c.rng.below(n)].clone();
                if c.rng.chance(0.3) {
                    v.iter_mut().for_each(|x| *x += 1.0);
                }
                v
            })
            .collect(),
        rows,
        whole: false,
        note: "test".into(),
    };
    c.describe(format!("train {}test {}", train.text(), test.text()));
    let dir = var("VPH_SCRATCH").join(format!("cli-{}", c.idx));
    let files = dir.join("common/data-files/multi-target");
    let err = |e: std::io::Error| format!("HARNESS-ERROR {}", e);
    std::fs::create_dir_all(&files).map_err(err)?;
    for (name, part) in [
        ("features_train_mt.csv", &train.rows),
        ("labels_train_mt.csv", &train.labels),
        ("features_test_mt.csv", &test.rows),
        ("labels_test_mt.csv", &test.labels),
    ] {
        std::fs::write(files.join(name), write(&mut c.rng, part)).map_err(err)?;
    }
    let mut cmd = Command::new(var("VPH_CLI"));
    cmd.current_dir(&dir).stdin(Stdio::null());
    cmd.env("RAYON_NUM_THREADS", c.rng.pick(&["1", "2", "3"]));
    let out = cmd.output().map_err(err)?;
    let _ = std::fs::remove_dir_all(&dir);
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let bad = |e: String| Err(format!("{}\nprinted:\n{}{}", e, clip(&text, 3000), clip(&String::from_utf8_lossy(&out.stderr), 1000)));
    if !out.status.success() {
        return bad(format!("the program ended with {}", out.status));
    }
    // vectors and numbers in the order printed; other lines (the time) are free
    let mut vectors = vec![];
    let mut scalars = vec![];
    for line in text.lines() {
        if let Some(v) = numbers(line) {
            vectors.push(v);
        } else if let Ok(x) = line.trim().parse::<f64>() {
            scalars.push(x);
        }
    }
    if vectors.len() != 3 || scalars.len() != 2 {
        return bad(format!("{} vectors and {} numbers printed, expected 3 and 2", vectors.len(), scalars.len()));
    }
    let (v11, label, pred) = (&vectors[0], &vectors[1], &vectors[2]);
    let (mse, rmse) = (scalars[0], scalars[1]);
    if *v11 != train.labels[10] {
        return bad(format!("the first line should be the 11th training label vector {:?}", train.labels[10]));
    }
    if *label != test.labels[0] {
        return bad(format!("the label of the first test row is {:?}", test.labels[0]));
    }
    let model = guarded(|| Model::train(EKind::Reg, train.set(), config(k, 3, false), 300, 0.1))?;
    let trees = model.trees()?;
    let scale = train.labels.iter().chain(&test.labels).flatten().map(|x| x.abs()).fold(0.0, f64::max);
    let w = want(&model, &trees, &test.rows[0]);
    if pred.len() != k || (0..k).any(|t| !close(pred[t], w.score[t], 1e-9 * scale)) {
        return bad(format!("the first test row should be predicted {:?}", w.score));
    }
    let mut total = Sum::new();
    for (r, l) in test.rows.iter().zip(&test.labels) {
        let p = want(&model, &trees, r).score;
        for t in 0..k {
            total.add((p[t] - l[t]) * (p[t] - l[t]) / (k * m) as f64);
        }
    }
    let e = total.get();
    if !close(mse, e, 1e-9 * e + 1e-18 * scale * scale + 1e-9 * scale * e.sqrt()) {
        return bad(format!("the mean squared error of the model on the test files is {:?}", e));
    }
    if !close(rmse, mse.sqrt(), 1e-12 * mse.sqrt()) {
        return bad(format!("the square root of {:?} is {:?}", mse, mse.sqrt()));
    }
    c.saw("runs of the program compared", 1);
    c.saw("training rows in their files", n as u64);
    c.saw("test rows in their files", m as u64);
    c.saw("trees of the models evaluated", 300);
    if e > 0.0 && trees.iter().any(|t| t.leaves() > 1) {
        c.nontrivial(train.hash() ^ test.hash().rotate_left(5));
    }
    if c.idx < 2 {
        c.sample(format!("{} training rows, {} test rows, {} targets: {}", n, m, k, clip(&text.replace('\n', " | "), 500)));
    }
    Ok(())
}

/// One of the files is missing or malformed: no error may be reported.
fn broken(c: &mut Case) -> Result<(), String> {
    let (n, m) = (c.rng.range(11, 40), c.rng.range(2, 30));
    let cc = c.rng.range(1, 5);
    let train = data(c, n, cc, 10, Labels::Whole);
    let test = data(c, m, cc, 10, Labels::Whole);
    let dir = var("VPH_SCRATCH").join(format!("broken-{}", c.idx));
    let files = dir.join("common/data-files/multi-target");
    let err = |e: std::io::Error| format!("HARNESS-ERROR {}", e);
    std::fs::create_dir_all(&files).map_err(err)?;
    let names = ["features_train_mt.csv", "labels_train_mt.csv", "features_test_mt.csv", "labels_test_mt.csv"];
    let victim = (c.idx % 4) as usize;
    let how = c.rng.below(6);
    let mut what = "";
    for (i, part) in [&train.rows, &train.labels, &test.rows, &test.labels].into_iter().enumerate() {
        let mut text = write(&mut c.rng, part);
        if i == victim {
            let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
            let at = c.rng.range(1, lines.len() - 1);
            let mut fields: Vec<String> = lines[at].split(',').map(|f| f.to_string()).collect();
            let f = c.rng.below(fields.len());
            what = match how {
                0 => "is missing",
                1 => {
                    fields.push("1".into());
                    "has a record with an extra field"
                }
                2 if fields.len() > 1 => {
                    fields.remove(f);
                    "has a record that lacks a field"
                }
                3 => {
                    fields[f] = String::new();
                    // a blank line is no record
                    if fields.len() == 1 { fields[f] = "\"\"".into(); }
                    "has an empty field"
                }
                4 => {
                    fields[f].push('x');
                    "has a field that is no number"
                }
                _ => {
                    fields[f] = (*c.rng.pick(&["?", "1,5", "1.2.3", "--1", "0x1f", "n/a", "1;2"])).into();
                    "has a field that is no number"
                }
            };
            lines[at] = fields.join(",");
            text = lines.join("\n") + "\n";
            c.describe(format!("{} {}:\n{}", names[i], what, clip(&text, 3000)));
            if how == 0 {
                continue;
            }
        }
        std::fs::write(files.join(names[i]), text).map_err(err)?;
    }
    let mut cmd = Command::new(var("VPH_CLI"));
    cmd.current_dir(&dir).stdin(Stdio::null()).env("RAYON_NUM_THREADS", "2");
    let out = cmd.output().map_err(err)?;
    let _ = std::fs::remove_dir_all(&dir);
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let scores = text.lines().filter(|l| l.trim().parse::<f64>().is_ok()).count();
    if out.status.success() || scores > 0 {
        return Err(format!(
            "{} {}, yet the program ended with {} and printed\n{}",
            names[victim], what, out.status, clip(&text, 2000)
        ));
    }
    c.saw("runs on missing or malformed files that failed as they should", 1);
    c.nontrivial(train.hash() ^ victim as u64 ^ (how as u64) << 8);
    Ok(())
}

fn main() {
    run(
        "C21",
        "cases: runs of the built program in a scratch directory with generated files (11 to 5000 training rows, 1 to 20000 test rows, ten targets, several number formats, 1 to 3 worker threads), and with one file missing or one record broken; non-trivial: the model has splits and a positive error, or a file had to be refused; distinct by data",
        &["printed numbers are compared within 1e-9 of the label scale"],
        vec![Stage::new("program", program, (250, 6_000), (45, 900)), Stage::new("large", large, (10, 200), (40, 400)), Stage::new("broken", broken, (40, 800), (10, 100))],
    )
}
