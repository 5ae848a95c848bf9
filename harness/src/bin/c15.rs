//! C15: training more iterations only appends trees; repetition is exact.
use vph::ens::{EKind, Model, EKINDS};
use vph::forge::{self, Kind, KINDS};
use vph::gen::{self, Data, Labels};
use vph::oracle::{close, mean_of, same_bits, EPS};
use vph::run::{guarded, main as run, Case, Stage};
use vph::rng::{fnv, Rng};
use vph::tree::config;
use std::process::{Command, Stdio};

struct Job {
    kind: EKind,
    d: Data,
    levels: u32,
    threads: bool,
    lr: f64,
}

impl Job {
    fn any(c: &mut Case, small: bool) -> Job {
        let kind = *c.rng.pick(&EKINDS);
        let l = if kind == EKind::Reg { *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]) } else { Labels::OneHot };
        let d = if small { gen::small(&mut c.rng, l) } else { gen::any(&mut c.rng, l) };
        Job {
            kind,
            levels: *c.rng.pick(&[0, 1, 2, 3, 4, 100]),
            threads: c.rng.chance(0.3),
            lr: *c.rng.pick(&[0.1, 0.5, 1.0, 0.03, 1.5, 0.0]),
            d,
        }
    }
    fn train(&self, it: u32) -> Result<Model, String> {
        guarded(|| Model::train(self.kind, self.d.set(), config(self.d.k(), self.levels, self.threads), it, self.lr))
            .map_err(|e| format!("{:?}, {} iterations: {}", self.kind, it, e))
    }
    fn text(&self) -> String {
        format!("{:?} limit {} threads {} learning rate {}\n{}", self.kind, self.levels, self.threads, self.lr, self.d.text())
    }
}

/// The shorter model must be a bit-exact prefix of the longer one.
fn prefix(c: &mut Case, j: &Job, short: &Model, long: &Model) -> Result<(), String> {
    let (a, b) = (short.trees()?, long.trees()?);
    if a.len() > b.len() {
        return Err(format!("{} trees, then {}", a.len(), b.len()));
    }
    if !same_bits(short.initial_guess(), long.initial_guess()) {
        return Err(format!(
            "{:?}: the initial guess is {:?} with {} iterations and {:?} with {}",
            j.kind, short.initial_guess(), a.len(), long.initial_guess(), b.len()
        ));
    }
    if short.learning_rate().to_bits() != long.learning_rate().to_bits() || short.learning_rate() != j.lr {
        return Err(format!("{:?}: learning rates {:?} and {:?}, given {:?}", j.kind, short.learning_rate(), long.learning_rate(), j.lr));
    }
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        if x.print() != y.print() {
            return Err(format!(
                "{:?}: tree {} differs between {} and {} iterations\n{}--\n{}",
                j.kind, i, a.len(), b.len(), x.text(), y.text()
            ));
        }
        c.saw("trees of a shorter training compared with the longer one", 1);
    }
    Ok(())
}

fn zero(c: &mut Case, j: &Job, m: &Model) -> Result<(), String> {
    if !m.trees()?.is_empty() {
        return Err(format!("{:?}: {} trees after zero iterations", j.kind, m.trees()?.len()));
    }
    let (n, k) = (j.d.n(), j.d.k());
    let want: Vec<f64> = if j.kind == EKind::Reg {
        mean_of(j.d.labels.iter(), k)
    } else {
        vec![1.0 / k as f64; k]
    };
    for row in gen::probes(&mut c.rng, &j.d, 4) {
        let p = guarded(|| m.predict(&row))?;
        let ok = if j.kind == EKind::Reg {
            (0..k).all(|t| {
                let big = j.d.labels.iter().map(|l| l[t].abs()).fold(0.0, f64::max);
                p.len() == k && close(p[t], want[t], 4.0 * EPS * (n as f64 + 4.0) * big)
            })
        } else {
            // a tie of all classes goes to the first
            p.len() == k && (0..k).all(|t| p[t] == if t == 0 { 1.0 } else { 0.0 })
        };
        if !ok {
            return Err(format!("{:?}: without trees the prediction is {:?}, the initial guess {:?}", j.kind, p, want));
        }
        c.saw("predictions of models without trees compared", 1);
    }
    Ok(())
}

fn appends(c: &mut Case) -> Result<(), String> {
    let small = c.rng.chance(0.5);
    let j = Job::any(c, small);
    let top = if small { *c.rng.pick(&[3, 7, 17, 40, 80]) } else { *c.rng.pick(&[2, 3, 6, 12]) };
    let mut counts: Vec<u32> = vec![0, 1, top];
    counts.push(c.rng.range(1, top as usize) as u32);
    counts.push(top - 1);
    c.describe(format!("iterations {:?}; {}", counts, j.text()));
    // in any order
    let longest = counts[2];
    c.rng.shuffle(&mut counts);
    let mut got: Vec<(u32, Model)> = vec![];
    for it in &counts {
        let m = j.train(*it)?;
        if m.trees()?.len() != *it as usize {
            return Err(format!("{:?}: {} trees after {} iterations", j.kind, m.trees()?.len(), it));
        }
        c.saw("trainings", 1);
        got.push((*it, m));
    }
    let at = got.iter().position(|g| g.0 == longest).unwrap();
    for g in &got {
        prefix(c, &j, &g.1, &got[at].1)?;
        if g.0 == 0 {
            zero(c, &j, &g.1)?;
        }
    }
    if got[at].1.trees()?.iter().filter(|t| t.leaves() > 1).count() > 1 {
        c.nontrivial(j.d.hash() ^ j.levels as u64 ^ j.lr.to_bits() ^ (longest as u64) << 30);
    }
    if c.idx < 2 {
        c.sample(format!("{:?} {} with {:?} iterations: shorter trainings are prefixes", j.kind, j.d.brief(), counts));
    }
    Ok(())
}

/// Calls outside the contract, which may panic; what they leave behind must
/// not show in later results.
fn refused(c: &mut Case, j: &Job, m: &Model) {
    let mut set = j.d.set();
    let (n, k) = (j.d.n(), j.d.k());
    let i = c.rng.below(n);
    let mut classes = k;
    let mut row = j.d.rows[i].clone();
    match c.rng.below(6) {
        0 => classes = k + 1,
        1 => set.labels[i] = vec![],
        2 => set.feature_rows[i] = vec![],
        3 => {
            set.feature_rows.clear();
            set.feature_columns.clear();
            set.labels.clear();
        }
        4 => {
            let x = c.rng.below(set.feature_columns.len());
            set.feature_columns[x][i] = f64::NAN;
            set.feature_rows[i][x] = f64::NAN;
        }
        _ => row.clear(),
    }
    let threads = c.rng.chance(0.5);
    let levels = *c.rng.pick(&[1, 3, 100]);
    let tried = [
        guarded(|| drop(Model::train(j.kind, set.clone(), config(classes, levels, threads), 2, 0.5))).is_err(),
        guarded(|| drop(m.predict(&row))).is_err(),
        guarded(|| drop(m.score(&set))).is_err(),
        guarded(|| drop(m.predictions(&set))).is_err(),
        guarded(|| drop(forge::build(Kind::Plain, &set, config(classes, levels, threads)))).is_err(),
        guarded(|| drop(forge::build(Kind::Presorted, &set, config(classes, levels, threads)))).is_err(),
    ];
    c.saw("refused calls between two equal trainings", tried.iter().filter(|x| **x).count() as u64);
}

/// The same training before and after a history of other work.
fn history(c: &mut Case) -> Result<(), String> {
    let j = Job::any(c, false);
    let it = *c.rng.pick(&[1, 2, 4, 8]);
    c.describe(format!("iterations {}; {}", it, j.text()));
    let first = j.train(it)?;
    let fp = first.fingerprint()?;
    let rows = gen::probes(&mut c.rng, &j.d, 6);
    let preds: Vec<Vec<f64>> = guarded(|| rows.iter().map(|r| first.predict(r)).collect())?;
    let steps = c.rng.range(1, 5);
    for _ in 0..steps {
        match c.rng.below(5) {
            4 => refused(c, &j, &first),
            0 => {
                let o = Job::any(c, true);
                let n = *c.rng.pick(&[0, 1, 3, 30]);
                let m = o.train(n)?;
                let r = gen::probes(&mut c.rng, &o.d, 3);
                guarded(|| r.iter().for_each(|x| drop(m.predict(x))))?;
            }
            1 => {
                // same data, other settings
                let o = Job {
                    kind: if j.kind == EKind::Reg { EKind::Reg } else { *c.rng.pick(&[EKind::Multi, EKind::Amg]) },
                    d: j.d.clone(),
                    levels: *c.rng.pick(&[0, 1, 5]),
                    threads: c.rng.chance(0.5),
                    lr: 0.7,
                };
                o.train(3)?;
            }
            2 => {
                let l = *c.rng.pick(&[Labels::Any, Labels::OneHot]);
                let d = gen::small(&mut c.rng, l);
                let kind = *c.rng.pick(&KINDS);
                forge::build(kind, &d.set(), config(d.k(), 3, c.rng.chance(0.5)))?;
            }
            _ => {
                guarded(|| drop(first.score(&j.d.set())))?;
            }
        }
        c.saw("other operations between two equal trainings", 1);
    }
    let second = j.train(it)?;
    if second.fingerprint()? != fp {
        return Err(format!("{:?}: the same training gave another model after {} other operations", j.kind, steps));
    }
    if first.fingerprint()? != fp {
        return Err(format!("{:?}: a trained model was altered by later operations", j.kind));
    }
    for (r, p) in rows.iter().zip(&preds) {
        for m in [&first, &second] {
            let q = guarded(|| m.predict(r))?;
            if !same_bits(p, &q) {
                return Err(format!("{:?}: a row is predicted {:?}, later {:?}", j.kind, p, q));
            }
            c.saw("predictions repeated", 1);
        }
    }
    c.saw("trainings repeated", 1);
    if first.trees()?.iter().any(|t| t.leaves() > 1) {
        c.nontrivial(fp);
    }
    Ok(())
}

fn long(c: &mut Case) -> Result<(), String> {
    let mut j = Job::any(c, true);
    let mut counts = [255, 256, 257, 300];
    if c.idx % 4 == 3 {
        counts = *c.rng.pick(&[[999, 1000, 1001, 1025], [300, 1024, 2049, 4097], [5, 5000, 9999, 10_001]]);
        let w = if j.kind == EKind::Reg { Labels::Any } else { Labels::OneHot };
        let n = c.rng.range(2, 6);
        j.d = gen::data(&mut c.rng, n, 1, 2, w);
        j.levels = j.levels.min(2);
    }
    c.describe(format!("iterations {:?}; {}", counts, j.text()));
    let last = j.train(counts[3])?;
    for it in &counts[..3] {
        let m = j.train(*it)?;
        if m.trees()?.len() != *it as usize {
            return Err(format!("{:?}: {} trees after {} iterations", j.kind, m.trees()?.len(), it));
        }
        prefix(c, &j, &m, &last)?;
        c.saw("trainings", 1);
    }
    c.nontrivial(last.fingerprint()?);
    Ok(())
}

enum Op {
    Train(Job, u32),
    Build(Kind, Data, u32, bool),
    Search(Data),
}

/// A session: trainings of look-alike data sets under look-alike settings.
fn session(seed: u64) -> Vec<Op> {
    let mut c = Rng::new(seed);
    let kind = *c.pick(&EKINDS);
    let l = if kind == EKind::Reg { Labels::Any } else { Labels::OneHot };
    let base = if c.chance(0.8) { gen::small(&mut c, l) } else { gen::any(&mut c, l) };
    let levels = *c.pick(&[0, 1, 2, 3, 100]);
    let lr = *c.pick(&[0.1, 0.5, 1.0]);
    let n = c.range(2, 6);
    (0..n)
        .map(|i| {
            let mut d = base.clone();
            if i > 0 && c.chance(0.85) {
                d = gen::sibling(&mut c, &d);
            }
            let levels = if c.chance(0.2) { *c.pick(&[0, 1, 2, 3, 100]) } else { levels };
            let threads = c.chance(0.3);
            match c.below(10) {
                0 | 1 => Op::Build(*c.pick(&KINDS), d, levels, threads),
                2 => Op::Search(d),
                _ => {
                    let kind = if kind == EKind::Reg || c.chance(0.6) { kind } else { *c.pick(&EKINDS) };
                    let lr = if c.chance(0.2) { *c.pick(&[0.1, 0.5, 1.0]) } else { lr };
                    Op::Train(Job { kind, d, levels, threads, lr }, *c.pick(&[0, 1, 1, 2, 3, 6]))
                }
            }
        })
        .collect()
}

impl Op {
    fn text(&self) -> String {
        match self {
            Op::Train(j, it) => format!("train, {} iterations, {}", it, j.text()),
            Op::Build(k, d, levels, threads) => format!("build {:?}, limit {}, threads {}, {}", k, levels, threads, d.text()),
            Op::Search(d) => format!("split search, {}", d.text()),
        }
    }
    fn perform(&self) -> Result<u64, String> {
        match self {
            Op::Train(j, it) => {
                let m = j.train(*it)?;
                let mut h = m.fingerprint()?;
                let set = j.d.set();
                for p in guarded(|| m.predictions(&set))? {
                    p.iter().for_each(|v| fnv(&mut h, v.to_bits()));
                }
                fnv(&mut h, guarded(|| m.score(&set))?.to_bits());
                Ok(h)
            }
            Op::Build(k, d, levels, threads) => {
                let t = forge::build(*k, &d.set(), config(d.k(), *levels, *threads))?;
                let mut h = 9;
                t.fingerprint(&mut h);
                Ok(h)
            }
            Op::Search(d) => {
                let r = guarded(|| (config(d.k(), 1, false).split_finder.find_best_split)(&d.set(), d.k() as u32))?;
                let mut h = 3;
                fnv(&mut h, r.gain.to_bits());
                fnv(&mut h, r.question.value.to_bits());
                fnv(&mut h, r.question.column as u64);
                Ok(h)
            }
        }
    }
}

/// Performs a session in this process, forwards or backwards; one line per operation.
fn child(seed: u64, backwards: bool) {
    vph::run::install_panic_hook();
    let ops = session(seed);
    let order: Vec<usize> = if backwards { (0..ops.len()).rev().collect() } else { (0..ops.len()).collect() };
    for i in order {
        match ops[i].perform() {
            Ok(h) => println!("op {} {:016x}", i, h),
            Err(e) => println!("op {} {}", i, e.replace('\n', " ")),
        }
    }
    println!("end");
}

/// The same operations in two fresh processes, in opposite orders: what came
/// before must not show.
fn orders(c: &mut Case) -> Result<(), String> {
    let seed = c.rng.u64();
    let exe = std::env::current_exe().map_err(|e| format!("HARNESS-ERROR {}", e))?;
    let ops = session(seed);
    let mut all = String::new();
    for (i, o) in ops.iter().enumerate() {
        all.push_str(&format!("op {}: {}\n", i, o.text()));
    }
    c.describe(all);
    let mut out = vec![];
    for back in ["0", "1"] {
        let o = Command::new(&exe)
            .args(["--child", &seed.to_string(), back])
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .output()
            .map_err(|e| format!("HARNESS-ERROR {}", e))?;
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        if text.contains("HARNESS-ERROR") {
            return Err(format!("HARNESS-ERROR in the child: {}", vph::run::clip(&text, 500)));
        }
        let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
        if lines.pop().as_deref() != Some("end") {
            return Err(format!("the process ended early ({:?}) after {:?}", o.status, lines));
        }
        if let Some(l) = lines.iter().find(|l| l.contains("panicked")) {
            return Err(l.clone());
        }
        lines.sort();
        out.push(lines);
    }
    if out[0] != out[1] {
        let i = (0..ops.len()).find(|i| out[0][*i] != out[1][*i]).unwrap_or(0);
        return Err(format!(
            "operation {} of {} gives another result when the same operations run in the opposite order: {} and {}",
            i, ops.len(), out[0][i], out[1][i]
        ));
    }
    c.saw("operations compared between two processes", ops.len() as u64);
    c.nontrivial(seed);
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "--child").unwrap_or(false) {
        let (seed, back) = (a[2].parse().unwrap(), a[3] == "1");
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || child(seed, back)).unwrap();
        let _ = h.join();
        return;
    }
    run(
        "C15",
        "cases: a training repeated with several iteration counts in any order, every shorter model compared bit for bit with the longest; a training repeated after other trainings, tree buildings, predictions and scorings; sessions of trainings, tree buildings and split searches on look-alike data sets performed in opposite orders by two fresh processes; non-trivial: at least two trees with splits; distinct by data and settings",
        &["finite data"],
        vec![
            Stage::new("appends", appends, (4_000, 90_000), (40, 400)),
            Stage::new("history", history, (4_000, 90_000), (30, 300)),
            Stage::new("orders", orders, (2_500, 40_000), (30, 300)),
            Stage::new("long", long, (120, 2_000), (20, 200)),
        ],
    )
}
