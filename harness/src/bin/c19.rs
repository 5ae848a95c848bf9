//! C19: the printed tree is a faithful rendering of the tree.
//!
//! The project prints to standard output, so a child process (this program
//! with --child) builds and prints the trees of a case; the parent builds the
//! same trees, reads the text back and compares.
use common::datasets::MultiTargetDataSet;
use multi_target_decision_tree::decision_trees::RegressionMultiTargetDecisionTree;
use multi_target_decision_tree::leaf::RegressionLeaf;
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::printer::print_tree_regression;
use std::io::Write;
use std::process::{Command, Stdio};
use vph::gen::{self, transpose, Labels};
use vph::hand::Shape;
use vph::oracle::same_bits;
use vph::rng::Rng;
use vph::run::{clip, guarded, install_panic_hook, main as run, Case, Stage};
use vph::tree::{config, view, LeafView, T};

/// Trees per case.
fn trees(stage: u64) -> u64 {
    if stage == 3 {
        2
    } else {
        40
    }
}

fn name(rng: &mut Rng, j: usize) -> String {
    let odd = [
        "", " ", "a b", "Is x >= 3", "x >= 1", "\"quoted\"", "tab\there", "line\nbreak", "back\\slash", "--> True: ",
        "Predict:None", "    indented", "naïve", "日本", "it's", "\u{7f}\u{1b}[0m", "a,b;c", "{}", "{:?}", "%s", "\r", "\0", "é\u{301}", "1.5", "None", "Is",
    ];
    match rng.below(3) {
        0 => format!("f{}", j),
        1 => format!("{}#{}", rng.pick(&odd), j),
        _ => format!("{}{}", j, rng.pick(&odd)),
    }
}

fn spacing(rng: &mut Rng) -> String {
    " ".repeat(*rng.pick(&[0, 0, 0, 1, 3, 8]))
}

fn number(rng: &mut Rng) -> f64 {
    match rng.below(6) {
        0 => rng.int(-5, 5) as f64,
        1 => -0.0,
        2 => rng.normal(),
        3 => *rng.pick(&[1e300, -1e-300, f64::MAX, f64::MIN_POSITIVE, f64::from_bits(1), 1e16, 1e21, 123456789012345680.0]),
        4 => 0.1 + 0.2,
        _ => rng.normal() * 1e-7,
    }
}

/// The tree a (seed, case, number) stands for; the same in both processes.
fn make(seed: u64, stage: u64, idx: u64, i: usize) -> (Box<TreeNode<RegressionLeaf>>, Vec<String>, String) {
    let mut rng = Rng::of(&[seed, stage, idx, i as u64, 19]);
    let rng = &mut rng;
    if stage == 1 {
        let want = *rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
        let d = if rng.chance(0.5) { gen::small(rng, want) } else { gen::any(rng, want) };
        let levels = *rng.pick(&[0, 1, 2, 3, 6]);
        let t = RegressionMultiTargetDecisionTree::new(d.set(), config(d.k(), levels, false));
        let names = (0..d.c()).map(|j| name(rng, j)).collect();
        return (Box::new(t.root), names, spacing(rng));
    }
    if stage == 3 {
        // leaves of many rows, or rows of many features
        let want = *rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
        let (n, c) = match rng.below(3) {
            0 => (rng.range(1, 8), rng.span(6000)),
            _ => {
                let n = 200 + rng.span(12_000);
                (n, rng.range(1, 4))
            }
        };
        let k = if rng.chance(0.1) { rng.range(2, 400) } else { rng.range(2, 4) };
        let k = k.min(1 + 40_000 / n);
        let d = gen::data(rng, n, c, k.max(2), want);
        let levels = *rng.pick(&[0, 0, 1, 2]);
        let t = RegressionMultiTargetDecisionTree::new(d.set(), config(d.k(), levels, false));
        let names = (0..d.c()).map(|j| name(rng, j)).collect();
        return (Box::new(t.root), names, spacing(rng));
    }
    let mut s = Shape::any(rng);
    if s.c > 1000 {
        s.c = 300;
    }
    if s.chain && i % 8 != 0 {
        s.depth = s.depth.min(12);
    }
    let wide = s.c;
    let t = s.tree(rng, &mut |rng| {
        let n = rng.range(1, 4);
        let k = rng.range(1, 4);
        let c = if wide > 20 { 2 } else { wide };
        let rows: Vec<Vec<f64>> = (0..n).map(|_| (0..c).map(|_| number(rng)).collect()).collect();
        RegressionLeaf {
            data: Some(MultiTargetDataSet {
                feature_columns: transpose(&rows, c),
                labels: (0..n).map(|_| (0..k).map(|_| number(rng)).collect()).collect(),
                feature_rows: rows,
            }),
        }
    });
    let names = (0..wide).map(|j| name(rng, j)).collect();
    (Box::new(t), names, spacing(rng))
}

fn child(v: &[u64]) {
    install_panic_hook();
    for i in v[3]..v[4] {
        let made = guarded(|| make(v[0], v[1], v[2], i as usize));
        println!("\u{1}TREE {}", i);
        match made {
            Err(e) => println!("\u{1}PANIC building: {}", e.replace('\n', " ")),
            Ok((t, names, sp)) => {
                if let Err(e) = guarded(|| print_tree_regression(&t, sp, &names)) {
                    println!("\u{1}PANIC printing: {}", e.replace('\n', " "));
                }
            }
        }
    }
    println!("\u{1}END");
    let _ = std::io::stdout().flush();
}

/// Undoes the quoting of a Debug string.
fn unquote(s: &str) -> Option<String> {
    let inner = s.strip_prefix('"')?.strip_suffix('"')?;
    let mut out = String::new();
    let mut it = inner.chars();
    while let Some(ch) = it.next() {
        if ch == '"' {
            return None;
        }
        if ch != '\\' {
            out.push(ch);
            continue;
        }
        match it.next()? {
            'n' => out.push('\n'),
            'r' => out.push('\r'),
            't' => out.push('\t'),
            '0' => out.push('\0'),
            '\\' => out.push('\\'),
            '"' => out.push('"'),
            '\'' => out.push('\''),
            'u' => {
                if it.next()? != '{' {
                    return None;
                }
                let mut h = String::new();
                loop {
                    let c = it.next()?;
                    if c == '}' {
                        break;
                    }
                    h.push(c);
                }
                out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            _ => return None,
        }
    }
    Some(out)
}

/// The list of lists of numbers printed after a field's name.
fn field(s: &str, name: &str) -> Result<Vec<Vec<f64>>, String> {
    let key = format!("{}: ", name);
    let at = s.find(&key).ok_or_else(|| format!("no {} in the leaf line", name))? + key.len();
    let mut out: Vec<Vec<f64>> = vec![];
    let mut depth = 0;
    let mut word = String::new();
    for ch in s[at..].chars() {
        match ch {
            '[' => {
                depth += 1;
                if depth == 2 {
                    out.push(vec![]);
                }
                if depth > 2 {
                    return Err("nested too deep".into());
                }
            }
            ',' | ']' => {
                if !word.is_empty() {
                    let x: f64 = word.parse().map_err(|_| format!("{:?} is not a number", word))?;
                    out.last_mut().ok_or("a number outside a list")?.push(x);
                    word.clear();
                }
                if ch == ']' {
                    depth -= 1;
                    if depth == 0 {
                        return Ok(out);
                    }
                }
            }
            ' ' => {}
            c => word.push(c),
        }
    }
    Err(format!("the list {} does not end", name))
}

struct Reader<'a> {
    lines: &'a [&'a str],
    at: usize,
    names: &'a [String],
    inner: u64,
    leaves: u64,
}

fn indent(s: &str) -> usize {
    s.len() - s.trim_start_matches(' ').len()
}

impl<'a> Reader<'a> {
    fn line(&mut self) -> Result<&'a str, String> {
        let l = self.lines.get(self.at).ok_or("the text ends early")?;
        self.at += 1;
        Ok(l)
    }

    /// Reads one node and compares it with the tree's.
    fn node(&mut self, t: &T, parent: Option<usize>) -> Result<(), String> {
        let l = self.line()?;
        let deep = indent(l);
        let body = l.trim();
        if let Some(p) = parent {
            if deep <= p {
                return Err(format!("line {:?} is not indented deeper than its parent ({} / {})", clip(l, 200), deep, p));
            }
        }
        match t {
            T::Leaf(LeafView::Data { rows, cols, labels }) => {
                let data = body.strip_prefix("Predict:").ok_or_else(|| format!("expected a leaf line, found {:?}", clip(l, 200)))?;
                for (n, want) in [("feature_rows", rows), ("labels", labels), ("feature_columns", cols)] {
                    let got = field(data, n)?;
                    if got.len() != want.len() || got.iter().zip(want).any(|(a, b)| !same_bits(a, b)) {
                        return Err(format!("a leaf line shows {} {}, the leaf holds {}", n, clip(&format!("{:?}", got), 300), clip(&format!("{:?}", want), 300)));
                    }
                }
                self.leaves += 1;
                Ok(())
            }
            T::Leaf(_) => panic!("HARNESS-ERROR leaf kind"),
            T::Inner(c, v, a, b) => {
                let q = unquote(body).ok_or_else(|| format!("expected a quoted test, found {:?}", clip(l, 200)))?;
                let q = q.strip_prefix("Is ").ok_or_else(|| format!("not a test: {:?}", clip(l, 200)))?;
                let cut = q.rfind(" >= ").ok_or_else(|| format!("not a test: {:?}", clip(l, 200)))?;
                let (name, value) = (&q[..cut], &q[cut + 4..]);
                if name != self.names[*c as usize] {
                    return Err(format!("the line names feature {:?}, the node tests {:?}", name, self.names[*c as usize]));
                }
                let x: f64 = value.parse().map_err(|_| format!("threshold {:?} is not a number", value))?;
                if x.to_bits() != v.to_bits() {
                    return Err(format!("the printed threshold {:?} reads back as {:?}, the node's is {:?}", value, x, v));
                }
                self.inner += 1;
                let m = self.line()?;
                if m.trim() != "--> True:" {
                    return Err(format!("expected the true branch, found {:?}", clip(m, 200)));
                }
                self.node(a, Some(deep))?;
                let m = self.line()?;
                if m.trim() != "--> False:" {
                    return Err(format!("expected the false branch, found {:?}", clip(m, 200)));
                }
                self.node(b, Some(deep))
            }
        }
    }
}

fn judge(c: &mut Case, stage: u64) -> Result<(), String> {
    c.describe(format!("trees {} of seed {} stage {} case {} (re-run by seed)", trees(stage), c.seed, stage, c.idx));
    let exe = std::env::current_exe().map_err(|e| format!("HARNESS-ERROR {}", e))?;
    let mut cmd = Command::new(exe);
    cmd.arg("--child");
    for x in [c.seed, stage, c.idx, 0, trees(stage)] {
        cmd.arg(x.to_string());
    }
    let out = cmd
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .map_err(|e| format!("HARNESS-ERROR {}", e))?;
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    if text.contains("HARNESS-ERROR") {
        return Err(format!("HARNESS-ERROR in the child: {}", clip(&text, 500)));
    }
    let mut parts = text.split("\u{1}TREE ");
    parts.next();
    let mut seen = 0;
    for (i, part) in parts.enumerate() {
        let part = part.split("\u{1}END").next().unwrap_or("");
        let (no, body) = part.split_once('\n').ok_or("HARNESS-ERROR marker")?;
        if no.trim() != i.to_string() {
            return Err("HARNESS-ERROR markers out of order".into());
        }
        if let Some(p) = body.find("\u{1}PANIC ") {
            return Err(format!("tree {}: {}", i, clip(&body[p + 1..], 500)));
        }
        let (tree, names, _) = guarded(|| make(c.seed, stage, c.idx, i))?;
        let t = view(&tree)?;
        let lines: Vec<&str> = body.strip_suffix('\n').unwrap_or(body).split('\n').collect();
        let mut r = Reader {
            lines: &lines,
            at: 0,
            names: &names,
            inner: 0,
            leaves: 0,
        };
        r.node(&t, None)
            .and_then(|_| {
                if r.at == lines.len() {
                    Ok(())
                } else {
                    Err(format!("{} lines beyond the tree, such as {:?}", lines.len() - r.at, clip(lines[r.at], 200)))
                }
            })
            .map_err(|e| format!("tree {}: {}\nprinted:\n{}", i, e, clip(body, 1500)))?;
        c.saw("trees printed and read back", 1);
        c.saw("inner-node lines compared", r.inner);
        c.saw("leaf lines compared", r.leaves);
        if r.inner > 0 {
            seen += 1;
            if i == 1 && c.idx == 0 {
                c.sample(clip(body, 700));
            }
        }
    }
    if !text.contains("\u{1}END") {
        return Err(format!("printing ended the process ({:?}) after {}", out.status, clip(&text[text.len().saturating_sub(200)..].replace('\n', " "), 300)));
    }
    if seen > 0 {
        c.nontrivial(c.idx.wrapping_mul(31) + stage);
    }
    Ok(())
}

fn trained(c: &mut Case) -> Result<(), String> {
    judge(c, 1)
}
fn hand(c: &mut Case) -> Result<(), String> {
    judge(c, 2)
}

fn large(c: &mut Case) -> Result<(), String> {
    judge(c, 3)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "--child").unwrap_or(false) {
        let v: Vec<u64> = a[2..].iter().filter_map(|x| x.parse().ok()).collect();
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || child(&v)).unwrap();
        let _ = h.join();
        return;
    }
    run(
        "C19",
        "cases: 40 trees each (2 where leaves hold up to 12000 rows or rows up to 6000 features), trained or assembled by hand (any shape, chains of up to 300 levels, thresholds and data of any finite value, feature names with quotes, line breaks, control and non-Latin characters or text that looks like the format), printed by a child process and read back from its output; non-trivial: some tree has an inner node; distinct by case",
        &["every leaf holds data; the text before an inner node's test and between its branches is as the program prints it today (--> True: / --> False:)"],
        vec![
            Stage::new("trained", trained, (150, 2_500), (30, 300)),
            Stage::new("hand", hand, (300, 5_000), (30, 300)),
            Stage::new("large", large, (30, 400), (30, 150)),
        ],
    )
}
