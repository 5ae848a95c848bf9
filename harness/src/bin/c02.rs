//! C02: a tree partitions its training rows and routes each to its own leaf.
use vph::forge::{self, check_conservation, Kind, KINDS};
use vph::gen::{self, Data, Labels};
use vph::run::{main as run, Case, Stage};
use vph::tree::config;

fn judge(c: &mut Case, d: &Data, levels: u32, kinds: &[Kind]) -> Result<(), String> {
    c.describe(format!("depth limit {}\n{}", levels, d.text()));
    let set = d.set();
    let mut split = false;
    for kind in kinds {
        for threads in [false, true] {
            if *kind == Kind::Presorted && threads {
                continue;
            }
            let t = forge::build(*kind, &set, config(d.k(), levels, threads))
                .map_err(|e| format!("{:?} tree (threads {}): {}", kind, threads, e))?;
            let (leaves, rows) = check_conservation(&t, d, &set)
                .map_err(|e| format!("{:?} tree (threads {}): {}\n{}", kind, threads, e, t.text()))?;
            c.saw("trees walked", 1);
            c.saw("leaves compared with the rows routed to them", leaves);
            c.saw("training rows accounted for", rows);
            if leaves > 1 {
                split = true;
            }
            if c.idx < 2 && *kind == Kind::Plain {
                c.sample(format!("{} limit {} => {}", d.brief(), levels, t.text().replace('\n', "; ")));
            }
        }
    }
    if split {
        c.nontrivial(d.hash() ^ levels as u64);
    }
    Ok(())
}

fn any(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = if c.rng.chance(0.2) {
        gen::needle(&mut c.rng)
    } else {
        gen::any(&mut c.rng, want)
    };
    let l = forge::levels(&mut c.rng, d.n());
    judge(c, &d, l, &KINDS)
}
fn big(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let w = c.idx;
    let d = gen::big(&mut c.rng, w, want);
    let l = if d.n() > 6000 || d.c() > 6000 { 3 } else { forge::levels(&mut c.rng, d.n()) };
    judge(c, &d, l, &KINDS)
}
fn chain(c: &mut Case) -> Result<(), String> {
    let n = c.rng.range(20, 320);
    let d = gen::chain(&mut c.rng, n, false);
    let l = *c.rng.pick(&[u32::MAX, 300, 256, 257, 255, 64]);
    judge(c, &d, l, &KINDS)
}

/// Rows, features and targets over all orders of magnitude.
fn sized(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::sized(&mut c.rng, 400_000, want);
    let l = if d.n() > 500 { c.rng.range(1, 4) as u32 } else { forge::levels(&mut c.rng, d.n()) };
    judge(c, &d, l, &KINDS)
}

/// Very many rows, features or targets.
fn huge(c: &mut Case) -> Result<(), String> {
    let w = c.idx;
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::huge(&mut c.rng, w, want);
    let l = if d.n() > 500 { c.rng.range(1, 3) as u32 } else { forge::levels(&mut c.rng, d.n()) };
    judge(c, &d, l, &KINDS)
}

fn main() {
    run(
        "C02",
        "cases: generated data sets, depth limits 0 to unlimited, the four tree kinds, threaded or not; boosting trees record the data of each leaf through the leaf-output function pointer; non-trivial: the tree has at least one split; distinct by data and limit",
        &["finite feature values and labels"],
        vec![
            Stage::new("any", any, (6_000, 200_000), (40, 500)),
            Stage::new("chain", chain, (60, 800), (20, 150)),
            Stage::new("big", big, (24, 200), (25, 300)),
            Stage::new("sized", sized, (250, 4000), (25, 150)),
            Stage::new("huge", huge, (24, 240), (30, 150)),
        ],
    )
}
