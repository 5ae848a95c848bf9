//! C03: growth stops at the depth limit or when no split helps, and only then.
use vph::forge::{self, Kind, KINDS};
use vph::gen::{self, Data, Labels};
use vph::run::{main as run, Case, Stage};
use vph::tree::{check_growth, config, Stats};

fn judge(c: &mut Case, d: &Data, levels: u32, kinds: &[Kind]) -> Result<(), String> {
    c.describe(format!("depth limit {}\n{}", levels, d.text()));
    let set = d.set();
    let cols = d.columns();
    let mut st = Stats::default();
    for kind in kinds {
        for threads in [false, true] {
            if *kind == Kind::Presorted && threads {
                continue;
            }
            let t = forge::build(*kind, &set, config(d.k(), levels, threads))
                .map_err(|e| format!("{:?} tree (threads {}): {}", kind, threads, e))?;
            check_growth(&t, &cols, &d.labels, (0..d.n()).collect(), levels, 0.0, d.whole, &mut st)
                .map_err(|e| format!("{:?} tree (threads {}, limit {}): {}\n{}", kind, threads, levels, e, t.text()))?;
            c.saw("trees judged", 1);
            if c.idx < 2 && *kind == Kind::Plain {
                c.sample(format!("{} limit {} => {}", d.brief(), levels, t.text().replace('\n', "; ")));
            }
        }
    }
    c.saw("splits verified best for their node", st.splits);
    c.saw("leaves verified to have no useful split", st.stops_gain);
    c.saw("leaves at the depth limit", st.stops_depth);
    if st.deepest >= 2 {
        c.saw("cases with trees of two or more levels", 1);
    }
    if st.deepest >= 100 {
        c.saw("cases with trees of a hundred or more levels", 1);
    }
    if st.splits > 0 {
        c.nontrivial(d.hash() ^ levels as u64);
    }
    Ok(())
}

fn any(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = if c.rng.chance(0.2) {
        gen::needle(&mut c.rng)
    } else {
        gen::any(&mut c.rng, want)
    };
    let l = forge::levels(&mut c.rng, d.n());
    judge(c, &d, l, &KINDS)
}
fn small(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::small(&mut c.rng, want);
    for l in 0..=(d.n() as u32 + 1) {
        judge(c, &d, l, &KINDS)?;
    }
    Ok(())
}
fn big(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let w = c.idx;
    let d = gen::big(&mut c.rng, w, want);
    let l = if d.n() > 6000 || d.c() > 6000 { 3 } else { forge::levels(&mut c.rng, d.n()) };
    judge(c, &d, l, &KINDS)
}
fn chain(c: &mut Case) -> Result<(), String> {
    let n = c.rng.range(20, 320);
    let d = gen::chain(&mut c.rng, n, false);
    let l = *c.rng.pick(&[u32::MAX, 300, 256, 257, 255, 64]);
    judge(c, &d, l, &KINDS)
}

/// Rows, features and targets over all orders of magnitude.
fn sized(c: &mut Case) -> Result<(), String> {
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::sized(&mut c.rng, 250_000, want);
    let l = if d.n() > 500 { c.rng.range(1, 4) as u32 } else { forge::levels(&mut c.rng, d.n()) };
    judge(c, &d, l, &KINDS)
}

/// Very many rows, features or targets.
fn huge(c: &mut Case) -> Result<(), String> {
    let w = c.idx;
    let want = *c.rng.pick(&[Labels::Any, Labels::Whole, Labels::OneHot]);
    let d = gen::huge(&mut c.rng, w, want);
    let l = if d.n() > 500 { c.rng.range(1, 3) as u32 } else { forge::levels(&mut c.rng, d.n()) };
    judge(c, &d, l, &KINDS)
}

fn main() {
    run(
        "C03",
        "cases: generated data sets, every depth limit from 0 to beyond the number of rows (small data) or a mixture up to u32::MAX, the four tree kinds, threaded or not; non-trivial: at least one split was made and judged; distinct by data and limit",
        &["finite feature values and labels; a constant label that is not a whole number may still be split on rounding noise (within the allowance)"],
        vec![
            Stage::new("small", small, (1500, 20_000), (30, 200)),
            Stage::new("any", any, (5_000, 100_000), (40, 500)),
            Stage::new("chain", chain, (40, 600), (20, 150)),
            Stage::new("big", big, (24, 200), (25, 300)),
            Stage::new("sized", sized, (150, 2500), (25, 150)),
            Stage::new("huge", huge, (24, 240), (30, 150)),
        ],
    )
}
