//! C10: regression boosting fits each tree to the current residuals.
use vph::boost;
use vph::ens::EKind::Reg;
use vph::run::{main as run, Case, Stage};

fn any(c: &mut Case) -> Result<(), String> {
    boost::any(c, Reg)
}
fn long(c: &mut Case) -> Result<(), String> {
    boost::long(c, Reg)
}
fn big(c: &mut Case) -> Result<(), String> {
    boost::big(c, Reg)
}
fn steep(c: &mut Case) -> Result<(), String> {
    boost::steep(c, Reg)
}

fn sized(c: &mut Case) -> Result<(), String> {
    boost::sized(c, Reg)
}

fn huge(c: &mut Case) -> Result<(), String> {
    boost::huge(c, Reg)
}

fn endless(c: &mut Case) -> Result<(), String> {
    boost::endless(c, Reg)
}

fn main() {
    run(
        "C10",
        "cases: trainings on generated data with 0 to 300 iterations, learning rates 0 to 10, depth limits 0 to unlimited; every iteration is replayed from the public trees and the residuals recorded at the split search; non-trivial: at least two iterations and some tree splits; distinct by data and settings",
        &["finite data; residuals may differ from the replay by 8 (iteration + 10) eps times the largest score or label"],
        vec![
            Stage::new("any", any, (10_000, 150_000), (50, 400)),
            Stage::new("long", long, (400, 6_000), (25, 250)),
            Stage::new("steep", steep, (2_000, 20_000), (20, 150)),
            Stage::new("big", big, (24, 240), (30, 200)),
            Stage::new("sized", sized, (120, 2_000), (25, 150)),
            Stage::new("huge", huge, (24, 240), (30, 150)),
            Stage::new("endless", endless, (16, 240), (25, 150)),
        ],
    )
}
