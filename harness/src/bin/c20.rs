//! C20: vector arithmetic is element-wise and exact to rounding.
use common::numerical_calculations::*;
use vph::oracle::{same_bits, Sum, EPS};
use vph::rng::{fnv, Rng};
use vph::run::{guarded, main as run, Case, Stage};

type Two = fn(&[f64], &[f64]) -> Vec<f64>;
const TWO: [(&str, Two, fn(f64, f64) -> f64); 4] = [
    ("sum", add_f64_slices_as_vector, |a, b| a + b),
    ("difference", subtract_f64_slices_as_vector, |a, b| a - b),
    ("product", multiply_f64_slices_as_vector, |a, b| a * b),
    ("quotient", divide_f64_slices_as_vector, |a, b| a / b),
];

fn number(rng: &mut Rng, kind: usize) -> f64 {
    match kind {
        0 => rng.int(-9, 9) as f64,
        1 => rng.normal(),
        2 => *rng.pick(&[0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::from_bits(1), 1e-310, 1e308, -1e-300]),
        3 => rng.normal() * 10f64.powi(rng.int(-140, 140) as i32),
        4 => 1.0 + rng.unit() * 1e-12,
        5 => rng.normal() * 1e15,
        _ => *rng.pick(&[0.1, 0.2, 0.3, 1.0 / 3.0, 1e16, 1.0, -1e16]),
    }
}

fn vector(rng: &mut Rng, n: usize) -> Vec<f64> {
    let kind = rng.below(8);
    (0..n)
        .map(|_| {
            let k = if kind == 7 { rng.below(7) } else { kind };
            number(rng, k)
        })
        .collect()
}

const LONG: [usize; 9] = [65_535, 65_536, 65_537, 70_000, 32_769, 100_000, 131_073, 262_145, 1_000_000];

fn length(c: &mut Case) -> usize {
    if c.stage.ends_with("long") {
        return LONG[(c.idx % 9) as usize];
    }
    let rng = &mut c.rng;
    match rng.below(8) {
        0 => 1,
        1 => 2,
        2 => *rng.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
        3 => *rng.pick(&[127, 128, 129, 255, 256, 257, 300, 1000]),
        4 => 3,
        5 if rng.chance(0.05) => rng.span(20_000),
        _ => rng.range(1, 24),
    }
}

fn same(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol
}

fn two(c: &mut Case) -> Result<(), String> {
    let n = if c.rng.chance(0.02) { 0 } else { length(c) };
    let (a, b) = (vector(&mut c.rng, n), vector(&mut c.rng, n));
    c.describe(if n > 30_000 { format!("vectors of {}", n) } else { format!("{:?}\n{:?}", a, b) });
    for (name, f, op) in TWO {
        let (x, y) = (a.clone(), b.clone());
        let got = guarded(|| f(&x, &y)).map_err(|e| format!("{}: {}", name, e))?;
        if !same_bits(&x, &a) || !same_bits(&y, &b) {
            return Err(format!("the {} altered an argument", name));
        }
        if got.len() != n {
            return Err(format!("the {} of two vectors of {} has {} entries", name, n, got.len()));
        }
        for i in 0..n {
            let w = op(a[i], b[i]);
            let tol = if name == "quotient" { 4.0 * EPS * w.abs() + 1e-322 } else { 0.0 };
            if !same(got[i], w, tol) {
                return Err(format!("{} at position {} of {}: {:?} and {:?} give {:?}, expected {:?}", name, i, n, a[i], b[i], got[i], w));
            }
            c.saw("elements compared", 1);
        }
    }
    let s = number(&mut c.rng, (c.idx % 7) as usize);
    let x = a.clone();
    let got = guarded(|| multiply_f64_slice_by_f64_scalar(s, &x))?;
    if got.len() != n || (0..n).any(|i| !same(got[i], a[i] * s, 0.0)) || !same_bits(&x, &a) {
        return Err(format!("{:?} times {:?} gives {:?}", s, a, got));
    }
    c.saw("elements compared", n as u64);
    // mean of squared differences, where it does not overflow
    if n > 0 && a.iter().chain(&b).all(|v| v.abs() < 1e150) {
        let (x, y) = (a.clone(), b.clone());
        let got = guarded(|| mean_sum_of_squared_differences_between_f64_slices(&x, &y))?;
        let mut e = Sum::new();
        for i in 0..n {
            let d = a[i] - b[i];
            e.add(d * d / n as f64);
        }
        let w = e.get();
        if !same(got, w, (n as f64 + 16.0) * EPS * w + 1e-300) || !same_bits(&x, &a) || !same_bits(&y, &b) {
            return Err(format!("mean squared difference {:?}, expected {:?}", got, w));
        }
        c.saw("mean squared differences compared", 1);
    }
    let mut h = n as u64;
    a.iter().chain(&b).for_each(|v| fnv(&mut h, v.to_bits()));
    if n > 0 {
        c.nontrivial(h);
    }
    Ok(())
}

fn list(c: &mut Case) -> Result<(), String> {
    let m = length(c);
    let m = m.min(300_000);
    let n = if m > 20_000 || c.rng.chance(0.8) { c.rng.range(1, 8) } else { length(c) };
    let n = if m > 1000 { n.min(3) } else if m > 200 { n.min(20) } else { n };
    let v: Vec<Vec<f64>> = (0..m)
        .map(|_| vector(&mut c.rng, n).into_iter().map(|x| if x.abs() > 1e300 { 1.5 } else { x }).collect())
        .collect();
    c.describe(if m > 30_000 { format!("{} vectors of {}", m, n) } else { format!("{:?}", v) });
    let kept = v.clone();
    let sum = guarded(|| sum_of_f64_vectors(&v))?;
    let avg = guarded(|| calculate_average_f64_vector(&v))?;
    if v.iter().zip(&kept).any(|(a, b)| !same_bits(a, b)) {
        return Err("summing or averaging altered the vectors".into());
    }
    if sum.len() != n || avg.len() != n {
        return Err(format!("vectors of {}: the sum has {} entries, the average {}", n, sum.len(), avg.len()));
    }
    for j in 0..n {
        let mut s = Sum::new();
        let mut mag = 0.0;
        for r in &v {
            s.add(r[j]);
            mag += r[j].abs();
        }
        let tol = 2.0 * (m as f64 + 4.0) * EPS * mag + 1e-320;
        if !same(sum[j], s.get(), tol) {
            return Err(format!("sum of {} vectors at position {}: {:?}, expected {:?}", m, j, sum[j], s.get()));
        }
        let w = s.get() / m as f64;
        if !same(avg[j], w, tol / m as f64 + 1e-320) {
            return Err(format!("average of {} vectors at position {}: {:?}, expected {:?}", m, j, avg[j], w));
        }
        c.saw("positions of sums and averages compared", 2);
    }
    let mut h = m as u64;
    v.iter().flatten().for_each(|x| fnv(&mut h, x.to_bits()));
    c.nontrivial(h);
    Ok(())
}

fn mismatch(c: &mut Case) -> Result<(), String> {
    let n = length(c);
    let m = match c.rng.below(4) {
        0 => n + 1,
        1 => n - 1,
        2 => 0,
        _ => n + c.rng.range(1, 40),
    };
    let (a, b) = (vector(&mut c.rng, n), vector(&mut c.rng, m));
    let (a, b) = if c.rng.chance(0.5) { (a, b) } else { (b, a) };
    c.describe(if n > 30_000 { format!("vectors of {} and {}", n, m) } else { format!("{:?}\n{:?}", a, b) });
    for (name, f, _) in TWO {
        if let Ok(x) = guarded(|| f(&a, &b)) {
            return Err(format!("the {} of vectors of {} and {} entries is {:?}", name, a.len(), b.len(), x));
        }
        c.saw("arguments of different lengths rejected", 1);
    }
    if let Ok(x) = guarded(|| mean_sum_of_squared_differences_between_f64_slices(&a, &b)) {
        return Err(format!("the mean squared difference of vectors of {} and {} entries is {:?}", a.len(), b.len(), x));
    }
    c.saw("arguments of different lengths rejected", 1);
    c.nontrivial((a.len() as u64) << 32 | b.len() as u64);
    Ok(())
}

fn main() {
    run(
        "C20",
        "cases: pairs and lists of vectors of 1 to 1000000 entries, up to 300000 vectors, with ordinary, tiny, huge, subnormal and signed-zero values, and pairs of different lengths; non-trivial: every case with an entry; distinct by values",
        &["sums, differences, products and multiples are compared exactly, quotients within 4 eps, sums and averages of n vectors within 2 (n + 4) eps of the magnitudes added"],
        vec![
            Stage::new("two", two, (150_000, 4_000_000), (15, 150)),
            Stage::new("list", list, (60_000, 1_500_000), (15, 150)),
            Stage::new("mismatch", mismatch, (5_000, 60_000), (15, 100)),
            Stage::new("two-long", two, (6, 60), (15, 60)),
            Stage::new("list-long", list, (6, 60), (15, 60)),
            Stage::new("mismatch-long", mismatch, (3, 30), (15, 30)),
        ],
    )
}
