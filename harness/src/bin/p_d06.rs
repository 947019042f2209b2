// D06: vector arithmetic is element-wise and length-checked.
use common::numerical_calculations as nc;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

// neighbours (1 and 1 + eps, 0 and 1e-9), so that small differences occur, then extremes
const A: [f64; 17] = [0.0, 1.0, -2.0, 1e-9, 1.0000000000000002, -0.5, 0.1, 3.0, 1e300, -1e-300, 5e-324, f64::INFINITY, 123456789.125, 1e-160, -1e-5, 123456789.0625, -1e9];

fn eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn eqv(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(*x, *y))
}

fn pair(x: &[f64], y: &[f64], ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| format!("{:?} and {:?}", &x[..x.len().min(12)], &y[..y.len().min(12)]));
    ctx.state({ let mut h = H::new(1); h.fs(x).fs(y); h.get() });
    let fs: [(&str, fn(&[f64], &[f64]) -> Vec<f64>, fn(f64, f64) -> f64); 4] = [
        ("sum", nc::add_f64_slices_as_vector, |a, b| a + b),
        ("difference", nc::subtract_f64_slices_as_vector, |a, b| a - b),
        ("product", nc::multiply_f64_slices_as_vector, |a, b| a * b),
        ("quotient", nc::divide_f64_slices_as_vector, |a, b| a / b),
    ];
    let mut h = H::new(2);
    for (name, f, op) in fs {
        let got = must(name, || f(x, y))?;
        let want: Vec<f64> = x.iter().zip(y).map(|(a, b)| op(*a, *b)).collect();
        ctx.trans(1);
        if !eqv(&got, &want) {
            return Err(format!("{} of {:?} and {:?} is {:?} instead of {:?}", name, x, y, got, want));
        }
        h.fs(&got);
    }
    if !x.is_empty() {
        let got = must("mean squared difference", || nc::mean_sum_of_squared_differences_between_f64_slices(x, y))?;
        let want = x.iter().zip(y).map(|(a, b)| (a - b) * (a - b)).sum::<f64>() / x.len() as f64;
        ctx.trans(1);
        if !(eq(got, want) || (got - want).abs() <= 1e-12 * want.abs() + 1e-320) {
            return Err(format!("mean squared difference of {:?} and {:?} is {:?} instead of {:?}", x, y, got, want));
        }
        for s in [y[0], 0.0, -0.5] {
            let got = must("scalar multiple", || nc::multiply_f64_slice_by_f64_scalar(s, x))?;
            let want: Vec<f64> = x.iter().map(|a| a * s).collect();
            ctx.trans(1);
            if !eqv(&got, &want) {
                return Err(format!("{:?} times {:?} is {:?} instead of {:?}", s, x, got, want));
            }
        }
    }
    ctx.outcome(h.get());
    ctx.trace();
    Ok(())
}

fn list(v: &Vec<Vec<f64>>, ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| if v.len() * v[0].len() <= 40 { format!("list {:?}", v) } else { format!("list of {} vectors of length {}", v.len(), v[0].len()) });
    ctx.state({ let mut h = H::new(3); for x in v { h.fs(x); } h.get() });
    let sum = must("sum of vectors", || nc::sum_of_f64_vectors(v))?;
    let avg = must("average of vectors", || nc::calculate_average_f64_vector(v))?;
    ctx.trans(2);
    let k = v[0].len();
    if sum.len() != k || avg.len() != k {
        return Err(format!("sum has {} and average {} entries instead of {}", sum.len(), avg.len(), k));
    }
    for j in 0..k {
        let s: f64 = v.iter().map(|x| x[j]).sum();
        let a: f64 = v.iter().map(|x| x[j].abs()).sum();
        let n = v.len() as f64;
        if !s.is_finite() || !a.is_finite() {
            continue;
        }
        let tol = 4.0 * U * n * a + 1e-320;
        if !close(sum[j], s, tol) {
            return Err(format!("sum at position {} is {:?} instead of {:?}", j, sum[j], s));
        }
        if !close(avg[j], s / n, tol / n + 4.0 * U * a / n + 1e-320) {
            return Err(format!("average at position {} is {:?} instead of {:?}", j, avg[j], s / n));
        }
    }
    let mut h = H::new(4);
    h.fs(&sum).fs(&avg);
    ctx.outcome(h.get());
    ctx.trace();
    Ok(())
}

fn mismatch(x: &[f64], y: &[f64], ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| format!("lengths {} and {}", x.len(), y.len()));
    ctx.state({ let mut h = H::new(5); h.u(x.len() as u64).u(y.len() as u64); h.get() });
    ctx.trans(5);
    let e = |name: &str, got: String| Err(format!("{} of vectors of lengths {} and {} returned {}", name, x.len(), y.len(), got));
    if let Ok(v) = guard(|| nc::add_f64_slices_as_vector(x, y)) {
        return e("sum", format!("{:?}", v));
    }
    if let Ok(v) = guard(|| nc::subtract_f64_slices_as_vector(x, y)) {
        return e("difference", format!("{:?}", v));
    }
    if let Ok(v) = guard(|| nc::multiply_f64_slices_as_vector(x, y)) {
        return e("product", format!("{:?}", v));
    }
    if let Ok(v) = guard(|| nc::divide_f64_slices_as_vector(x, y)) {
        return e("quotient", format!("{:?}", v));
    }
    if let Ok(v) = guard(|| nc::mean_sum_of_squared_differences_between_f64_slices(x, y)) {
        return e("mean squared difference", format!("{:?}", v));
    }
    ctx.outcome(9);
    ctx.trace();
    Ok(())
}

fn main() {
    let th = thorough();
    let mut fams = vec![];
    for (len, a) in [(0usize, 1usize), (1, 17), (2, 17), (3, if th { 11 } else { 8 }), (4, if th { 6 } else { 5 })] {
        let cnt = (a as u64).pow(2 * len as u32);
        fams.push(Family::new(format!("pair-{}", len), cnt, move |i, ctx| {
            let x = digits(i, a as u64, 2 * len);
            let f = |s: usize| -> Vec<f64> { (0..len).map(|j| A[x[s * len + j]]).collect() };
            pair(&f(0), &f(1), ctx)
        }));
    }
    for (n, k, a) in [(1usize, 1usize, 17usize), (1, 3, 17), (2, 2, 17), (3, 1, 17), (3, 2, 6), (2, 3, 6), (5, 1, 6), (4, 2, 4)] {
        fams.push(Family::new(format!("list-n{}k{}", n, k), (a as u64).pow((n * k) as u32), move |i, ctx| {
            let x = digits(i, a as u64, n * k);
            list(&(0..n).map(|r| (0..k).map(|j| A[x[r * k + j]]).collect()).collect(), ctx)
        }));
    }
    const L: [usize; 25] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 32, 33, 64, 65, 128, 129, 257, 1000, 4097, 10_001, 65_537];
    fams.push(Family::new("lengths", 25 * 25 * 2 * 4, |i, ctx| {
        let mut cut = Cut(i);
        // values of very different, then of neighbouring size
        let near = [0.0, 1e-9, 1e-5, 1e-12][cut.take(4)];
        let (a, b) = (L[cut.take(25)], L[cut.take(25)]);
        let b = if cut.take(2) == 1 && a != b { a + b } else { b };
        let x: Vec<f64> = (0..a).map(|j| j as f64 * 0.5 - 3.0).collect();
        let y: Vec<f64> = if near == 0.0 { (0..b).map(|j| 1.0 + (j % 7) as f64).collect() } else { (0..b).map(|j| j as f64 * 0.5 - 3.0 + near * (j % 5) as f64).collect() };
        if a == b {
            pair(&x, &y, ctx)
        } else {
            mismatch(&x, &y, ctx)
        }
    }));
    fams.push(Family::new("list-structured", 20 * 10, |i, ctx| {
        let mut cut = Cut(i);
        let n = [1usize, 2, 3, 8, 9, 31, 64, 100, 255, 257, 1000, 70_000, 4097, 10_001, 100_001, 513, 1025, 2049, 8193, 65_537][cut.take(20)];
        let k = [1usize, 2, 3, 5, 8, 9, 16, 33, 100, 300][cut.take(10)];
        if n * k > 1_000_000 {
            return Ok(());
        }
        list(&(0..n).map(|r| (0..k).map(|j| pattern(r + j, r, n, j) + 0.5).collect()).collect(), ctx)
    }).chunk(1));
    main_run(Check {
        id: "D06",
        level: "model_checking",
        rule: "every pair of vectors over the alphabet, every list of vectors over it, every pair of unequal lengths from the length set".into(),
        assumptions: vec!["single operations are compared exactly; sums, averages and the mean squared difference up to the rounding of a sum".into()],
        families: fams,
        pool: false,
        bounds: "complete: vectors of length <=4, lists of <=5 vectors; lengths up to 65537 (each with every other); lists up to 100001 vectors".into(),
    });
}
