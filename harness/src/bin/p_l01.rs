// L01: boosting leaf outputs follow their loss and stay finite.
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::{LeafOutputCalculator, LeafOutputType};
use multi_target_decision_tree::grad_boost_decision_trees::{AMGBoostTree, GradBoostMultiTargetDecisionTree};
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

fn check(labels: Vec<Vec<f64>>, unit: bool, ctx: &mut Ctx) -> CaseResult {
    let n = labels.len();
    let k = labels[0].len();
    // constant features: the tree is a single leaf
    let d = Data { rows: vec![vec![1.0]; n], labels };
    ctx.describe(|| if n * k <= 64 { format!("residuals {:?}", d.labels) } else { format!("{} residual vectors of length {}", n, k) });
    ctx.state(d.hash(1));
    let ds = d.ds();
    let reg = LeafOutputCalculator::new(LeafOutputType::Regression);
    let out = must("regression leaf output", || (reg.calculate_leaf_output)(&ds))?;
    let rows: Vec<usize> = (0..n).collect();
    let want = mean_of(&d.labels, &rows);
    for j in 0..k {
        let m = d.labels.iter().map(|l| l[j].abs()).fold(0.0, f64::max);
        if out.len() != k || !close(out[j], want[j], 4.0 * U * m * n as f64 + 1e-12 * want[j].abs() + 1e-320) {
            return Err(format!("regression output {:?}, the mean residuals are {:?}", out, want));
        }
    }
    ctx.trans(1);
    let cfg = config(k, 0, false);
    let leaf = must("boosting tree of one leaf", || GradBoostMultiTargetDecisionTree::new(ds.clone(), cfg, reg).root)?;
    let got = match read_tree(&leaf, 1, &mut outp)? {
        Tree::Leaf(o) => o,
        _ => return Err("limit 0 gave an inner node".into()),
    };
    if got != out {
        return Err(format!("the regression tree's leaf holds {:?}, the leaf output is {:?}", got, out));
    }
    let mut h = H::new(1);
    h.fs(&out);
    if unit && k >= 2 {
        let cls = LeafOutputCalculator::new(LeafOutputType::MultiClassClassification);
        let o = must("classification leaf output", || (cls.calculate_leaf_output)(&ds))?;
        ctx.trans(1);
        if o.len() != k {
            return Err(format!("classification output has {} entries for {} classes", o.len(), k));
        }
        for j in 0..k {
            if !o[j].is_finite() {
                return Err(format!("classification output for class {} is {:?}", j, o[j]));
            }
            let num: f64 = d.labels.iter().map(|l| l[j]).sum();
            let abs: f64 = d.labels.iter().map(|l| l[j].abs()).sum();
            let den: f64 = d.labels.iter().map(|l| l[j].abs() * (1.0 - l[j].abs())).sum();
            let s = (k as f64 - 1.0) / k as f64;
            if den == 0.0 {
                if o[j] != 0.0 {
                    return Err(format!("classification output for class {} is {:?} although its divisor is zero", j, o[j]));
                }
            } else if den > 1e-100 {
                let w = s * num / den;
                let tol = s * abs / den * (8.0 * U * n as f64 + 1e-13);
                if !close(o[j], w, tol) {
                    return Err(format!("classification output for class {} is {:?} instead of {:?}", j, o[j], w));
                }
            }
        }
        let leaf = must("boosting tree of one leaf", || GradBoostMultiTargetDecisionTree::new(ds.clone(), cfg, cls).root)?;
        match read_tree(&leaf, 1, &mut outp)? {
            Tree::Leaf(p) if p == o => {}
            x => return Err(format!("the classification tree is {:?}, the leaf output is {:?}", x, o)),
        }
        let leaf = must("approximate tree of one leaf", || AMGBoostTree::new(ds.clone(), cfg, cls).root)?;
        match read_tree(&leaf, 1, &mut amg)? {
            Tree::Leaf((m, c)) => {
                let b = argmax_first(&o);
                if c != b || m != o[b] {
                    return Err(format!("approximate leaf keeps {:?} at class {}, the outputs are {:?} (largest first at class {})", m, c, o, b));
                }
            }
            _ => return Err("limit 0 gave an inner node".into()),
        }
        h.fs(&o);
    }
    ctx.outcome(h.get());
    if ds.labels != d.labels || ds.feature_rows != d.rows {
        return Err("the leaf's data were changed".into());
    }
    ctx.trace();
    Ok(())
}

const R: [f64; 12] = [0.0, -1.0, 1.0, 0.5, -0.5, -0.25, 1e-9, -1e-200, 0.75, 5e-324, 0.9999999999999999, -0.9999999];

fn main() {
    let th = thorough();
    let mut fams = vec![];
    let mut g = vec![(1usize, 1usize, 12usize), (1, 2, 12), (2, 2, 12), (1, 3, 12), (3, 2, 8), (2, 3, 8), (1, 4, 8), (4, 2, 5), (2, 4, 5), (3, 3, 4)];
    if th {
        g.extend([(3, 2, 12), (2, 3, 12), (4, 2, 8), (2, 4, 8), (3, 3, 6), (5, 2, 5), (1, 6, 8)]);
    }
    for (n, k, a) in g {
        fams.push(Family::new(format!("n{}K{}a{}", n, k, a), (a as u64).pow((n * k) as u32), move |i, ctx| {
            let x = digits(i, a as u64, n * k);
            check((0..n).map(|r| (0..k).map(|j| R[x[r * k + j]]).collect()).collect(), true, ctx)
        }));
    }
    // unrestricted labels: regression output only
    for (n, t) in [(1usize, 2usize), (2, 2), (3, 1), (4, 1), (3, 2)] {
        const V: [f64; 6] = [-1e6, -3.0, 0.0, 0.1, 7.0, 1e12];
        fams.push(Family::new(format!("reg-n{}t{}", n, t), 6u64.pow((n * t) as u32), move |i, ctx| {
            let x = digits(i, 6, n * t);
            check((0..n).map(|r| (0..t).map(|j| V[x[r * t + j]]).collect()).collect(), false, ctx)
        }));
    }
    // any residuals at all of many rows: no relation between those of a row
    fams.push(Family::new("free", 8 * 19 * 3, |i, ctx| {
        let mut cut = Cut(i);
        let k = [1usize, 2, 3, 4, 9, 17, 65, 300][cut.take(8)];
        let n = [1usize, 2, 9, 33, 64, 100, 129, 257, 513, 1001, 1025, 2049, 4097, 5001, 8193, 10_001, 20_001, 65_537, 100_001][cut.take(19)];
        let v = cut.take(3);
        if n * k > 300_000 {
            return Ok(());
        }
        let labels = (0..n)
            .map(|r| (0..k).map(|j| match v {
                0 => (((r * 7 + j * 13) % 19) as f64 - 9.0) / 9.0,
                // only the last row has any
                1 => if r + 1 == n { 0.75 - (j % 2) as f64 } else { 0.0 },
                _ => (((r * r + 3 * j) % 23) as f64 / 23.0) * if j % 2 == 0 { 1.0 } else { -0.5 },
            }).collect())
            .collect();
        check(labels, true, ctx)
    }).chunk(1));
    // softmax-like residuals of many rows and classes
    fams.push(Family::new("structured", 12 * 18 * 4, |i, ctx| {
        let mut cut = Cut(i);
        let k = [2usize, 3, 4, 5, 7, 9, 10, 12, 17, 33, 65, 300][cut.take(12)];
        let n = [1usize, 2, 3, 5, 8, 9, 16, 31, 64, 100, 129, 257, 1000, 5000, 4097, 10_001, 20_001, 65_537][cut.take(18)];
        let v = cut.take(4);
        if n * k > 300_000 {
            return Ok(());
        }
        let labels = (0..n)
            .map(|r| {
                let c = (r * 7 + v) % k;
                let s: Vec<f64> = (0..k).map(|j| pattern(r + j + v, r, n.max(2), j).rem_euclid(9.0) * [0.5, 1.0, 4.0, 0.01][v]).collect();
                let p = softmax(&s);
                (0..k).map(|j| (if j == c { 1.0 } else { 0.0 }) - p[j]).collect()
            })
            .collect();
        check(labels, true, ctx)
    }));
    // the largest output shared by two classes, wherever they lie
    let mut pairs = vec![];
    for k in (2..=if th { 140 } else { 70usize }).chain([99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 1000]) {
        let place: Vec<usize> = if k <= if th { 140 } else { 40 } { (0..k).collect() } else { counts(k, 3).into_iter().map(|x| x - 1).chain([k / 2, k - 2, k - 1]).collect() };
        for &i in &place {
            for &j in &place {
                if i < j {
                    pairs.push((k, i, j));
                }
            }
        }
    }
    fams.push(Family::new("ties", pairs.len() as u64 * 4, move |x, ctx| {
        let (k, i, j) = pairs[(x / 4) as usize];
        let mut r = vec![-0.125; k];
        r[i] = 0.5;
        r[j] = 0.5;
        check(match x % 4 {
            0 => vec![r],
            // the two from different rows
            1 => {
                let (mut a, mut b) = (r.clone(), r);
                a[j] = -0.25;
                b[i] = -0.25;
                vec![a, b]
            }
            // the largest by a hair
            2 => {
                r[j] = 0.5000000000000001;
                vec![r]
            }
            // all outputs negative, or none
            _ => {
                r.iter_mut().for_each(|v| *v -= 0.75);
                vec![r]
            }
        }, true, ctx)
    }).chunk(16));
    main_run(Check {
        id: "L01",
        level: "model_checking",
        rule: "every assignment of residuals from an alphabet with 0, +-1, neighbours of 1 and subnormals to n x K cells, through the leaf output function and one-leaf trees; softmax residuals of larger leaves".into(),
        assumptions: vec!["values are compared up to the rounding of the two sums; between 0 and 1e-100 the divisor only has to give a finite output".into()],
        families: fams,
        pool: true,
        bounds: "complete: n*K<=9 over alphabets of up to 12 residuals; structured up to 65537 rows, 300 classes; two classes sharing the largest output at every pair of places of up to 40 (140) classes, coarser up to 1000".into(),
    });
}
