// B04: regression boosting never worsens the training error.
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;
use vharness::boost::*;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

fn check(d: &Data, r: Run, ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| format!("{} {:?}", d.describe(), r));
    let n = d.n();
    let functional = d.c() == 1
        && r.lr == 1.0
        && r.levels as usize + 1 >= n
        && (0..n).all(|a| (0..n).all(|b| d.rows[a][0] != d.rows[b][0] || d.labels[a] == d.labels[b]));
    let mut m = train_reg(d, r)?;
    if m.trees.len() != r.iters as usize {
        return Err(format!("{} trees after {} iterations", m.trees.len(), r.iters));
    }
    let p = Plain::reg(&m, d.c())?;
    let top = max_abs(&d.labels);
    // rounding of one score: every update rounds at the magnitude of scores and labels
    let u = 8.0 * U * (4.0 + r.iters as f64 + n as f64) * top;
    // gains below the rounding of the squared residuals may go unseen (S01)
    let unseen = 8.0 * U * (4.0 + n as f64) * top * top;
    let ds = d.ds();
    let asked = |k: usize| k <= 8 || k == r.iters as usize || k % 10 == 0;
    let mut real = vec![None; r.iters as usize + 1];
    loop {
        let k = m.trees.len();
        if asked(k) {
            real[k] = Some(must("scoring the training set", || m.calculate_score(&ds))?);
        }
        if m.trees.pop().is_none() {
            break;
        }
    }
    let mut scores = vec![p.start.clone(); n];
    let mut prev = f64::INFINITY;
    let mut h = H::new(4);
    for k in 0..=p.trees.len() {
        if k > 0 {
            for i in 0..n {
                for (x, o) in scores[i].iter_mut().zip(p.trees[k - 1].leaf_of(&d.rows[i])) {
                    *x += r.lr * o;
                }
            }
        }
        let mut hs = H::new(4);
        for s in &scores {
            hs.fs(s);
        }
        ctx.state(hs.get());
        ctx.trans(1);
        let e = mse(&scores, &d.labels);
        let worst = scores.iter().flatten().zip(d.labels.iter().flatten()).fold(0.0f64, |a, (x, y)| a.max((x - y).abs()));
        let tol = 2.0 * u * worst + u * u + 1e-300;
        for (e, who) in [(Some(e), "mean squared error"), (real[k], "reported score")] {
            if let Some(e) = e {
                if !(e <= prev + tol) {
                    return Err(format!("the training {} after {} iterations is {:?}, before it was {:?}", who, k, e, prev));
                }
                if functional && k >= 1 && !(e <= (4.0 * u) * (4.0 * u) + unseen + 1e-300) {
                    return Err(format!("the training {} after {} iterations is {:?} although the labels are a function of the only feature, the rate is 1 and the limit leaves room", who, k, e));
                }
            }
        }
        h.f(e);
        prev = e;
    }
    ctx.outcome(h.get());
    ctx.trace();
    Ok(())
}

fn main() {
    let th = thorough();
    let mut fams = vec![];
    let mut spaces = vec![
        Space::new(1, 1, 1, &[0, 1], &[0.0, 5.0, -1.0]),
        Space::new(2, 1, 1, &[0, 1, 2, 4], &[-3.0, 0.0, 0.1, 1e3]),
        Space::new(2, 2, 2, &[0], &[-3.0, 0.0, 7.0]),
        Space::new(3, 1, 1, &[0, 1, 2, 3, 4], &[-3.0, 0.0, 0.1, 1e3]),
        Space::new(3, 1, 2, &[0], &[-3.0, 0.0, 7.0]),
        Space::new(3, 2, 1, &[0, 4], &[-3.0, 0.0, 7.0]),
        Space::new(4, 1, 1, &[0, 3], &[-3.0, 0.0, 7.0]),
        Space::new(4, 2, 1, &[0], &[0.0, 1.0]),
    ];
    if th {
        spaces.push(Space::new(3, 2, 2, &[0], &[0.0, 1.0, 4.0]));
        spaces.push(Space::new(4, 1, 2, &[0], &[0.0, 1.0, 4.0]));
        spaces.push(Space::new(4, 2, 1, &[0], &[0.0, 1.0, 4.0]));
        spaces.push(Space::new(5, 1, 1, &[0], &[0.0, 1.0, 4.0]));
        spaces.push(Space::new(5, 2, 1, &[0], &[0.0, 1.0]));
    }
    for s in spaces {
        let lv: Vec<u32> = vec![0, 1, 2, s.n as u32];
        let lrs: Vec<f64> = if th { vec![1.0, 0.9, 0.5, 0.1, 0.01] } else { vec![1.0, 0.5, 0.1] };
        let nl = lrs.len() as u64;
        let iters = if s.count() < 5000 { 24 } else { 10 };
        fams.push(Family::new(format!("small-{}-i{}", s.name(), iters), s.count() * 4 * nl, move |i, ctx| {
            let mut cut = Cut(i);
            let lr = lrs[cut.take(nl)];
            let levels = lv[cut.take(4)];
            check(&s.get(cut.0), Run { levels, iters, lr, mt: false }, ctx)
        }));
    }
    let mut b = bigs(&[(6, 2, 2), (9, 3, 1), (16, 1, 1), (20, 3, 3), (25, 1, 4), (40, 9, 1)], &(0..NPAT).collect::<Vec<_>>(), &(0..NPAT).collect::<Vec<_>>(), &[(1.0, 0.0), (0.3, -7.0)]);
    b.extend(bigs(&[(150, 3, 2), (300, 1, 1)], &[0, 4, 10, 14], &[4, 10, 14], &[(1.0, 0.0)]));
    let vars: Vec<(u32, u32, f64)> = if th {
        vec![(1, 150, 0.1), (2, 60, 1.0), (500, 20, 1.0), (4, 60, 0.3), (3, 300, 0.02), (500, 40, 0.5)]
    } else {
        vec![(1, 40, 0.1), (2, 20, 1.0), (500, 5, 1.0), (3, 30, 0.5)]
    };
    let nv = vars.len() as u64;
    fams.push(
        Family::new("structured", b.len() as u64 * nv, move |i, ctx| {
            let mut cut = Cut(i);
            let (levels, iters, lr) = vars[cut.take(nv)];
            check(&b[cut.take(b.len() as u64)].data(), Run { levels, iters, lr, mt: false }, ctx)
        })
        .chunk(2),
    );
    fams.push(Family::new("long", 6 * 3, |i, ctx| {
        let (n, levels, lr) = [(3usize, 1u32, 0.02), (6, 2, 0.01), (4, 9, 1.0), (9, 1, 0.1), (20, 3, 0.005), (12, 1, 0.5)][(i % 6) as usize];
        let d = Big { n, c: 1 + (i as usize / 6), t: 2, fp: 4, lp: 10, scale: 0.3, offset: 1.0 }.data();
        check(&d, Run { levels, iters: 1100, lr, mt: false }, ctx)
    }).chunk(1));
    // every size and number of iterations in turn; learning rates from tiny to 1
    // very many rows
    let hz = Sizes::huge();
    fams.push(Family::new("huge", hz.count(), move |i, ctx| check(&hz.get(i), Run { levels: 1, iters: 2, lr: 0.5, mt: i / 4 % 2 == 1 }, ctx)).chunk(1));
    let z = Sizes::new(1025, 257, 257, if th { 2100 } else { 1100 });
    fams.push(Family::new("sizes", z.count(), move |i, ctx| check(&z.get(i), Run { levels: 1 + (i % 3) as u32, iters: 4, lr: [1.0, 0.5, 0.3][(i / 4 % 3) as usize], mt: i / 4 % 2 == 1 }, ctx)).chunk(4));
    const RATES: [f64; 9] = [1e-300, 1e-9, 1e-6, 1e-4, 0.25, 0.75, 0.9, 0.999, 1.0 / 3.0];
    let b3 = bigs(&[(6, 2, 2), (20, 2, 1)], &[0, 4, 10], &[4, 10], &[(1.0, 0.0), (1e-9, 0.0), (1e9, 0.0), (1e60, 0.0)]);
    fams.push(Family::new("rates", 9 * b3.len() as u64, move |i, ctx| check(&b3[(i / 9) as usize].data(), Run { levels: 2, iters: 12, lr: RATES[(i % 9) as usize], mt: i % 2 == 1 }, ctx)));
    // a few rows that cannot be told apart, with every pair and triple of residuals
    const W: [f64; 8] = [1.0, -0.2, -1.0, 0.2, 5.0, 0.0, -4.0, 2.5];
    fams.push(Family::new("twins", 8 * 8 * 8 * 6, |i, ctx| {
        let mut cut = Cut(i);
        let (a, b, c) = (W[cut.take(8)], W[cut.take(8)], W[cut.take(8)]);
        let (others, levels) = [(1usize, 1u32), (8, 1), (8, 2), (20, 1), (0, 0), (3, 2)][cut.take(6)];
        let mut rows = vec![vec![0.0], vec![0.0]];
        let mut labels = vec![vec![a], vec![b]];
        if i % 3 == 0 {
            rows.push(vec![0.0]);
            labels.push(vec![c]);
        }
        // the others' labels make the overall mean 0
        let s: f64 = labels.iter().map(|y| y[0]).sum();
        for k in 0..others {
            rows.push(vec![1.0 + (k % 2) as f64]);
            labels.push(vec![-s / others as f64]);
        }
        check(&Data { rows, labels }, Run { levels, iters: 6, lr: if i % 2 == 0 { 1.0 } else { 0.5 }, mt: false }, ctx)
    }));
    // twin columns; every magnitude of features and labels
    let e = Extras::new();
    fams.push(Family::new("extras", e.count(), move |i, ctx| check(&e.get(i), Run { levels: 1 + (i % 2) as u32 * 3, iters: 4, lr: [1.0, 0.5][(i / 2 % 2) as usize], mt: i / 4 % 2 == 1 }, ctx)));
    // trees as deep as there are rows
    let ch = Chains::new(if th { 150 } else { 65 }, 490);
    fams.push(Family::new("chains", ch.count() * 2, move |i, ctx| check(&ch.get(i / 2), Run { levels: [1000, 33][(i % 2) as usize], iters: 3, lr: [1.0, 0.5][(i / 2 % 2) as usize], mt: i / 4 % 2 == 1 }, ctx)).chunk(1));
    // every combination of coarse sizes and settings
    let x = Mix::new(&MIX_LEVELS, &MIX_ITERS, &[1.0, 0.3, 0.05], 40_000);
    fams.push(Family::new("mix", x.count(), move |i, ctx| {
        let (d, levels, iters, lr, mt) = x.get(i);
        check(&d, Run { levels, iters, lr, mt }, ctx)
    }).chunk(4));
    main_run(Check {
        id: "B04",
        level: "model_checking",
        rule: "every data set of the listed small spaces, level limits 0,1,2,n, three (five) learning rates in (0,1]; the training error is judged after every number of iterations, by the model's accumulated scores and by the library's own score; plus structured larger data".into(),
        assumptions: vec!["the model after k iterations is the trained model with only its first k trees (B07)".into(), "errors are compared up to the rounding of the accumulated scores".into()],
        families: fams,
        pool: true,
        bounds: "complete: n<=4 (5 thorough), t<=2, up to 24 iterations; structured up to 300 rows, 40 (300) iterations; sizes up to 1025 rows, 257 columns, 257 targets; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) and coarse settings up to a cost bound".into(),
    });
}
