// B05: more classification boosting never collapses the model.
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;
use vharness::boost::*;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

fn check(d: &Data, classes: &[usize], r: Run, amgb: bool, ctx: &mut Ctx) -> CaseResult {
    let k = d.t();
    ctx.describe(|| format!("{} {:?} {}", d.describe(), r, if amgb { "approximate" } else { "multi-class" }));
    ctx.state({ let mut h = H::new(5); h.u(d.hash(5)).u(r.levels as u64).u(r.iters as u64).f(r.lr).u(amgb as u64); h.get() });
    // some feature alone determines the class, and the limit leaves room for every split
    let separable = r.levels as usize >= d.n() - 1
        && (0..d.c()).any(|j| (0..d.n()).all(|a| (0..d.n()).all(|b| d.rows[a][j] != d.rows[b][j] || classes[a] == classes[b])));
    let probes = probe_rows(d);
    let mut h = H::new(6);
    // the real predictions are asked for after these numbers of iterations, the stagewise model's
    // scores are followed through all of them
    let asked = |k: usize| k <= 6 || k == r.iters as usize || (k & (k - 1)) == 0 || k % 25 == 0;
    let mut judge = |iters: usize, preds: Vec<Vec<f64>>, ctx: &mut Ctx| -> CaseResult {
        for (i, p) in preds.iter().enumerate() {
            ctx.trans(1);
            let c = valid_onehot(p, k).ok_or_else(|| format!("after {} iterations row {:?} is predicted as {:?}", iters, probes[i], p))?;
            h.u(c as u64);
            if separable && i < d.n() && c != classes[i] && iters > 0 {
                return Err(format!("after {} iterations training row {:?} of class {} is predicted as class {} although the classes are separable by a single feature", iters, probes[i], classes[i], c));
            }
        }
        Ok(())
    };
    let plain;
    if amgb {
        let mut m = train_amg(d, r)?;
        plain = Plain::amg(&m, d.c(), k)?;
        plain.finite()?;
        loop {
            if asked(m.trees.len()) {
                let preds = must("predicting", || probes.iter().map(|p| m.predict(p)).collect::<Vec<_>>())?;
                judge(m.trees.len(), preds, ctx)?;
            }
            if m.trees.pop().is_none() {
                break;
            }
        }
    } else {
        let mut m = train_mc(d, r)?;
        plain = Plain::mc(&m, d.c())?;
        plain.finite()?;
        loop {
            if asked(m.trees.len()) {
                let preds = must("predicting", || probes.iter().map(|p| m.predict(p)).collect::<Vec<_>>())?;
                judge(m.trees.len(), preds, ctx)?;
            }
            if m.trees.pop().is_none() {
                break;
            }
        }
    }
    for i in 0..d.n() {
        let mut s = plain.start.clone();
        for (it, t) in plain.trees.iter().enumerate() {
            for (x, o) in s.iter_mut().zip(t.leaf_of(&d.rows[i])) {
                *x += r.lr * o;
            }
            ctx.trans(1);
            if !s.iter().all(|x| x.is_finite()) {
                return Err(format!("after {} iterations the scores of training row {:?} are {:?}", it + 1, d.rows[i], s));
            }
            if separable && (0..k).any(|j| j != classes[i] && s[j] >= s[classes[i]]) {
                return Err(format!("after {} iterations training row {:?} of class {} has scores {:?} although the classes are separable by a single feature", it + 1, d.rows[i], classes[i], s));
            }
        }
    }
    ctx.outcome(h.get());
    ctx.trace();
    Ok(())
}

fn main() {
    let th = thorough();
    let mut fams = vec![];
    let mut spaces = vec![
        (ClassSpace::new(1, 1, 2, &[0]), 40u32),
        (ClassSpace::new(2, 1, 2, &[0, 1]), 120),
        (ClassSpace::new(3, 1, 2, &[0]), 120),
        (ClassSpace::new(3, 1, 3, &[0]), 120),
        (ClassSpace::new(3, 2, 2, &[0]), 40),
        (ClassSpace::new(4, 1, 2, &[0]), 60),
        (ClassSpace::new(4, 1, 3, &[0]), 40),
        (ClassSpace::new(3, 1, 5, &[0]), 40),
    ];
    if th {
        spaces.push((ClassSpace::new(4, 1, 3, &[0]), 200));
        spaces.push((ClassSpace::new(4, 1, 4, &[0]), 60));
        spaces.push((ClassSpace::new(4, 2, 2, &[0]), 40));
        spaces.push((ClassSpace::new(5, 1, 2, &[0]), 60));
        spaces.push((ClassSpace::new(3, 1, 3, &[0]), 400));
        spaces.push((ClassSpace::new(3, 2, 3, &[0]), 60));
    }
    for (s, iters) in spaces {
        let lv: Vec<u32> = vec![0, 1, 2, s.n as u32];
        let lrs = [1.0, 0.5, 0.1];
        fams.push(Family::new(format!("small-{}-i{}", s.name(), iters), s.count() * 4 * 3 * 2, move |i, ctx| {
            let mut cut = Cut(i);
            let amgb = cut.take(2) == 1;
            let lr = lrs[cut.take(3)];
            let levels = lv[cut.take(4)];
            let (d, c) = s.get(cut.0);
            check(&d, &c, Run { levels, iters, lr, mt: false }, amgb, ctx)
        }));
    }
    let b = bigs(&[(6, 2, 1), (9, 1, 2), (20, 3, 2), (30, 2, 9)], &[0, 2, 4, 7, 10, 12], &[0, 2, 3, 4, 6, 7, 9, 10], &[(1.0, 0.0)]);
    fams.push(Family::new("structured", b.len() as u64 * 3 * 3 * 2, move |i, ctx| {
        let mut cut = Cut(i);
        let amgb = cut.take(2) == 1;
        let lr = [1.0, 0.5, 0.1][cut.take(3)];
        let levels = [1, 3, 40][cut.take(3)];
        let big = &b[cut.take(b.len() as u64)];
        let (d, c) = big.classes(1 + big.t);
        check(&d, &c, Run { levels, iters: 45, lr, mt: false }, amgb, ctx)
    }).chunk(2));
    fams.push(Family::new("long", 6 * 2 * 3, |i, ctx| {
        let mut cut = Cut(i);
        let amgb = cut.take(2) == 1;
        let lr = [1.0, 0.3, 0.05][cut.take(3)];
        let (n, c, k) = [(2usize, 1usize, 2usize), (4, 1, 2), (6, 1, 3), (6, 2, 3), (9, 2, 4), (5, 1, 5)][cut.take(6)];
        let (d, cl) = Big { n, c, t: 1, fp: 4, lp: 2, scale: 1.0, offset: 0.0 }.classes(k);
        check(&d, &cl, Run { levels: 8, iters: if thorough() { 3000 } else { 1100 }, lr, mt: false }, amgb, ctx)
    }).chunk(1));
    // every size in turn; learning rates down to tiny
    // very many rows
    let hz = Sizes::huge();
    fams.push(Family::new("huge", hz.count() * 2, move |i, ctx| {
        let (d, c) = hz.class(i / 2);
        check(&d, &c, Run { levels: 1, iters: 2, lr: 0.5, mt: i / 8 % 2 == 1 }, i % 2 == 1, ctx)
    }).chunk(1));
    let z = Sizes::new(513, 70, 70, if th { 2100 } else { 1100 });
    fams.push(Family::new("sizes", z.count() * 2, move |i, ctx| {
        let (d, c) = z.class(i / 2);
        if d.t() < 2 {
            ctx.skip();
            return Ok(());
        }
        check(&d, &c, Run { levels: 3, iters: 12, lr: [1.0, 0.3][(i / 8 % 2) as usize], mt: i / 4 % 2 == 1 }, i % 2 == 1, ctx)
    }).chunk(4));
    const RATES: [f64; 10] = [1e-13, 1e-11, 1e-9, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.75, 0.999];
    let b3 = bigs(&[(4, 1, 1), (6, 2, 1), (9, 1, 2), (20, 3, 2)], &[0, 4, 7, 10], &[2, 4, 9, 10], &[(1.0, 0.0)]);
    fams.push(Family::new("rates", 10 * 2 * b3.len() as u64, move |i, ctx| {
        let big = &b3[(i / 20) as usize];
        let (d, c) = big.classes(1 + big.t);
        check(&d, &c, Run { levels: 9, iters: 20, lr: RATES[(i % 10) as usize], mt: false }, i / 10 % 2 == 1, ctx)
    }));
    // twin columns; every magnitude of features and labels
    let e = Extras::new();
    fams.push(Family::new("extras", e.count() * 2, move |i, ctx| {
        let (d, c) = e.class(i / 2);
        check(&d, &c, Run { levels: 2, iters: 6, lr: [1.0, 0.3][(i / 4 % 2) as usize], mt: i / 2 % 2 == 1 }, i % 2 == 1, ctx)
    }));
    // every combination of coarse sizes and settings
    let x = Mix::new(&MIX_LEVELS, &MIX_ITERS, &[1.0, 0.3], 40_000);
    fams.push(Family::new("mix", x.count() * 2, move |i, ctx| {
        let (d, c, levels, iters, lr, mt) = x.class(i / 2);
        check(&d, &c, Run { levels, iters, lr, mt }, i % 2 == 1, ctx)
    }).chunk(4));
    main_run(Check {
        id: "B05",
        level: "model_checking",
        rule: "every data set of the listed small spaces, level limits 0,1,2,n, three learning rates, both classification ensembles; the model after every number of iterations up to the bound is asked for every training and probe row".into(),
        assumptions: vec!["the model after k iterations is the trained model with only its first k trees (B07)".into()],
        families: fams,
        pool: true,
        bounds: "complete: n<=4 (5 thorough), K<=5, up to 120 (400) iterations; structured up to 30 rows, 10 classes; sizes up to 513 rows, 70 columns, 70 classes; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) and coarse settings up to a cost bound".into(),
    });
}
