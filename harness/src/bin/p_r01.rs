// R01: every well-formed data set can be learned and scored.
use common::data_processor::create_dataset_with_sorted_features;
use multi_target_decision_tree::decision_trees::RegressionMultiTargetDecisionTreeNewPartition;
use multi_target_decision_tree::scorer::classification::{calculate_accuracy, predict_class};
use multi_target_decision_tree::scorer::regression::{calculate_overall_mean_squared_error, calculate_overall_mean_squared_error_new_partition};
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;
use vharness::boost::*;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

fn finite(what: &str, v: &[f64], t: usize) -> CaseResult {
    if v.len() != t || !v.iter().all(|x| x.is_finite()) {
        return Err(format!("{} is {:?} with {} targets", what, v, t));
    }
    Ok(())
}
fn score(what: &str, s: f64, class: bool) -> CaseResult {
    if !s.is_finite() || s < 0.0 || (class && s > 1.0) {
        return Err(format!("{} is {:?}", what, s));
    }
    Ok(())
}

/// Rows to ask about: the training rows, values around them, the extremes.
fn rows_to_ask(d: &Data) -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = d.rows.iter().take(6).cloned().collect();
    for x in [f64::NEG_INFINITY, -1e308, -0.0, 1.5, 1e308, f64::INFINITY] {
        v.push(vec![x; d.c()]);
    }
    v
}

fn trees(d: &Data, l: u32, mt: bool, class: bool, ctx: &mut Ctx) -> CaseResult {
    let ds = d.ds();
    let t = d.t();
    let root = Box::new(train_tree(d, l, mt)?);
    let tree = read_tree(&root, d.c(), &mut held)?;
    let m = max_abs(&d.labels);
    let lo: Vec<f64> = (0..t).map(|j| d.labels.iter().map(|y| y[j]).fold(f64::INFINITY, f64::min)).collect();
    let hi: Vec<f64> = (0..t).map(|j| d.labels.iter().map(|y| y[j]).fold(f64::NEG_INFINITY, f64::max)).collect();
    let within = |what: &str, p: &[f64]| -> CaseResult {
        finite(what, p, t)?;
        let tol = 4.0 * U * d.n() as f64 * m;
        match (0..t).find(|&j| p[j] < lo[j] - tol || p[j] > hi[j] + tol) {
            Some(j) => Err(format!("{} is {:?}: target {} lies outside the training labels' range {:?}..{:?}", what, p, j, lo[j], hi[j])),
            None => Ok(()),
        }
    };
    let mut h = H::new(1);
    tree.hash_shape(&mut h);
    score("the row tree's error", must("scoring", || calculate_overall_mean_squared_error(&ds, &root))?, false)?;
    let col = must("training from sorted columns", || Box::new(RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(&ds), config(t, l, mt)).root))?;
    read_tree(&col, d.c(), &mut held_new)?.hash_shape(&mut h);
    score("the column tree's error", must("scoring", || calculate_overall_mean_squared_error_new_partition(&ds, &col))?, false)?;
    ctx.trans(4);
    let (a, b) = train_outputs(d, l, mt)?;
    for r in rows_to_ask(d) {
        let x = tree.leaf_of(&r);
        within("a leaf's mean", &mean_of(&x.labels, &(0..x.labels.len()).collect::<Vec<_>>()))?;
        within("a boosting leaf's output", a.leaf_of(&r))?;
        let (v, k) = *b.leaf_of(&r);
        if !v.is_finite() || k >= t {
            return Err(format!("an approximate leaf keeps {:?} for class {}", v, k));
        }
        if class {
            let p = must("predict_class", || predict_class(&r, &root))?;
            valid_onehot(&p, t).ok_or_else(|| format!("predicted class vector {:?}", p))?;
            h.fs(&p);
        }
    }
    if class {
        score("accuracy", must("calculate_accuracy", || calculate_accuracy(&ds, &root))?, true)?;
    }
    ctx.outcome(h.get());
    Ok(())
}

fn ensembles(d: &Data, r: Run, class: bool, ctx: &mut Ctx) -> CaseResult {
    let ds = d.ds();
    let t = d.t();
    let ask = rows_to_ask(d);
    let mut h = H::new(2);
    let m = train_reg(d, r)?;
    Plain::reg(&m, d.c())?.finite().map_err(|e| format!("regression ensemble: {}", e))?;
    for x in &ask {
        let p = must("predicting", || m.predict(x))?;
        finite("the regression ensemble's prediction", &p, t)?;
        h.fs(&p);
    }
    score("the regression ensemble's score", must("scoring", || m.calculate_score(&ds))?, false)?;
    ctx.trans(ask.len() as u64);
    if class {
        let m = train_mc(d, r)?;
        Plain::mc(&m, d.c())?.finite().map_err(|e| format!("multi-class ensemble: {}", e))?;
        let a = train_amg(d, r)?;
        if t > 1 {
            Plain::amg(&a, d.c(), t)?.finite().map_err(|e| format!("approximate ensemble: {}", e))?;
        }
        for x in &ask {
            for (what, p) in [("multi-class", must("predicting", || m.predict(x))?), ("approximate", must("predicting", || a.predict(x))?)] {
                valid_onehot(&p, t).ok_or_else(|| format!("the {} ensemble predicts {:?}", what, p))?;
                h.fs(&p);
            }
        }
        score("the multi-class ensemble's score", must("scoring", || m.calculate_score(&ds))?, true)?;
        score("the approximate ensemble's score", must("scoring", || a.calculate_score(&ds))?, true)?;
        ctx.trans(2 * ask.len() as u64);
    }
    ctx.outcome(h.get());
    Ok(())
}

fn all(d: &Data, l: u32, iters: u32, lr: f64, mt: bool, class: bool, ctx: &mut Ctx) -> CaseResult {
    let r = Run { levels: l, iters, lr, mt };
    ctx.describe(|| format!("{} {:?} class labels: {}", d.describe(), r, class));
    let mut h = H::new(3);
    h.u(d.hash(5)).u(l as u64).u(iters as u64).f(lr);
    ctx.state(h.get());
    trees(d, l, mt, class, ctx)?;
    ensembles(d, r, class, ctx)?;
    ctx.trace();
    Ok(())
}

fn main() {
    let th = thorough();
    let mut fams = vec![];
    // label magnitudes from subnormal to 1e150 (squares and their sums stay finite)
    const L: [f64; 7] = [0.0, 1.0, -1.0, 1e-310, 1e150, -1e150, 0.1];
    let mut spaces = vec![
        Space::new(1, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &L),
        Space::new(1, 3, 2, &[1, 2, 6], &L),
        Space::new(2, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &L),
        Space::new(2, 2, 1, &[1, 2, 4, 6], &L),
        Space::new(2, 1, 2, &[1, 6], &L),
        Space::new(3, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &L),
        Space::new(3, 2, 1, &[1, 6], &[0.0, 1e-310, 1e150]),
        Space::new(4, 1, 1, &[1, 3, 6], &[0.0, 1e-310, 1e150, 0.1]),
    ];
    if th {
        spaces.push(Space::new(3, 1, 2, &[1, 6], &[0.0, 1e-310, 1e150, 0.1]));
        spaces.push(Space::new(4, 2, 1, &[1, 6], &[0.0, 1e-310, 1e150]));
        spaces.push(Space::new(5, 1, 1, &[1, 2, 6], &[0.0, 1e-310, 1e150, -0.1]));
    }
    for s in spaces {
        fams.push(Family::new(format!("small-{}", s.name()), s.count() * 3, move |i, ctx| {
            let (l, iters, lr) = [(0, 1, 1.0), (1, 3, 0.5), (u32::MAX, 5, 1.0)][(i % 3) as usize];
            all(&s.get(i / 3), l, iters, lr, i % 2 == 1, false, ctx)
        }));
    }
    for (n, c, k) in [(1usize, 1usize, 1usize), (1, 2, 2), (2, 1, 1), (2, 1, 2), (2, 2, 3), (3, 1, 2), (3, 1, 3), (3, 2, 2), (4, 1, 2), (4, 1, 3)] {
        let s = ClassSpace::new(n, c, k, if n < 4 { &[0, 1, 4, 6] } else { &[1] });
        fams.push(Family::new(format!("class-{}", s.name()), s.count() * 4, move |i, ctx| {
            let (l, iters, lr) = [(0, 0, 1.0), (1, 3, 0.5), (u32::MAX, 9, 1.0), (2, 40, 0.1)][(i % 4) as usize];
            all(&s.get(i / 4).0, l, iters, lr, i % 2 == 1, true, ctx)
        }));
    }
    // every shape of table up to a size
    let (nn, cc, tt) = if th { (40u64, 12u64, 8u64) } else { (17, 6, 5) };
    fams.push(Family::new("shapes", nn * cc * tt * 4, move |i, ctx| {
        let mut cut = Cut(i);
        let n = cut.take(nn) + 1;
        let c = cut.take(cc) + 1;
        let t = cut.take(tt) + 1;
        let v = cut.take(4);
        let big = Big { n, c, t, fp: [0, 5, 6, 10][v], lp: [10, 0, 5, 3][v], scale: [1.0, 1e-3, 1.0, 1e6][v], offset: 0.0 };
        all(&big.data(), 3, 3, 0.5, v % 2 == 1, false, ctx)?;
        all(&big.classes(t).0, 3, 3, 0.5, v % 2 == 1, true, ctx)
    }));
    // constant and degenerate columns and labels, larger sizes
    let sizes = [1usize, 2, 3, 9, 31, 64, 129, 257, 1025, 5000];
    fams.push(Family::new("degenerate", 10 * 6, move |i, ctx| {
        let n = sizes[(i % 10) as usize];
        let v = i / 10;
        let rows: Vec<Vec<f64>> = (0..n)
            .map(|r| match v {
                0 => vec![7.0, 7.0],
                1 => vec![7.0, (r % 2) as f64],
                2 => vec![0.0, -0.0],
                3 => vec![if r == 0 { f64::NEG_INFINITY } else { f64::INFINITY }, 0.0],
                4 => vec![r as f64, r as f64],
                _ => vec![r as f64 * 1e-320, -(r as f64) * 1e300],
            })
            .collect();
        let labels = (0..n).map(|r| onehot(if v % 2 == 0 { r % 3 } else { 0 }, 3)).collect();
        let d = Data { rows, labels };
        all(&d, 2, 4, 1.0, false, true, ctx)?;
        all(&d, 30, 2, 0.3, true, true, ctx)?;
        let e = Data { rows: d.rows.clone(), labels: d.labels.iter().map(|_| vec![4.25, -1e9]).collect() };
        all(&e, 30, 3, 0.3, false, false, ctx)
    }).chunk(1));
    fams.push(Family::new("files", REAL, |i, ctx| {
        let Some(d) = real(i) else { ctx.skip(); return Ok(()) };
        all(&d, 3, if i == 7 || i == 10 { 2 } else { 10 }, 0.1, i % 2 == 0, i < 8, ctx)
    }).chunk(1));
    // every size in turn
    // very many rows
    let hz = Sizes::huge();
    fams.push(Family::new("huge", hz.count() / 8 * 5, move |i, ctx| {
        all(&hz.get(i), 1, 1, 0.5, i / 4 % 2 == 1, false, ctx)?;
        all(&hz.class(i).0, 1, 1, 0.5, i / 4 % 2 == 1, true, ctx)
    }).chunk(1));
    let z = Sizes::new(1025, 1025, 257, if th { 2100 } else { 1100 });
    fams.push(Family::new("sizes", z.count(), move |i, ctx| {
        all(&z.get(i), 3, 2, 0.5, i / 4 % 2 == 1, false, ctx)?;
        all(&z.class(i).0, 3, 2, 0.5, i / 4 % 2 == 1, true, ctx)
    }).chunk(4));
    // trees as deep as there are rows, on threads with the usual 2 MB of stack
    let ch = Chains::new(if th { 450 } else { 150 }, 490);
    fams.push(Family::new("chains", ch.count() * 4, move |i, ctx| {
        let mut cut = Cut(i);
        let (class, mt) = (cut.take(2) == 1, cut.take(2) == 1);
        let d = if class { ch.class(cut.0).0 } else { ch.get(cut.0) };
        in_pool_of(if mt { 2 } else { 1 }, 2 << 20, || all(&d, u32::MAX, 2, 0.5, mt, class, ctx))
    }).chunk(1));
    // twin columns; every magnitude of labels and features
    let e = Extras::new();
    fams.push(Family::new("extras", e.count() * 2, move |i, ctx| {
        let mt = i / 2 % 2 == 1;
        if i % 2 == 1 { all(&e.class(i / 2).0, 3, 2, 0.5, mt, true, ctx) } else { all(&e.get(i / 2), 3, 2, 0.5, mt, false, ctx) }
    }).chunk(8));
    // every combination of coarse sizes and settings
    let x = Mix::new(&[0, 1, 4, 40], &[0, 1, 6, 40, 270], &[1.0, 0.05], 20_000);
    fams.push(Family::new("mix", x.count() * 2, move |i, ctx| {
        let (d, levels, iters, lr, mt) = x.get(i / 2);
        if i % 2 == 1 { all(&x.class(i / 2).0, levels, iters, lr, mt, true, ctx) } else { all(&d, levels, iters, lr, mt, false, ctx) }
    }).chunk(4));
    main_run(Check {
        id: "R01",
        level: "model_checking",
        rule: "every data set of the listed small spaces (features incl. infinities, signed zeros and subnormals, labels from subnormal to 1e150) and every table shape up to the bound, through every learner, predictor and scorer, with a watchdog for calls that do not return".into(),
        assumptions: vec!["at least one row and column, no NaN, labels of at most 1e150 in magnitude; number_of_classes equals the label length".into()],
        families: fams,
        pool: true,
        bounds: "complete: n<=4 (5 thorough), c<=3, t<=3 over the alphabets; all shapes up to 17x6x5 (40x12x8 thorough); degenerate data up to 5000 rows; sizes up to 1025 rows, 1025 columns, 257 targets; the repository's data files; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) and coarse settings up to a cost bound".into(),
    });
}
