// B06: ensemble batch predictions and scores match single predictions.
use common::datasets::MultiTargetDataSet;
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;
use vharness::boost::*;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

/// Every test set of the given index sequences over a pool of (row, label) pairs, in one history on
/// one model.
fn judge<M: GradientBoostedEnsemble>(m: &M, class: bool, pool: &[(Vec<f64>, Vec<f64>)], seqs: &mut dyn Iterator<Item = Vec<usize>>, ctx: &mut Ctx) -> CaseResult {
    let single = must("predicting", || pool.iter().map(|p| m.predict(&p.0)).collect::<Vec<_>>())?;
    let top = max_abs(&single).max(max_abs(&pool.iter().map(|p| p.1.clone()).collect::<Vec<_>>()));
    let c = pool[0].0.len();
    let mut h = H::new(6);
    for s in seqs {
        let rows: Vec<Vec<f64>> = s.iter().map(|&i| pool[i].0.clone()).collect();
        let set = MultiTargetDataSet {
            feature_columns: (0..c).map(|j| rows.iter().map(|r| r[j]).collect()).collect(),
            labels: s.iter().map(|&i| pool[i].1.clone()).collect(),
            feature_rows: rows,
        };
        let show = || if s.len() <= 12 { format!("test set {:?}", s.iter().map(|&i| &pool[i]).collect::<Vec<_>>()) } else { format!("test set of {} rows", s.len()) };
        let got = must("calculate_all_predictions", || m.calculate_all_predictions(&set)).map_err(|e| format!("{}: {}", show(), e))?;
        ctx.trans(2);
        if got.len() != s.len() {
            return Err(format!("{}: {} predictions for {} rows", show(), got.len(), s.len()));
        }
        for (i, &k) in s.iter().enumerate() {
            if got[i] != single[k] {
                return Err(format!("{}: prediction {} is {:?}, the row alone is predicted as {:?}", show(), i, got[i], single[k]));
            }
        }
        let score = must("calculate_score", || m.calculate_score(&set)).map_err(|e| format!("{}: {}", show(), e))?;
        let (want, tol) = if class {
            (s.iter().filter(|&&k| single[k] == pool[k].1).count() as f64 / s.len() as f64, 1e-12)
        } else {
            let p: Vec<Vec<f64>> = s.iter().map(|&k| single[k].clone()).collect();
            let w = mse(&p, &set.labels);
            (w, 8.0 * U * (s.len() as f64 + set.labels[0].len() as f64 + 4.0) * (w + U * top * top) + 1e-300)
        };
        if !close(score, want, tol) {
            return Err(format!("{}: score {:?}, by the single predictions it is {:?}", show(), score, want));
        }
        h.f(score);
    }
    ctx.outcome(h.get());
    ctx.trace();
    Ok(())
}

fn seqs(pool: usize, len: usize) -> impl Iterator<Item = Vec<usize>> {
    (1..=len).flat_map(move |l| (0..(pool as u64).pow(l as u32)).map(move |x| digits(x, pool as u64, l)))
}

fn with_model(d: &Data, kind: usize, r: Run, pool: &[(Vec<f64>, Vec<f64>)], it: &mut dyn Iterator<Item = Vec<usize>>, ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| format!("{} {} {:?}", ["regression", "multi-class", "approximate"][kind], d.describe(), r));
    let mut h = H::new(6);
    h.u(d.hash(6)).u(kind as u64).u(r.iters as u64).u(r.levels as u64).f(r.lr);
    ctx.state(h.get());
    match kind {
        0 => judge(&train_reg(d, r)?, false, pool, it, ctx),
        1 => judge(&train_mc(d, r)?, true, pool, it, ctx),
        _ => judge(&train_amg(d, r)?, true, pool, it, ctx),
    }
}

fn main() {
    let th = thorough();
    let mut fams = vec![];
    for (t, len) in [(1usize, if th { 5 } else { 4 }), (2, 3), (3, 3)] {
        let s = Space::new(3, 1, t, &[0], if t == 1 { &[-3.0, 0.0, 0.1] } else { &[0.0, 1.0] });
        fams.push(Family::new(format!("regression-t{}", t), s.count() * 3 * 3, move |i, ctx| {
            let mut cut = Cut(i);
            let iters = [0, 1, 4][cut.take(3)];
            let levels = [0, 1, 3][cut.take(3)];
            let d = s.get(cut.0);
            let mut pool: Vec<(Vec<f64>, Vec<f64>)> = d.rows.iter().cloned().zip(d.labels.iter().cloned()).collect();
            pool.push((vec![1.5], vec![7.0; t]));
            pool.push((vec![99.0], (0..t).map(|k| k as f64).collect()));
            let n = pool.len();
            with_model(&d, 0, Run { levels, iters, lr: 0.5, mt: false }, &pool, &mut seqs(n, len), ctx)
        }).chunk(1));
    }
    for (n, k, len) in [(3usize, 2usize, if th { 4 } else { 3 }), (3, 3, 3), (2, 4, 3)] {
        let s = ClassSpace::new(n, 1, k, &[0]);
        fams.push(Family::new(format!("classes-n{}-K{}", n, k), s.count() * 2 * 3 * 2, move |i, ctx| {
            let mut cut = Cut(i);
            let kind = 1 + cut.take(2);
            let iters = [0, 1, 4][cut.take(3)];
            let levels = [1, 3][cut.take(2)];
            let (d, _) = s.get(cut.0);
            let mut pool = vec![];
            for v in [1.0, 2.0, 3.0] {
                for c in 0..k.min(3) {
                    pool.push((vec![v], onehot(c, k)));
                }
            }
            pool.push((vec![-5.0], vec![0.0; k]));
            pool.push((vec![2.0], vec![1.0; k]));
            let n = pool.len();
            with_model(&d, kind, Run { levels, iters, lr: 0.5, mt: false }, &pool, &mut seqs(n, len), ctx)
        }).chunk(1));
    }
    // structured models and test sets of many sizes
    let b = bigs(&[(20, 3, 2), (40, 2, 1), (60, 9, 3)], &[0, 2, 4, 10, 12], &[0, 3, 4, 6, 10, 14], &[(1.0, 0.0), (0.3, -7.0)]);
    let sizes: Vec<usize> = if th { (1..=130).chain([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 10_000, 65_537]).collect() } else { (1..=34).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097]).collect() };
    fams.push(
        Family::new("structured", b.len() as u64 * 3, move |i, ctx| {
            let mut cut = Cut(i);
            let kind = cut.take(3);
            let big = &b[cut.take(b.len() as u64)];
            let d = if kind == 0 { big.data() } else { big.classes(1 + big.t).0 };
            let n = d.n();
            let mut pool: Vec<(Vec<f64>, Vec<f64>)> = d.rows.iter().cloned().zip(d.labels.iter().cloned()).collect();
            for i in 0..n {
                pool.push((d.rows[i].iter().map(|x| x + 0.25).collect(), d.labels[(i * 7 + 3) % n].clone()));
            }
            let m = pool.len();
            // rows in a mixed order, and in runs of equal and of neighbouring rows
            let mut it = sizes.iter().flat_map(|&s| {
                let mixed = (0..s).map(|j| (j * 17 + s) % m).collect::<Vec<usize>>();
                let runs = (0..s).map(|j| (j / 3 + s) % m).collect::<Vec<usize>>();
                if s < 200 || s % 2 == 1 { vec![mixed, runs] } else { vec![mixed] }
            });
            with_model(&d, kind, Run { levels: 3, iters: 8, lr: 0.3, mt: false }, &pool, &mut it, ctx)
        })
        .chunk(1),
    );
    // models of many trees
    fams.push(Family::new("many-trees", 3 * 4, |i, ctx| {
        let kind = (i % 3) as usize;
        let big = Big { n: 12, c: 2, t: 2, fp: 4, lp: 10, scale: 1.0, offset: 0.0 };
        let d = if kind == 0 { big.data() } else { big.classes(3).0 };
        let iters = [64u32, 129, 257, 1025][(i / 3) as usize];
        let pool: Vec<(Vec<f64>, Vec<f64>)> = d.rows.iter().cloned().zip(d.labels.iter().cloned()).collect();
        let mut it = [1usize, 2, 5, 12, 40].iter().map(|&s| (0..s).map(|j| (j * 5 + s) % 12).collect::<Vec<usize>>());
        with_model(&d, kind, Run { levels: 2, iters, lr: 0.02, mt: false }, &pool, &mut it, ctx)
    }).chunk(1));
    // very many rows to predict
    fams.push(Family::new("huge", HUGE.len() as u64 * 3 * 2 * 2, move |i, ctx| {
        let mut cut = Cut(i);
        let kind = cut.take(3);
        let big = Big { n: 40, c: 2, t: 2, fp: 4, lp: 10, scale: 1.0, offset: 0.0 };
        let mut d = if kind == 0 { big.data() } else { big.classes(3).0 };
        if cut.take(2) == 1 {
            // rows that agree in one column and not in the other
            for (r, row) in d.rows.iter_mut().enumerate() {
                *row = vec![(r % 3) as f64, (r / 3) as f64];
            }
        }
        let pool: Vec<(Vec<f64>, Vec<f64>)> = d.rows.iter().cloned().zip(d.labels.iter().cloned()).collect();
        let size = HUGE[cut.take(HUGE.len() as u64)];
        let last = cut.take(2) == 1;
        // mixed, or all alike but for the last
        let mut it = [size].into_iter().map(|s| (0..s).map(|j| if last { (j + 1 == s) as usize * 39 } else { (j * 17 + s) % 40 }).collect::<Vec<usize>>());
        with_model(&d, kind, Run { levels: 3, iters: 3, lr: 0.3, mt: false }, &pool, &mut it, ctx)
    }).chunk(1));
    // models of every size in turn
    let z = Sizes::new(513, 257, 257, if th { 2100 } else { 1100 });
    fams.push(Family::new("sizes", z.count() * 3, move |i, ctx| {
        let kind = (i % 3) as usize;
        let d = if kind == 0 { z.get(i / 3) } else { z.class(i / 3).0 };
        if kind > 0 && d.t() < 2 {
            ctx.skip();
            return Ok(());
        }
        let pool: Vec<(Vec<f64>, Vec<f64>)> = d.rows.iter().cloned().zip(d.labels.iter().cloned()).take(40).collect();
        let n = pool.len();
        let mut it = [1usize, n, 2 * n + 1].into_iter().map(|s| (0..s).map(|j| (j * 5 + s) % n).collect::<Vec<usize>>());
        with_model(&d, kind, Run { levels: 2, iters: 2, lr: 0.3, mt: false }, &pool, &mut it, ctx)
    }).chunk(4));
    // twin columns; every magnitude of features and labels
    let e = Extras::new();
    fams.push(Family::new("extras", e.count() * 3, move |i, ctx| {
        let kind = (i % 3) as usize;
        let d = if kind == 0 { e.get(i / 3) } else { e.class(i / 3).0 };
        let pool: Vec<(Vec<f64>, Vec<f64>)> = d.rows.iter().cloned().zip(d.labels.iter().cloned()).take(40).collect();
        let n = pool.len();
        let mut it = [1usize, n, 2 * n + 1].into_iter().map(|s| (0..s).map(|j| (j * 5 + s) % n).collect::<Vec<usize>>());
        with_model(&d, kind, Run { levels: 2, iters: 2, lr: 0.3, mt: false }, &pool, &mut it, ctx)
    }));
    // every combination of coarse sizes and settings
    let x = Mix::new(&MIX_LEVELS, &MIX_ITERS, &[1.0, 0.05], 40_000);
    fams.push(Family::new("mix", x.count() * 3, move |i, ctx| {
        let kind = (i % 3) as usize;
        let (d, levels, iters, lr, mt) = if kind == 0 { x.get(i / 3) } else { let (d, _, a, b, c, e) = x.class(i / 3); (d, a, b, c, e) };
        let mut pool: Vec<(Vec<f64>, Vec<f64>)> = d.rows.iter().cloned().zip(d.labels.iter().cloned()).take(40).collect();
        pool.push((vec![2.25; d.c()], vec![1.0; d.t()]));
        let n = pool.len();
        let mut it = [1usize, n, 2 * n + 1].into_iter().map(|s| (0..s).map(|j| (j * 5 + s) % n).collect::<Vec<usize>>());
        with_model(&d, kind, Run { levels, iters, lr, mt }, &pool, &mut it, ctx)
    }).chunk(4));
    main_run(Check {
        id: "B06",
        level: "model_checking",
        rule: "every model trained on the listed small spaces is given every test set that is a sequence, up to the length bound, over a pool of rows with labels (training rows, other rows, labels that are no class); plus structured models with test sets of many sizes".into(),
        assumptions: vec!["test sets are not empty; their per-column view is consistent".into()],
        families: fams,
        pool: true,
        bounds: "test sets: all sequences up to length 3-4 (5 thorough) over pools of 5-11 rows; test sets of up to 4097 (65537) rows; model sizes up to 513 rows, 257 columns, 257 targets; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) and coarse settings up to a cost bound".into(),
    });
}
