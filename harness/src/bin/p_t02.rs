// T02: the two tree builders produce the same tree.
use common::data_processor::create_dataset_with_sorted_features;
use multi_target_decision_tree::decision_trees::{
    RegressionMultiTargetDecisionTree, RegressionMultiTargetDecisionTreeNewPartition,
};
use multi_target_decision_tree::scorer::regression::{
    calculate_overall_mean_squared_error, calculate_overall_mean_squared_error_new_partition,
};
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

/// Walks both trees over the model's partition states. Ok(false): they took different ways at a
/// split whose alternatives are equally good up to rounding, so the rest is not comparable.
fn compare(
    d: &Data,
    a: &Tree<Held>,
    b: &Tree<HeldNew>,
    rows: &[usize],
    exact: bool,
    ctx: &mut Ctx,
) -> Result<bool, String> {
    let mut h = H::new(2);
    h.u(d.n() as u64);
    for &r in rows {
        h.fs(&d.rows[r]).fs(&d.labels[r]);
    }
    ctx.state(h.get());
    ctx.trans(1);
    let eps = gain_eps(&d.labels, rows, 0.0);
    let show = if rows.len() <= 16 { format!("rows {:?}", rows) } else { format!("{} rows", rows.len()) };
    match (a, b) {
        (Tree::Leaf(x), Tree::Leaf(y)) => {
            if !same_multiset(&x.labels, &y.labels) {
                return Err(format!("{}: leaf labels {:?} and {:?}", show, x.labels, y.labels));
            }
            let mut want = rows.to_vec();
            want.sort();
            for (j, col) in y.columns.iter().enumerate() {
                let mut got: Vec<usize> = col.iter().map(|p| p.1).collect();
                got.sort();
                if got != want {
                    return Err(format!("{}: leaf of the column builder holds rows {:?} in column {}", show, got, j));
                }
                if col.iter().any(|p| d.rows[p.1][j] != p.0) {
                    return Err(format!("{}: leaf of the column builder holds wrong values in column {}", show, j));
                }
            }
            leaf_holds(d, rows, x)?;
            Ok(true)
        }
        (Tree::Node { col: c1, val: v1, yes: y1, no: n1 }, Tree::Node { col: c2, val: v2, yes: y2, no: n2 }) => {
            if c1 != c2 || v1 != v2 {
                let g1 = gain_of(&d.rows, &d.labels, rows, *c1, *v1);
                let g2 = gain_of(&d.rows, &d.labels, rows, *c2, *v2);
                let dup = rows.iter().all(|&i| d.rows[i][*c1] == d.rows[i][*c2]);
                let tie = matches!((g1, g2), (Some(x), Some(y)) if (x - y).abs() <= 2.0 * eps);
                if tie && !exact && !(dup && v1 == v2) {
                    return Ok(false);
                }
                return Err(format!("{}: row builder asks column {} >= {:?} (gain {:?}), column builder asks column {} >= {:?} (gain {:?})", show, c1, v1, g1, c2, v2, g2));
            }
            let (mut s, mut t) = (vec![], vec![]);
            for &i in rows {
                if d.rows[i][*c1] >= *v1 {
                    s.push(i)
                } else {
                    t.push(i)
                }
            }
            let p = compare(d, y1, y2, &s, exact, ctx)?;
            let q = compare(d, n1, n2, &t, exact, ctx)?;
            Ok(p && q)
        }
        _ => {
            let (c, v) = match (a, b) {
                (Tree::Node { col, val, .. }, _) => (*col, *val),
                (_, Tree::Node { col, val, .. }) => (*col, *val),
                _ => unreachable!(),
            };
            let g = gain_of(&d.rows, &d.labels, rows, c, v);
            if !exact && g.map_or(false, |g| g <= 2.0 * eps) {
                return Ok(false);
            }
            let who = if matches!(a, Tree::Leaf(_)) { "row builder" } else { "column builder" };
            Err(format!("{}: the {} stops with a leaf, the other asks column {} >= {:?} (gain {:?})", show, who, c, v, g))
        }
    }
}

fn check(d: &Data, max_levels: u32, exact: bool, ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| format!("{} max_levels={}", d.describe(), max_levels));
    let cfg = config(d.t(), max_levels, false);
    let ds = d.ds();
    let row_root = must("training from rows", || Box::new(RegressionMultiTargetDecisionTree::new(d.ds(), cfg).root))?;
    let col_root = must("training from sorted columns", || {
        Box::new(RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(&ds), cfg).root)
    })?;
    let a = read_tree(&row_root, d.c(), &mut held)?;
    let b = read_tree(&col_root, d.c(), &mut held_new)?;
    let mut h = H::new(2);
    a.hash_shape(&mut h);
    ctx.outcome(h.get());
    if a.depth() > max_levels || b.depth() > max_levels {
        return Err(format!("depths {} and {} with level limit {}", a.depth(), b.depth(), max_levels));
    }
    let rows: Vec<usize> = (0..d.n()).collect();
    let comparable = compare(d, &a, &b, &rows, exact, ctx)?;
    if comparable {
        // training rows, and rows at, between and beyond the training values
        // (the code averages the whole leaf for each of them, so not all of very many)
        let step = 1 + d.n() / 1500;
        let mut test = d.subset(&(0..d.n()).rev().step_by(step).collect::<Vec<usize>>());
        test.rows.reverse();
        test.labels.reverse();
        let lim = d.n().min(12);
        for i in 0..lim {
            for delta in [-0.25, 0.25] {
                let mut r = d.rows[i].clone();
                let j = i % d.c();
                r[j] += delta;
                test.rows.push(r);
                test.labels.push(d.labels[lim - 1 - i].iter().map(|x| x * 0.5 + 1.0).collect());
            }
        }
        let tds = test.ds();
        let (x, y) = must("scoring", || {
            (calculate_overall_mean_squared_error(&tds, &row_root), calculate_overall_mean_squared_error_new_partition(&tds, &col_root))
        })?;
        let m = max_abs(&test.labels);
        if !close(x, y, 1e-9 * (x.abs() + 1e-9 * m * m + 1e-300)) {
            return Err(format!("same tree but mean squared errors {:?} and {:?}", x, y));
        }
        let want = mse(&test.rows.iter().map(|r| { let l = &a.leaf_of(r).labels; mean_of(l, &(0..l.len()).collect::<Vec<_>>()) }).collect::<Vec<_>>(), &test.labels);
        if !close(x, want, 1e-9 * (want.abs() + 1e-6 * m * m)) {
            return Err(format!("mean squared error {:?} instead of {:?}", x, want));
        }
    } else {
        ctx.skip();
    }
    ctx.trace();
    Ok(())
}

fn main() {
    let th = thorough();
    let mut spaces = vec![
        // labels are multiples of 12 and n <= 4: all sums, means and variances are exact
        (Space::new(1, 2, 1, &[0], &[0.0, 12.0]), true),
        (Space::new(2, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[-12.0, 0.0, 24.0, 60.0]), true),
        (Space::new(2, 2, 2, &[0, 1, 6], &[-12.0, 0.0, 24.0]), true),
        (Space::new(3, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[-12.0, 0.0, 12.0, 24.0, 60.0]), true),
        (Space::new(3, 1, 2, &[0, 1, 6], &[-12.0, 0.0, 12.0]), true),
        (Space::new(3, 2, 1, &[0, 4, 9], &[-12.0, 0.0, 12.0, 24.0]), true),
        (Space::new(3, 2, 2, &[0], &[0.0, 12.0]), true),
        (Space::new(3, 3, 1, &[0], &[0.0, 12.0, 24.0]), true),
        (Space::new(4, 1, 1, &[0, 1, 4, 6, 8], &[-12.0, 0.0, 12.0, 24.0]), true),
        (Space::new(4, 1, 2, &[0], &[0.0, 12.0]), true),
        (Space::new(4, 2, 1, &[0], &[0.0, 12.0, 36.0]), true),
        (Space::new(3, 2, 1, &[0, 3], &[0.1, 0.7, -1e3]), false),
        (Space::new(4, 1, 1, &[0, 2], &[0.1, 0.7, -1e3]), false),
        (Space::new(5, 1, 1, &[0], &[0.0, 1.0, 4.0]), false),
    ];
    if th {
        spaces.push((Space::new(4, 2, 1, &[0, 1, 4, 6], &[-12.0, 0.0, 12.0, 24.0]), true));
        spaces.push((Space::new(4, 1, 2, &[0], &[0.0, 12.0, 36.0]), true));
        spaces.push((Space::new(4, 3, 1, &[0], &[0.0, 12.0]), true));
        spaces.push((Space::new(5, 2, 1, &[0], &[0.0, 1.0]), false));
        spaces.push((Space::new(5, 1, 2, &[0], &[0.0, 1.0]), false));
        spaces.push((Space::new(5, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[0.0, 0.1, 4.0, 1e3]), false));
    }
    let mut fams = vec![];
    for (s, exact) in spaces {
        let limits: Vec<u32> = if th || s.count() < 100_000 { (0..=s.n as u32).collect() } else { vec![1, s.n as u32] };
        let nl = limits.len() as u64;
        fams.push(Family::new(format!("small-{}-{}", s.name(), if exact { "exact" } else { "rounded" }), s.count() * nl, move |i, ctx| {
            let mut cut = Cut(i);
            let l = limits[cut.take(nl)];
            check(&s.get(cut.0), l, exact, ctx)
        }));
    }
    let all: Vec<usize> = (0..NPAT).collect();
    let mut b = bigs(&[(6, 2, 2), (9, 3, 1), (17, 5, 3), (40, 3, 2), (70, 9, 1)], &all, &all, &[(1.0, 0.0), (0.37, 100.0)]);
    b.extend(bigs(&[(130, 2, 2), (300, 3, 2)], &[0, 2, 4, 7, 10, 12], &[0, 3, 4, 6, 8, 10, 13], &[(1.0, 0.0)]));
    b.extend(bigs(&[(20, 70, 2), (20, 300, 1), (12, 2, 40), (12, 2, 300)], &[0, 4, 7], &[0, 4, 10], &[(1.0, 0.0)]));
    b.extend(bigs(&[(1100, 2, 1), (2100, 1, 1)], &[0, 4, 10], &[9, 10], &[(1.0, 0.0)]));
    if th {
        b.extend(bigs(&[(70_000, 1, 1)], &[0, 10], &[9, 10], &[(1.0, 0.0)]));
    }
    let depths: Vec<u32> = vec![0, 1, 2, 4, 7, 20, 1000];
    let nd = depths.len() as u64;
    fams.push(Family::new("structured", b.len() as u64 * nd, move |i, ctx| {
        let mut cut = Cut(i);
        let l = depths[cut.take(nd)];
        check(&b[cut.take(b.len() as u64)].data(), l, false, ctx)
    }).chunk(2));
    fams.push(Family::new("files", REAL * 4, |i, ctx| {
        let Some(d) = real(i % REAL) else { ctx.skip(); return Ok(()) };
        check(&d, [1, 3, 8, 1000][(i / REAL) as usize], false, ctx)
    }).chunk(1));
    fams.push(Family::new("deep", 16 * 2, |i, ctx| {
        let l = [0u32, 31, 32, 33, 63, 64, 65, 99, 100, 128, 254, 255, 256, 257, 65_536, u32::MAX][(i % 16) as usize];
        let n = 300usize;
        let rows = (0..n).map(|r| vec![if i / 16 == 1 { (n - r) as f64 } else { r as f64 }]).collect();
        let labels = (0..n).map(|r| vec![1.9f64.powi(r as i32)]).collect();
        check(&Data { rows, labels }, l, false, ctx)
    }).chunk(1));
    // every size in turn
    // very many rows
    let hz = Sizes::huge();
    fams.push(Family::new("huge", hz.count() * 2, move |i, ctx| check(&if i % 2 == 0 { hz.get(i / 2) } else { hz.class(i / 2).0 }, 2, false, ctx)).chunk(1));
    let z = Sizes::new(1025, 1025, 1025, if th { 1100 } else { 300 });
    fams.push(Family::new("sizes", z.count() * 3, move |i, ctx| {
        let d = if i % 3 == 2 { z.class(i / 3).0 } else { z.get(i / 3) };
        check(&d, [2, 1000, 4][(i % 3) as usize], false, ctx)
    }).chunk(4));
    // magnitudes
    let sc = [(1e-3, 0.0), (1e-6, 0.0), (1e-9, 0.0), (1e-12, 0.0), (1e-60, 0.0), (1e9, 0.0), (1e100, 0.0), (1e-5, 1.0), (1e-3, 1e3)];
    let b2 = bigs(&[(3, 1, 1), (6, 2, 2), (17, 3, 1), (40, 2, 3)], &all_pats(), &all_pats(), &sc);
    fams.push(Family::new("scales", b2.len() as u64 * 2, move |i, ctx| check(&b2[(i / 2) as usize].data(), [2, 40][(i % 2) as usize], false, ctx)));
    // twin columns; every magnitude of labels and features
    let e = Extras::new();
    fams.push(Family::new("extras", e.count() * 4, move |i, ctx| {
        let d = if i % 2 == 0 { e.get(i / 4) } else { e.class(i / 4).0 };
        check(&d, if i / 2 % 2 == 0 { 1 } else { 30 }, false, ctx)
    }));
    // trees as deep as there are rows
    let ch = Chains::new(if th { 150 } else { 65 }, 490);
    fams.push(Family::new("chains", ch.count() * 6, move |i, ctx| {
        let mut cut = Cut(i);
        let (class, l) = (cut.take(2) == 1, [1000, 100, 7][cut.take(3)]);
        check(&if class { ch.class(cut.0).0 } else { ch.get(cut.0) }, l, false, ctx)
    }).chunk(1));
    // every combination of coarse sizes and settings
    let x = Mix::new(&[0, 1, 2, 3, 4, 6, 9, 40, 1000], &[1], &[1.0], 400_000);
    fams.push(Family::new("mix", x.count() * 2, move |i, ctx| {
        let (d, l, _, _, _) = x.get(i / 2);
        check(&if i % 2 == 1 { x.class(i / 2).0 } else { d }, l, false, ctx)
    }).chunk(4));
    main_run(Check {
        id: "T02",
        level: "model_checking",
        rule: "every data set of the listed small spaces and every level limit; both builders' trees are walked in lockstep over the partition states; structured larger data".into(),
        assumptions: vec![
            "feature values are not NaN; number_of_classes equals the label length".into(),
            "where labels are not exactly representable sums, different choices among splits equal up to rounding are not compared further (counted as skipped); where all arithmetic is exact any difference is a violation".into(),
        ],
        families: fams,
        pool: true,
        bounds: "complete: n<=5, c<=3, t<=2 over the alphabets; structured up to 2100 rows (70000 thorough), sizes up to 1025 rows, columns or targets along the axes; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) and coarse settings up to a cost bound".into(),
    });
}
