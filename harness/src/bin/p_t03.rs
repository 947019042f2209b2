// T03: the level limit only truncates; deeper never fits worse.
use multi_target_decision_tree::scorer::regression::calculate_overall_mean_squared_error;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

/// The deep tree cut off at `level`, with the routed rows as leaf contents.
fn cut(d: &Data, t: &Tree<Held>, rows: Vec<usize>, level: u32) -> Tree<Vec<usize>> {
    match t {
        Tree::Node { col, val, yes, no } if level > 0 => {
            let (a, b): (Vec<usize>, Vec<usize>) = rows.iter().partition(|&&i| d.rows[i][*col] >= *val);
            Tree::Node { col: *col, val: *val, yes: Box::new(cut(d, yes, a, level - 1)), no: Box::new(cut(d, no, b, level - 1)) }
        }
        _ => Tree::Leaf(rows),
    }
}

fn same(d: &Data, got: &Tree<Held>, want: &Tree<Vec<usize>>, ctx: &mut Ctx) -> Result<(), String> {
    ctx.trans(1);
    match (got, want) {
        (Tree::Leaf(h), Tree::Leaf(rows)) => leaf_holds(d, rows, h),
        (Tree::Node { col: a, val: b, yes, no }, Tree::Node { col: c, val: e, yes: y, no: n }) if a == c && b == e => {
            same(d, yes, y, ctx)?;
            same(d, no, n, ctx)
        }
        (Tree::Node { col, val, .. }, Tree::Leaf(r)) => Err(format!("has an extra question column {} >= {:?} for rows {:?}", col, val, &r[..r.len().min(16)])),
        (Tree::Leaf(_), Tree::Node { col, val, .. }) => Err(format!("lacks the question column {} >= {:?}", col, val)),
        (Tree::Node { col: a, val: b, .. }, Tree::Node { col: c, val: e, .. }) => Err(format!("asks column {} >= {:?} instead of column {} >= {:?}", a, b, c, e)),
    }
}

/// The deep tree's shape cut off at `level`, questions only.
fn cut_shape<P>(t: &Tree<P>, level: u32) -> Tree<()> {
    match t {
        Tree::Node { col, val, yes, no } if level > 0 => Tree::Node { col: *col, val: *val, yes: Box::new(cut_shape(yes, level - 1)), no: Box::new(cut_shape(no, level - 1)) },
        _ => Tree::Leaf(()),
    }
}

/// Boosting trees and approximate ones: every limit gives the deep tree cut off there, with each
/// kind's leaf rule on the rows routed to the leaf.
fn check_outputs(d: &Data, limits: &[u32], mt: bool, ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| format!("boosting trees of {} limits={:?} multi_threading={}", d.describe(), limits, mt));
    let deep_limit = d.n() as u32 + 3;
    let (da, db) = train_outputs(d, deep_limit, mt)?;
    ctx.state(d.hash(32));
    let mut h = H::new(33);
    let all: Vec<usize> = (0..d.n()).collect();
    for &l in limits {
        let (a, b) = train_outputs(d, l, mt)?;
        ctx.trans(2);
        if a.shape() != cut_shape(&da, l) {
            return Err(format!("boosting tree with limit {} is {:?}, the deepest one cut off there is {:?}", l, a.shape(), cut_shape(&da, l)));
        }
        if b.shape() != cut_shape(&db, l) {
            return Err(format!("approximate tree with limit {} is {:?}, the deepest one cut off there is {:?}", l, b.shape(), cut_shape(&db, l)));
        }
        outputs_hold(d, &a, all.clone(), &mut |r, o| mean_holds(d, r, o)).map_err(|e| format!("boosting tree with limit {}: {}", l, e))?;
        outputs_hold(d, &b, all.clone(), &mut |r, o| amg_holds(d, r, o)).map_err(|e| format!("approximate tree with limit {}: {}", l, e))?;
        a.hash_shape(&mut h);
    }
    ctx.outcome(h.get());
    ctx.trace();
    Ok(())
}
fn outputs_hold<P>(d: &Data, t: &Tree<P>, rows: Vec<usize>, f: &mut dyn FnMut(&[usize], &P) -> Result<(), String>) -> Result<(), String> {
    match t {
        Tree::Leaf(p) => f(&rows, p).map_err(|e| format!("leaf of rows {:?}: {}", &rows[..rows.len().min(16)], e)),
        Tree::Node { col, val, yes, no } => {
            let (a, b): (Vec<usize>, Vec<usize>) = rows.iter().partition(|&&i| d.rows[i][*col] >= *val);
            if a.is_empty() || b.is_empty() {
                return Err("a question does not separate its rows".into());
            }
            outputs_hold(d, yes, a, f)?;
            outputs_hold(d, no, b, f)
        }
    }
}

fn check(d: &Data, limits: &[u32], mt: bool, ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| format!("{} limits={:?} multi_threading={}", d.describe(), limits, mt));
    let deep_limit = d.n() as u32 + 3;
    let deep = train_held(d, deep_limit, mt)?;
    let all: Vec<usize> = (0..d.n()).collect();
    ctx.state(d.hash(31));
    let m = max_abs(&d.labels);
    let slack = 1e-9 * m * m;
    let ds = d.ds();
    let mut last = f64::INFINITY;
    let mut h = H::new(3);
    let mut lims = limits.to_vec();
    lims.push(deep_limit);
    lims.sort_unstable();
    for &l in &lims {
        let root = Box::new(train_tree(d, l, mt)?);
        let t = read_tree(&root, d.c(), &mut held)?;
        let want = cut(d, &deep, all.clone(), l);
        same(d, &t, &want, ctx).map_err(|e| format!("tree with limit {} is not the tree with limit {} cut off there: it {}", l, deep_limit, e))?;
        let score = must("scoring", || calculate_overall_mean_squared_error(&ds, &root))?;
        let preds: Vec<Vec<f64>> = d.rows.iter().map(|r| { let x = &t.leaf_of(r).labels; mean_of(x, &(0..x.len()).collect::<Vec<_>>()) }).collect();
        let own = mse(&preds, &d.labels);
        if !close(score, own, 1e-9 * own + slack) {
            return Err(format!("limit {}: training error {:?} instead of {:?}", l, score, own));
        }
        if !(score <= last + slack) {
            return Err(format!("limit {}: training error {:?} after {:?} with the smaller limit", l, score, last));
        }
        if l == 0 {
            let mean = mean_of(&d.labels, &all);
            if preds.iter().any(|p| !close_vec(p, &mean, 1e-9 * (m + 1e-300))) {
                return Err(format!("limit 0 predicts {:?}, the overall mean is {:?}", preds[0], mean));
            }
        }
        last = score;
        h.f(score);
        ctx.state(H(d.hash(31)).u(l as u64).get());
    }
    ctx.outcome(h.get());
    if d.c() == 1 {
        let functional = (0..d.n()).all(|i| (0..d.n()).all(|j| d.rows[i][0] != d.rows[j][0] || d.labels[i] == d.labels[j]));
        if functional && !(last <= slack) {
            return Err(format!("single feature determines the labels but the deepest tree leaves a training error of {:?}", last));
        }
    }
    ctx.trace();
    Ok(())
}

fn main() {
    let th = thorough();
    let mut spaces = vec![
        Space::new(1, 1, 1, &[0, 1, 6], &[0.0, 5.0]),
        Space::new(2, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[-3.0, 0.0, 0.1, 7.0]),
        Space::new(2, 2, 2, &[0], &[-3.0, 0.0, 7.0]),
        Space::new(3, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[-3.0, 0.0, 0.1, 7.0]),
        Space::new(3, 1, 2, &[0], &[-3.0, 0.0, 7.0]),
        Space::new(3, 2, 1, &[0, 1, 6], &[-3.0, 0.0, 7.0]),
        Space::new(4, 1, 1, &[0, 1, 4, 6, 8], &[-3.0, 0.0, 0.1, 7.0]),
        Space::new(4, 1, 2, &[0], &[0.0, 1.0]),
        Space::new(4, 2, 1, &[0], &[0.0, 4.0]),
        Space::new(5, 1, 1, &[0], &[0.0, 1.0, 4.0]),
    ];
    if th {
        spaces.push(Space::new(4, 2, 1, &[0, 1, 6], &[0.0, 1.0, 4.0]));
        spaces.push(Space::new(4, 3, 1, &[0], &[0.0, 1.0]));
        spaces.push(Space::new(5, 2, 1, &[0], &[0.0, 1.0]));
        spaces.push(Space::new(5, 1, 1, &[0, 1, 6], &[-3.0, 0.0, 0.1, 7.0]));
        spaces.push(Space::new(4, 1, 2, &[0], &[0.0, 1.0, 4.0]));
    }
    let mut fams = vec![];
    for s in spaces.iter().filter(|s| th || s.count() < 30_000).cloned() {
        let limits: Vec<u32> = (0..=s.n as u32).collect();
        fams.push(Family::new(format!("outputs-{}", s.name()), s.count() * 2, move |i, ctx| check_outputs(&s.get(i / 2), &limits, i % 2 == 1, ctx)));
    }
    for s in spaces {
        let limits: Vec<u32> = (0..=s.n as u32).collect();
        fams.push(Family::new(format!("small-{}", s.name()), s.count() * 2, move |i, ctx| {
            let mut cut = Cut(i);
            let mt = cut.take(2) == 1;
            check(&s.get(cut.0), &limits, mt, ctx)
        }));
    }
    let all: Vec<usize> = (0..NPAT).collect();
    let mut b = bigs(&[(6, 2, 2), (9, 3, 1), (17, 1, 3), (40, 3, 2), (70, 1, 1)], &all, &all, &[(1.0, 0.0), (0.37, 10.0)]);
    b.extend(bigs(&[(130, 2, 2), (300, 3, 2), (1100, 1, 1)], &[0, 4, 7, 10], &[0, 4, 8, 10, 13], &[(1.0, 0.0)]));
    b.extend(bigs(&[(12, 2, 40), (20, 70, 1)], &[0, 4], &[0, 4, 10], &[(1.0, 0.0)]));
    fams.push(Family::new("structured", b.len() as u64 * 2, move |i, ctx| {
        let mut cut = Cut(i);
        let mt = cut.take(2) == 1;
        let d = b[cut.take(b.len() as u64)].data();
        check_outputs(&d, &[0, 1, 2, 3, 5, 9, 17], mt, ctx)?;
        check(&d, &[0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 17, 20, 32, 33], mt, ctx)
    }).chunk(2));
    fams.push(Family::new("chain", 60 * 2, |i, ctx| {
        let n = (i / 2 + 2) as usize;
        let rows = (0..n).map(|r| vec![r as f64]).collect();
        let labels = (0..n).map(|r| vec![3f64.powi(if i % 2 == 0 { r as i32 } else { -(r as i32) })]).collect();
        let limits: Vec<u32> = (0..=n as u32).collect();
        check(&Data { rows, labels }, &limits, false, ctx)
    }).chunk(2));
    fams.push(Family::new("files", REAL - 1, |i, ctx| {
        let Some(d) = real(i) else { ctx.skip(); return Ok(()) };
        check(&d, &[0, 1, 2, 3, 5, 8], i % 2 == 1, ctx)
    }).chunk(1));
    fams.push(Family::new("deep", 2, |i, ctx| {
        let n = 300usize;
        let rows = (0..n).map(|r| vec![if i == 1 { (n - r) as f64 } else { r as f64 }]).collect();
        let labels = (0..n).map(|r| vec![1.9f64.powi(r as i32)]).collect();
        let d = Data { rows, labels };
        check_outputs(&d, &[0, 31, 32, 33, 63, 64, 65, 99, 100, 128, 254, 255, 256, 257, 290], i == 1, ctx)?;
        check(&d, &[0, 31, 32, 33, 63, 64, 65, 99, 100, 128, 254, 255, 256, 257, 290], i == 1, ctx)
    }).chunk(1));
    // every size in turn; every limit up to 70 and around round numbers
    // very many rows
    let hz = Sizes::huge();
    fams.push(Family::new("huge", hz.count() / 8 * 3 * 2, move |i, ctx| {
        let d = if i % 2 == 1 { hz.class(i / 2).0 } else { hz.get(i / 2) };
        check_outputs(&d, &[1, 2], i / 2 % 2 == 1, ctx)?;
        check(&d, &[0, 1, 2], i / 2 % 2 == 1, ctx)
    }).chunk(1));
    let z = Sizes::new(513, 257, 257, if th { 1100 } else { 300 });
    fams.push(Family::new("sizes", z.count() * 2, move |i, ctx| {
        let d = if i % 2 == 1 { z.class(i / 2).0 } else { z.get(i / 2) };
        let mt = i / 2 % 2 == 1;
        check_outputs(&d, &[0, 1, 2, 4], mt, ctx)?;
        check(&d, &[0, 1, 2, 3, 4, 6], mt, ctx)
    }).chunk(4));
    let lim: Vec<u32> = std::iter::once(0).chain(counts(2000, if th { 1100 } else { 300 }).into_iter().map(|l| l as u32)).chain([65_535, 65_536, 65_537, 1 << 31, u32::MAX - 1, u32::MAX]).collect();
    fams.push(Family::new("limits", 8, move |i, ctx| {
        let n = [2usize, 5, 20, 90][(i % 4) as usize];
        let rows = (0..n).map(|r| vec![r as f64]).collect();
        let labels = (0..n).map(|r| vec![1.9f64.powi(r as i32)]).collect();
        let d = Data { rows, labels };
        check_outputs(&d, &lim, i >= 4, ctx)?;
        check(&d, &lim, i >= 4, ctx)
    }).chunk(1));
    // twin columns; every magnitude of labels and features
    let e = Extras::new();
    fams.push(Family::new("extras", e.count() * 2, move |i, ctx| {
        let d = if i % 2 == 0 { e.get(i / 2) } else { e.class(i / 2).0 };
        let mt = i / 2 % 2 == 1;
        check_outputs(&d, &[0, 1, 2], mt, ctx)?;
        check(&d, &[0, 1, 2, 5], mt, ctx)
    }));
    // trees as deep as there are rows
    let ch = Chains::new(if th { 150 } else { 65 }, 490);
    fams.push(Family::new("chains", ch.count() * 2, move |i, ctx| {
        let d = if i % 2 == 1 { ch.class(i / 2).0 } else { ch.get(i / 2) };
        check_outputs(&d, &[0, 1, 20, 500], i / 2 % 2 == 1, ctx)?;
        check(&d, &[0, 1, 2, 31, 32, 63, 64, 127, 128, 255, 256, 500], i / 2 % 2 == 1, ctx)
    }).chunk(1));
    // every combination of coarse sizes and settings
    let x = Mix::new(&[40], &[1], &[1.0], 120_000);
    fams.push(Family::new("mix", x.count() * 4, move |i, ctx| {
        let (d, _, _, _, _) = x.get(i / 4);
        let d = if i % 2 == 1 { x.class(i / 4).0 } else { d };
        let mt = i / 2 % 2 == 1;
        check_outputs(&d, &[0, 1, 2, 4], mt, ctx)?;
        check(&d, &[0, 1, 2, 3, 4, 6, 40], mt, ctx)
    }).chunk(2));
    main_run(Check {
        id: "T03",
        level: "model_checking",
        rule: "every data set of the listed small spaces, trained at every level limit 0..n+3, each compared with the deepest tree cut off there".into(),
        assumptions: vec!["feature values are not NaN; number_of_classes equals the label length".into(), "training errors are compared up to 1e-9 of the squared label magnitude".into()],
        families: fams,
        pool: true,
        bounds: "complete: n<=5, c<=3, t<=2 over the alphabets; structured up to 1100 rows, sizes up to 513 rows, 257 columns, 257 targets, chains 60 levels deep, limits up to u32::MAX; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) and coarse settings up to a cost bound".into(),
    });
}
