// T01: a regression tree is a correct recursive partition.
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

fn check(d: &Data, max_levels: u32, mt: bool, ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| format!("{} max_levels={} multi_threading={}", d.describe(), max_levels, mt));
    let tree = train_held(d, max_levels, mt)?;
    let mut h = H::new(1);
    tree.hash_shape(&mut h);
    ctx.outcome(h.get());
    let spec = TreeSpec { rows: &d.rows, labels: &d.labels, max_levels, delta: 0.0 };
    check_tree(&spec, &tree, ctx, &mut |rows, p, _| leaf_holds(d, rows, p))?;
    ctx.trace();
    Ok(())
}

/// The same for boosting trees, with every tree kind's own leaf rule.
fn check_outputs(d: &Data, max_levels: u32, mt: bool, ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| format!("boosting trees of {} max_levels={} multi_threading={}", d.describe(), max_levels, mt));
    let (a, b) = train_outputs(d, max_levels, mt)?;
    let mut h = H::new(2);
    a.hash_shape(&mut h);
    b.hash_shape(&mut h);
    ctx.outcome(h.get());
    let spec = TreeSpec { rows: &d.rows, labels: &d.labels, max_levels, delta: 0.0 };
    check_tree(&spec, &a, ctx, &mut |rows, p, _| mean_holds(d, rows, p)).map_err(|e| format!("boosting tree: {}", e))?;
    check_tree(&spec, &b, ctx, &mut |rows, p, _| amg_holds(d, rows, p)).map_err(|e| format!("approximate tree: {}", e))?;
    ctx.trace();
    Ok(())
}

fn main() {
    let th = thorough();
    let mut fams = vec![];
    let mut spaces = vec![
        Space::new(1, 1, 1, &[0, 1, 6], &[0.0, 5.0]),
        Space::new(2, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[-3.0, 0.0, 0.1, 1e3]),
        Space::new(2, 2, 2, &[0, 1, 6], &[-3.0, 0.0, 7.0]),
        Space::new(3, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[-3.0, 0.0, 0.1, 7.0, 1e3]),
        Space::new(3, 1, 2, &[0, 1, 4, 6, 8, 9], &[-3.0, 0.0, 0.25, 7.0]),
        Space::new(3, 2, 1, &[0, 1, 2, 3, 4, 6, 7, 8, 9], &[-3.0, 0.0, 7.0]),
        Space::new(3, 2, 2, &[0], &[0.0, 1.0, 4.0]),
        Space::new(3, 3, 1, &[0, 4], &[0.0, 1.0, 4.0]),
        Space::new(4, 1, 1, &[0, 1, 3, 4, 6, 8], &[-3.0, 0.0, 0.1, 7.0]),
        Space::new(4, 1, 2, &[0], &[0.0, 1.0]),
        Space::new(4, 2, 1, &[0], &[0.0, 1.0, 4.0]),
        Space::new(5, 1, 1, &[0], &[0.0, 1.0, 4.0]),
    ];
    if th {
        spaces.push(Space::new(4, 1, 2, &[0], &[0.0, 1.0, 4.0]));
        spaces.push(Space::new(5, 1, 1, &[1, 6], &[0.0, 1.0, 4.0]));
        spaces.push(Space::new(4, 2, 1, &[1, 4, 6], &[-3.0, 0.0, 0.1, 7.0]));
        spaces.push(Space::new(4, 2, 2, &[0], &[0.0, 1.0]));
        spaces.push(Space::new(4, 3, 1, &[0], &[0.0, 1.0]));
        spaces.push(Space::new(5, 1, 2, &[0], &[0.0, 1.0]));
        spaces.push(Space::new(5, 2, 1, &[0], &[0.0, 1.0]));
        spaces.push(Space::new(5, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[-3.0, 0.0, 0.1, 7.0]));
    }
    for s in spaces.iter().filter(|s| th || s.count() < 30_000).cloned() {
        let limits: Vec<u32> = (0..=s.n as u32).collect();
        let depths = limits.len() as u64;
        fams.push(Family::new(format!("outputs-{}", s.name()), s.count() * depths * 2, move |i, ctx| {
            let mut cut = Cut(i);
            let depth = limits[cut.take(depths)];
            let mt = cut.take(2) == 1;
            check_outputs(&s.get(cut.0), depth, mt, ctx)
        }));
    }
    for s in spaces {
        // at most n-1 levels are ever needed; one limit beyond that
        let limits: Vec<u32> = if th || s.count() < 100_000 {
            (0..=s.n as u32).collect()
        } else {
            vec![1, s.n as u32]
        };
        let depths = limits.len() as u64;
        let count = s.count() * depths * 2;
        fams.push(Family::new(format!("small-{}", s.name()), count, move |i, ctx| {
            let mut cut = Cut(i);
            let depth = limits[cut.take(depths)];
            let mt = cut.take(2) == 1;
            let d = s.get(cut.0);
            check(&d, depth, mt, ctx)
        }));
    }
    // structured larger data: row, column, target, depth and magnitude thresholds
    let mut b = bigs(
        &[(6, 2, 2), (9, 3, 1), (17, 5, 3), (40, 3, 2), (70, 9, 1)],
        &(0..NPAT).collect::<Vec<_>>(),
        &(0..NPAT).collect::<Vec<_>>(),
        &[(1.0, 0.0), (0.001, 0.0), (12.5, 100.0)],
    );
    b.extend(bigs(&[(130, 2, 2), (300, 3, 2)], &[0, 2, 4, 7, 10, 12], &[0, 3, 4, 6, 8, 10, 13], &[(1.0, 0.0), (0.3, -7.0)]));
    b.extend(bigs(&[(20, 70, 2), (20, 300, 1), (12, 2, 40), (12, 2, 300)], &[0, 4, 7], &[0, 4, 10], &[(1.0, 0.0)]));
    b.extend(bigs(&[(1100, 2, 1), (2100, 1, 1)], &[0, 4, 10], &[4, 9, 10], &[(1.0, 0.0)]));
    if th {
        b.extend(bigs(&[(70_000, 1, 1)], &[0, 10], &[9, 10], &[(1.0, 0.0)]));
        b.extend(bigs(&[(33, 4, 3), (64, 8, 8), (257, 4, 2), (513, 2, 2)], &(0..NPAT).collect::<Vec<_>>(), &(0..NPAT).collect::<Vec<_>>(), &[(1.0, 0.0), (1000.0, 5.0)]));
    }
    let depths: Vec<u32> = vec![0, 1, 2, 3, 5, 9, 17, 40, 1000];
    let nd = depths.len() as u64;
    fams.push(
        Family::new("structured", b.len() as u64 * nd * 2, move |i, ctx| {
            let mut cut = Cut(i);
            let big = &b[cut.take(b.len() as u64)];
            let depth = depths[cut.take(nd)];
            let mt = cut.take(2) == 1;
            if depth == 3 || depth == 40 {
                check_outputs(&big.data(), depth, mt, ctx)?;
            }
            check(&big.data(), depth, mt, ctx)
        })
        .chunk(2),
    );
    // the repository's data files
    fams.push(Family::new("files", REAL * 10, |i, ctx| {
        let Some(d) = real(i % REAL) else { ctx.skip(); return Ok(()) };
        let k = i / REAL;
        check(&d, [1, 2, 4, 8, 1000][(k % 5) as usize], k >= 5, ctx)
    }).chunk(1));
    // magnitudes, and labels that differ by little
    let sc = [(1e-6, 0.0), (1e-9, 0.0), (1e-12, 0.0), (1e-60, 0.0), (1e9, 0.0), (1e100, 0.0), (1e-5, 1.0), (1e-3, 1e3)];
    let b2 = bigs(&[(3, 1, 1), (6, 2, 2), (17, 3, 1), (40, 2, 3)], &all_pats(), &all_pats(), &sc);
    fams.push(Family::new("scales", b2.len() as u64 * 2, move |i, ctx| check(&b2[(i / 2) as usize].data(), [2, 40][(i % 2) as usize], i % 4 == 1, ctx)));
    let nears = near_spaces();
    for s in nears {
        fams.push(Family::new(format!("near-{}", s.name()), s.count(), move |i, ctx| check(&s.get(i), 4, i % 2 == 1, ctx)));
    }
    // chains: one row peeled off per level, up to 60 levels deep
    fams.push(Family::new("chain", 60 * 2, |i, ctx| {
        let n = (i / 2 + 2) as usize;
        let rows = (0..n).map(|r| vec![r as f64]).collect();
        let labels = (0..n).map(|r| vec![4f64.powi(if i % 2 == 0 { r as i32 } else { -(r as i32) })]).collect();
        let d = Data { rows, labels };
        check(&d, 1000, false, ctx)?;
        check(&d, (n / 2) as u32, false, ctx)
    }).chunk(4));
    // deep trees: limits and counters around byte and word sizes
    fams.push(Family::new("deep", 16 * 4, |i, ctx| {
        let l = [0u32, 31, 32, 33, 63, 64, 65, 99, 100, 128, 254, 255, 256, 257, 65_536, u32::MAX][(i % 16) as usize];
        let v = i / 16;
        let n = if v < 2 { 300usize } else { 280 };
        let rows = (0..n).map(|r| vec![if v == 1 { (n - r) as f64 } else { r as f64 }]).collect();
        // growing labels peel off one row per level, alternating ones about one per two rows
        let labels = (0..n).map(|r| if v < 2 { vec![1.9f64.powi(r as i32)] } else { vec![(r % 2) as f64, ((r / 2) % 2) as f64] }).collect();
        let d = Data { rows, labels };
        check_outputs(&d, l, v % 2 == 1, ctx)?;
        check(&d, l, v % 2 == 1, ctx)
    }).chunk(1));
    // every size in turn
    // very many rows
    let hz = Sizes::huge();
    fams.push(Family::new("huge", hz.count() * 2, move |i, ctx| {
        let d = if i % 2 == 1 { hz.class(i / 2).0 } else { hz.get(i / 2) };
        check_outputs(&d, 2, i / 2 % 2 == 1, ctx)?;
        check(&d, 2, i / 2 % 2 == 1, ctx)
    }).chunk(1));
    let z = Sizes::new(1025, 1025, 1025, if th { 1100 } else { 260 });
    fams.push(Family::new("sizes", z.count() * 3, move |i, ctx| {
        let d = if i % 3 == 2 { z.class(i / 3).0 } else { z.get(i / 3) };
        let (l, mt) = [(2, true), (1000, false), (1000, true)][(i % 3) as usize];
        check_outputs(&d, l, mt, ctx)?;
        check(&d, l, mt, ctx)
    }).chunk(4));
    // twin columns; every magnitude of labels and features
    let e = Extras::new();
    fams.push(Family::new("extras", e.count() * 4, move |i, ctx| {
        let d = if i % 2 == 0 { e.get(i / 4) } else { e.class(i / 4).0 };
        let (l, mt) = (if i / 2 % 2 == 0 { 1 } else { 30 }, i / 4 % 2 == 1);
        check_outputs(&d, l, mt, ctx)?;
        check(&d, l, mt, ctx)
    }));
    // trees as deep as there are rows
    let ch = Chains::new(if th { 150 } else { 65 }, 490);
    fams.push(Family::new("chains", ch.count() * 6, move |i, ctx| {
        let mut cut = Cut(i);
        let (class, l) = (cut.take(2) == 1, [1000, 100, 7][cut.take(3)]);
        let d = if class { ch.class(cut.0).0 } else { ch.get(cut.0) };
        check_outputs(&d, l, i % 4 > 1, ctx)?;
        check(&d, l, i % 4 > 1, ctx)
    }).chunk(1));
    // every combination of coarse sizes and settings
    let x = Mix::new(&[0, 1, 2, 3, 4, 6, 9, 40, 1000], &[1], &[1.0], 600_000);
    fams.push(Family::new("mix", x.count() * 2, move |i, ctx| {
        let (d, l, _, _, mt) = x.get(i / 2);
        let d = if i % 2 == 1 { x.class(i / 2).0 } else { d };
        check_outputs(&d, l, mt, ctx)?;
        check(&d, l, mt, ctx)
    }).chunk(4));
    main_run(Check {
        id: "T01",
        level: "model_checking",
        rule: "every data set of the listed small spaces (all weak orderings of each feature column, all label assignments), every level limit 0..n, both builders; plus structured larger data; a case is non-trivial when the model's partition walk visits its states".into(),
        assumptions: vec!["feature values are not NaN; number_of_classes equals the label length".into(), "gains are compared up to 64*n*eps*sum(max|y|^2) per node".into()],
        families: fams,
        pool: true,
        bounds: "n<=5, c<=3, t<=2 complete over the alphabets; structured up to 2100 rows (70000 thorough), sizes up to 1025 rows, columns or targets along the axes, depth 1000; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) and coarse settings up to a cost bound".into(),
    });
}
