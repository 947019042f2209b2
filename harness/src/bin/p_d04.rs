// D04: row partitioning is an exact, order-preserving cover.
use common::question::Question;
use multi_target_decision_tree::data_partitioner::partition;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

fn check_side(name: &str, d: &Data, idx: &[usize], got: &common::datasets::MultiTargetDataSet) -> CaseResult {
    let want = d.subset(idx);
    if got.feature_rows != want.rows || got.labels != want.labels {
        return Err(if d.n() <= 24 {
            format!("{} side holds {:?} -> {:?} instead of {:?} -> {:?}", name, got.feature_rows, got.labels, want.rows, want.labels)
        } else {
            format!("{} side ({} rows) is not the expected {} rows in order", name, got.feature_rows.len(), idx.len())
        });
    }
    let cols: Vec<Vec<f64>> = (0..d.c()).map(|j| want.rows.iter().map(|r| r[j]).collect()).collect();
    let empty_ok = idx.is_empty() && got.feature_columns.iter().all(|c| c.is_empty());
    if got.feature_columns != cols && !empty_ok {
        return Err(format!("{} side: the column view is not the transpose of its rows", name));
    }
    Ok(())
}

/// Applies a sequence of questions, following every side to the given depth.
fn explore(d: &Data, qs: &[(usize, f64)], depth: u32, ctx: &mut Ctx) -> CaseResult {
    for &(col, v) in qs {
        let ds = d.ds();
        let q = Question::new(col as u32, v);
        let (f, t) = must("partition", || partition(&ds, &q))
            .map_err(|e| format!("question column {} >= {:?} on {}: {}", col, v, d.describe(), e))?;
        let yes: Vec<usize> = (0..d.n()).filter(|&i| d.rows[i][col] >= v).collect();
        let no: Vec<usize> = (0..d.n()).filter(|&i| !(d.rows[i][col] >= v)).collect();
        ctx.trans(1);
        let r = check_side("true", d, &yes, &t).and_then(|_| check_side("false", d, &no, &f));
        r.map_err(|e| format!("question column {} >= {:?} on {}: {}", col, v, d.describe(), e))?;
        for i in 0..d.n().min(8) {
            if q.solve(&d.rows[i]) != (d.rows[i][col] >= v) {
                return Err(format!("question column {} >= {:?} answers {} for {:?}", col, v, q.solve(&d.rows[i]), d.rows[i]));
            }
        }
        if ds.feature_rows != d.rows || ds.labels != d.labels || ds.feature_columns != d.columns() {
            return Err("partition changed its input".into());
        }
        let mut h = H::new(4);
        h.u(d.hash(4));
        for i in &yes {
            h.u(*i as u64);
        }
        ctx.outcome(h.get());
        if depth > 1 {
            for side in [&yes, &no] {
                if !side.is_empty() {
                    // the next split runs on the implementation's own output, which was just
                    // compared with this subset
                    explore(&d.subset(side), qs, depth - 1, ctx)?;
                }
            }
        }
    }
    ctx.state(d.hash(40));
    ctx.trace();
    Ok(())
}

const ALPHA: [f64; 5] = [f64::NEG_INFINITY, -0.0, 0.0, 2.5, f64::INFINITY];
const NEAR: [f64; 23] = [
    0.9999999999999999, 1.0, 1.0000000000000002, -1.0000000000000002, -1.0, 5e-324, 1e-323, -5e-324, 2.2250738585072014e-308, 1e300, 1.0000000000000001e300, 1.7976931348623157e308,
    0.1, 0.30000000000000004, 0.3, 0.1000001, 16777216.0, 16777217.0, 4503599627370496.5, 9007199254740992.0, 1e-9, 1.1e-9, 0.0,
];
const QV: [f64; 8] = [f64::NEG_INFINITY, -7.0, -0.0, 0.0, 1.0, 2.5, 9.0, f64::INFINITY];

fn main() {
    let th = thorough();
    let mut fams = vec![];
    let mut grids = vec![(1, 1, 1), (2, 1, 2), (3, 1, 2), (4, 1, 2), (5, 1, 1), (1, 2, 2), (2, 2, 2), (3, 2, 1), (2, 3, 1), (6, 1, 1)];
    if th {
        grids.extend([(3, 2, 2), (5, 1, 2), (4, 2, 1), (7, 1, 1)]);
    }
    for (n, c, depth) in grids {
        let count = (ALPHA.len() as u64).pow((n * c) as u32);
        fams.push(Family::new(format!("n{}c{}d{}", n, c, depth), count, move |i, ctx| {
            let ds = digits(i, ALPHA.len() as u64, n * c);
            let rows = (0..n).map(|r| (0..c).map(|j| ALPHA[ds[r * c + j]]).collect()).collect();
            let labels = (0..n).map(|r| vec![r as f64, 100.0 - r as f64]).collect();
            let d = Data { rows, labels };
            ctx.describe(|| d.describe());
            let qs: Vec<(usize, f64)> = (0..c).flat_map(|j| QV.iter().map(move |v| (j, *v))).collect();
            explore(&d, &qs, depth, ctx)
        }));
    }
    // neighbouring and extreme values: the comparison is exact, not within a tolerance
    for (n, c, depth) in [(1usize, 1usize, 2u32), (2, 1, 2), (3, 1, 1), (1, 2, 1)] {
        let count = (NEAR.len() as u64).pow((n * c) as u32);
        fams.push(Family::new(format!("near-n{}c{}", n, c), count, move |i, ctx| {
            let ds = digits(i, NEAR.len() as u64, n * c);
            let rows = (0..n).map(|r| (0..c).map(|j| NEAR[ds[r * c + j]]).collect()).collect();
            let labels = (0..n).map(|r| vec![r as f64, 100.0 - r as f64]).collect();
            let d = Data { rows, labels };
            ctx.describe(|| d.describe());
            let qs: Vec<(usize, f64)> = (0..c).flat_map(|j| NEAR.iter().map(move |v| (j, *v))).collect();
            explore(&d, &qs, depth, ctx)
        }));
    }
    // identical labels / rows: the cover must still be exact
    for (n, c) in [(3usize, 1usize), (4, 1), (2, 2)] {
        let count = 3u64.pow((n * c) as u32) * 2u64.pow(n as u32);
        fams.push(Family::new(format!("dup-n{}c{}", n, c), count, move |i, ctx| {
            let mut cut = Cut(i);
            let rows = (0..n).map(|_| (0..c).map(|_| cut.take(3) as f64).collect()).collect();
            let labels = (0..n).map(|_| vec![cut.take(2) as f64]).collect();
            let d = Data { rows, labels };
            ctx.describe(|| d.describe());
            let qs: Vec<(usize, f64)> = (0..c).flat_map(|j| [0.0, 0.5, 1.0, 2.0, 3.0].iter().map(move |v| (j, *v))).collect();
            explore(&d, &qs, 2, ctx)
        }));
    }
    let mut b = bigs(
        &[(10, 2, 1), (33, 3, 2), (70, 70, 1), (129, 2, 300), (257, 2, 1), (300, 300, 1), (1025, 3, 1), (5001, 2, 1)],
        &(0..NPAT).collect::<Vec<_>>(),
        &[0, 7],
        &[(1.0, 0.0)],
    );
    b.extend(bigs(&[(70_000, 2, 1)], &[0, 1, 4, 7, 10, 12], &[0], &[(1.0, 0.0)]));
    fams.push(
        Family::new("structured", b.len() as u64 * 6, move |i, ctx| {
            let mut cut = Cut(i);
            let big = &b[cut.take(b.len() as u64)];
            let d = big.data();
            ctx.describe(|| format!("{:?}", big));
            let k = cut.take(6);
            let col = [0, d.c() - 1, d.c() / 2][k % 3];
            let mut vals: Vec<f64> = d.rows.iter().map(|r| r[col]).collect();
            vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let v = [vals[vals.len() / 2], vals[0], vals[vals.len() - 1] + 1.0][(k / 3 * 2 + k) % 3];
            explore(&d, &[(col, v)], 1, ctx)
        })
        .chunk(1),
    );
    // every size in turn, every combination of coarse sizes
    let around = |d: &Data| {
        let mut qs = vec![];
        for col in [0, d.c() / 2, d.c() - 1] {
            let mut vals: Vec<f64> = d.rows.iter().map(|r| r[col]).collect();
            vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
            qs.push((col, vals[vals.len() / 2]));
            qs.push((col, vals[vals.len() - 1]));
            qs.push((col, vals[vals.len() / 4] + 0.25));
        }
        qs
    };
    let z = Sizes::new(10_001, 2049, 2049, if th { 2100 } else { 1100 });
    fams.push(Family::new("sizes", z.count(), move |i, ctx| {
        let d = z.get(i);
        ctx.describe(|| d.describe());
        explore(&d, &around(&d), 1, ctx)
    }).chunk(4));
    let e = Extras::new();
    fams.push(Family::new("extras", e.count(), move |i, ctx| {
        let d = e.get(i);
        ctx.describe(|| d.describe());
        explore(&d, &around(&d), 2, ctx)
    }));
    let x = Mix::new(&[1], &[1], &[1.0], 1_000_000);
    fams.push(Family::new("mix", x.count(), move |i, ctx| {
        let d = x.get(i).0;
        ctx.describe(|| d.describe());
        explore(&d, &around(&d), if d.n() * d.c() < 3000 { 2 } else { 1 }, ctx)
    }).chunk(4));
    main_run(Check {
        id: "D04",
        level: "model_checking",
        rule: "every data set over the alphabet, every question (each column, values below, between, at and above), followed into both sides to depth 2 where listed; every side compared row by row with the subset model".into(),
        assumptions: vec!["feature values are not NaN".into(), "the first component of the result is the false side, as at every call site".into(), "an empty side may have no columns or empty columns".into()],
        families: fams,
        pool: true,
        bounds: "complete: n<=6, c<=3 over 5 values and 8 thresholds per column; structured up to 70000 rows, 300 columns, 300 targets; sizes up to 10001 rows, 2049 columns, 2049 targets along the axes; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) up to a cost bound".into(),
    });
}
