// D03: sorted feature columns are faithful sorted views.
use common::data_processor::create_dataset_with_sorted_features;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

/// The model: rank rows of a column by (value, row number).
fn model_column(col: &[f64]) -> Vec<(f64, usize)> {
    let mut left: Vec<usize> = (0..col.len()).collect();
    if col.len() <= 8 {
        // selection, straight from the statement
        let mut out = vec![];
        while !left.is_empty() {
            let mut b = 0;
            for k in 1..left.len() {
                if col[left[k]] < col[left[b]] {
                    b = k;
                }
            }
            let r = left.remove(b);
            out.push((col[r], r));
        }
        out
    } else {
        left.sort_by(|&a, &b| col[a].partial_cmp(&col[b]).unwrap().then(a.cmp(&b)));
        left.into_iter().map(|r| (col[r], r)).collect()
    }
}

fn check(d: &Data, ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| d.describe());
    let ds = d.ds();
    let out = must("create_dataset_with_sorted_features", || {
        let s = create_dataset_with_sorted_features(&ds);
        (
            s.labels.iter().map(|l| l.to_vec()).collect::<Vec<_>>(),
            s.sorted_feature_columns.clone(),
        )
    })?;
    ctx.state(d.hash(3));
    let mut h = H::new(3);
    if out.0 != d.labels {
        return Err("labels differ from the rows' labels in row order".into());
    }
    if out.1.len() != d.c() {
        return Err(format!("{} columns instead of {}", out.1.len(), d.c()));
    }
    for (j, col) in d.columns().iter().enumerate() {
        let want = model_column(col);
        ctx.trans(want.len() as u64);
        for (v, r) in &out.1[j] {
            h.f(*v).u(*r as u64);
        }
        if out.1[j] != want {
            let k = (0..want.len()).find(|&k| out.1[j].get(k) != Some(&want[k]));
            return Err(format!(
                "column {}: {} entries, first difference at position {:?}: {:?} instead of {:?}",
                j,
                out.1[j].len(),
                k,
                k.and_then(|k| out.1[j].get(k)),
                k.and_then(|k| want.get(k))
            ));
        }
    }
    if ds.feature_rows != d.rows || ds.labels != d.labels || ds.feature_columns != d.columns() {
        return Err("the data set itself was changed".into());
    }
    ctx.outcome(h.get());
    ctx.trace();
    Ok(())
}

const ALPHA: [f64; 7] = [f64::NEG_INFINITY, -1.0, -0.0, 0.0, 5e-324, 1.5, f64::INFINITY];

fn main() {
    let th = thorough();
    let mut fams = vec![];
    let mut grids = vec![(1, 1, 7), (2, 1, 7), (3, 1, 7), (4, 1, 7), (5, 1, 7), (6, 1, 6), (1, 2, 7), (2, 2, 7), (3, 2, 7), (2, 3, 7), (4, 2, 4), (3, 3, 4), (7, 1, 5)];
    if th {
        grids.push((7, 1, 7));
        grids.push((8, 1, 6));
        grids.push((4, 2, 7));
        grids.push((5, 2, 5));
        grids.push((3, 3, 6));
    }
    for (n, c, a) in grids {
        let count = (a as u64).pow((n * c) as u32);
        fams.push(Family::new(format!("n{}c{}a{}", n, c, a), count, move |i, ctx| {
            // the middle of the alphabet first, so that small alphabets still have +-0 and ties
            let off = (ALPHA.len() - a) / 2;
            let ds = digits(i, a as u64, n * c);
            let rows = (0..n).map(|r| (0..c).map(|j| ALPHA[off + ds[r * c + j]]).collect()).collect();
            let labels = (0..n).map(|r| vec![r as f64, -(r as f64) * 0.5]).collect();
            check(&Data { rows, labels }, ctx)
        }));
    }
    let mut b = bigs(
        &[(10, 2, 1), (21, 3, 2), (33, 2, 1), (64, 2, 1), (65, 1, 1), (100, 40, 2), (129, 1, 1), (257, 2, 1), (300, 300, 1), (1000, 3, 1), (3000, 1, 300), (5001, 2, 1)],
        &(0..NPAT).collect::<Vec<_>>(),
        &[0, 7],
        &[(1.0, 0.0)],
    );
    b.extend(bigs(&[(70_000, 2, 1)], &(0..NPAT).collect::<Vec<_>>(), &[0], &[(1.0, 0.0)]));
    fams.push(Family::new("structured", b.len() as u64, move |i, ctx| check(&b[i as usize].data(), ctx)).chunk(1));
    // every size in turn, every combination of coarse sizes
    let z = Sizes::new(10_001, 2049, 2049, if th { 2100 } else { 1100 });
    fams.push(Family::new("sizes", z.count(), move |i, ctx| check(&z.get(i), ctx)).chunk(4));
    let e = Extras::new();
    fams.push(Family::new("extras", e.count(), move |i, ctx| check(&e.get(i), ctx)));
    // neighbouring values of every magnitude
    const NEAR: [f64; 12] = [1.0, 1.0000000000000002, 0.9999999999999999, 1e300, 1.0000000000000001e300, 16777216.0, 16777217.0, 1e-9, 1.1e-9, 4503599627370496.5, -1.0000000000000002, -1.0];
    for n in [2usize, 3, 4] {
        fams.push(Family::new(format!("near-n{}", n), 12u64.pow(n as u32), move |i, ctx| {
            let ds = digits(i, 12, n);
            let rows = (0..n).map(|r| vec![NEAR[ds[r]]]).collect();
            check(&Data { rows, labels: (0..n).map(|r| vec![r as f64]).collect() }, ctx)
        }));
    }
    let x = Mix::new(&[1], &[1], &[1.0], 4_000_000);
    fams.push(Family::new("mix", x.count(), move |i, ctx| check(&x.get(i).0, ctx)).chunk(4));
    main_run(Check {
        id: "D03",
        level: "model_checking",
        rule: "every assignment of values from an alphabet with infinities, signed zeros and a subnormal to n x c cells; plus structured data".into(),
        assumptions: vec!["feature values are not NaN".into(), "-0.0 and 0.0 are equal values".into()],
        families: fams,
        pool: true,
        bounds: "complete: n<=7 with one column, n<=4 with two, n<=3 with three; structured up to 70000 rows, 300 columns; sizes up to 10001 rows, 2049 columns, 2049 targets along the axes; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) up to a cost bound".into(),
    });
}
