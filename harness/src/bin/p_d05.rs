// D05: sorted-column partitioning is an exact cover, also of data that are themselves split results.
use common::data_processor::{create_dataset_with_sorted_features, new_partition};
use common::datasets::MultiTargetDataSetSortedFeatures;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

fn check_side(name: &str, d: &Data, idx: &[usize], got: &MultiTargetDataSetSortedFeatures) -> CaseResult {
    let labels: Vec<Vec<f64>> = got.labels.iter().map(|l| l.to_vec()).collect();
    let want: Vec<Vec<f64>> = idx.iter().map(|&i| d.labels[i].clone()).collect();
    if labels != want {
        return Err(if d.n() <= 24 {
            format!("{} side holds labels {:?} instead of {:?}", name, labels, want)
        } else {
            format!("{} side holds {} labels that are not the expected {} in row order", name, labels.len(), want.len())
        });
    }
    if got.sorted_feature_columns.len() != d.c() {
        return Err(format!("{} side has {} columns", name, got.sorted_feature_columns.len()));
    }
    for j in 0..d.c() {
        let mut w: Vec<(f64, usize)> = idx.iter().map(|&i| (d.rows[i][j], i)).collect();
        w.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
        if got.sorted_feature_columns[j] != w {
            return Err(if d.n() <= 24 {
                format!("{} side, column {}: {:?} instead of {:?}", name, j, got.sorted_feature_columns[j], w)
            } else {
                format!("{} side, column {}: {} entries differ from the expected {}", name, j, got.sorted_feature_columns[j].len(), w.len())
            });
        }
    }
    Ok(())
}

struct Walk<'a, 'b> {
    d: &'a Data,
    all: &'a Vec<&'b Vec<f64>>,
    qs: &'a [(usize, f64)],
}

/// A state is the set of rows still present; every question is applied in every state.
fn explore<'b>(
    w: &Walk<'_, 'b>,
    cur: &MultiTargetDataSetSortedFeatures<'b>,
    idx: &[usize],
    path: &mut Vec<(usize, f64, bool)>,
    depth: u32,
    ctx: &mut Ctx,
) -> CaseResult {
    let mut h = H::new(5);
    h.u(w.d.hash(5));
    for i in idx {
        h.u(*i as u64);
    }
    ctx.state(h.get());
    for &(col, v) in w.qs {
        let at = |e: String| format!("after {:?}, split (column {}, {:?}): {}", path, col, v, e);
        let (t, f) = must("new_partition", || new_partition(cur, col, v, w.all)).map_err(&at)?;
        let yes: Vec<usize> = idx.iter().cloned().filter(|&i| w.d.rows[i][col] >= v).collect();
        let no: Vec<usize> = idx.iter().cloned().filter(|&i| !(w.d.rows[i][col] >= v)).collect();
        ctx.trans(1);
        check_side("true", w.d, &yes, &t).and_then(|_| check_side("false", w.d, &no, &f)).map_err(&at)?;
        check_side("(input after the call)", w.d, idx, cur).map_err(&at)?;
        let mut h2 = h;
        h2.u(yes.len() as u64);
        for i in &yes {
            h2.u(*i as u64);
        }
        ctx.outcome(h2.get());
        if depth > 1 {
            path.push((col, v, true));
            explore(w, &t, &yes, path, depth - 1, ctx)?;
            path.pop();
            path.push((col, v, false));
            explore(w, &f, &no, path, depth - 1, ctx)?;
            path.pop();
        }
    }
    Ok(())
}

fn run(d: &Data, qs: &[(usize, f64)], depth: u32, ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| format!("{} questions={:?} depth={}", d.describe(), &qs[..qs.len().min(12)], depth));
    let ds = d.ds();
    let s = must("create_dataset_with_sorted_features", || create_dataset_with_sorted_features(&ds))?;
    let all = s.labels.clone();
    let idx: Vec<usize> = (0..d.n()).collect();
    let w = Walk { d, all: &all, qs };
    explore(&w, &s, &idx, &mut vec![], depth, ctx)?;
    ctx.trace();
    Ok(())
}

const QV: [f64; 7] = [f64::NEG_INFINITY, 0.5, 1.0, 2.0, 2.5, 4.0, f64::INFINITY];

fn main() {
    let th = thorough();
    let mut fams = vec![];
    let mut sp = vec![(1, 1, 3), (2, 1, 3), (3, 1, 3), (4, 1, 3), (1, 2, 3), (2, 2, 3), (3, 2, 2), (5, 1, 2), (3, 3, 1), (4, 2, 1)];
    if th {
        sp.extend([(3, 2, 3), (4, 2, 2), (5, 1, 3), (6, 1, 2), (2, 3, 3)]);
    }
    for (n, c, depth) in sp {
        for vm in [0usize, 1, 2, 3, 4, 6, 7, 8, 9] {
            if ((2..6).contains(&vm) || vm >= 8) && n * c > 4 {
                continue;
            }
            let s = Space::new(n, c, 1, &[vm], &[0.0]);
            let labels: Vec<Vec<f64>> = (0..n).map(|r| vec![r as f64, 50.0 - r as f64]).collect();
            fams.push(Family::new(format!("n{}c{}d{}v{}", n, c, depth, vm), s.count(), move |i, ctx| {
                let mut d = s.get(i);
                d.labels = labels.clone();
                let vals = if (2..6).contains(&vm) { VMAPS[vm].to_vec() } else { QV.to_vec() };
                let qs: Vec<(usize, f64)> = (0..c).flat_map(|j| vals.iter().map(move |v| (j, *v)).collect::<Vec<_>>()).collect();
                run(&d, &qs, depth, ctx)
            }));
        }
    }
    let mut b = bigs(
        &[(10, 2, 1), (33, 3, 2), (70, 70, 1), (129, 2, 300), (257, 2, 1), (300, 300, 1), (1025, 3, 1), (5001, 2, 1)],
        &(0..NPAT).collect::<Vec<_>>(),
        &[0],
        &[(1.0, 0.0)],
    );
    b.extend(bigs(&[(70_000, 2, 1)], &[0, 1, 4, 7, 10, 12], &[0], &[(1.0, 0.0)]));
    fams.push(
        Family::new("structured", b.len() as u64, move |i, ctx| {
            let d = b[i as usize].data();
            let mut qs = vec![];
            for col in [0, d.c() - 1] {
                let mut vals: Vec<f64> = d.rows.iter().map(|r| r[col]).collect();
                vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
                qs.push((col, vals[vals.len() / 2]));
                qs.push((col, vals[vals.len() - 1] + 1.0));
                qs.push((col, vals[vals.len() / 4] + 0.25));
            }
            let depth = if d.n() * d.c() > 20_000 { 1 } else { 3 };
            run(&d, &qs, depth, ctx)
        })
        .chunk(1),
    );
    // every size in turn, every combination of coarse sizes
    let around = |d: &Data| {
        let mut qs = vec![];
        for col in [0, d.c() / 2, d.c() - 1] {
            let mut vals: Vec<f64> = d.rows.iter().map(|r| r[col]).collect();
            vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
            qs.push((col, vals[vals.len() / 2]));
            qs.push((col, vals[vals.len() - 1]));
            qs.push((col, vals[vals.len() / 4] + 0.25));
        }
        qs
    };
    let z = Sizes::new(10_001, 2049, 2049, if th { 2100 } else { 1100 });
    fams.push(Family::new("sizes", z.count(), move |i, ctx| {
        let d = z.get(i);
        run(&d, &around(&d)[..if d.n() > 2000 { 3 } else { 9 }], 1, ctx)
    }).chunk(4));
    let e = Extras::new();
    fams.push(Family::new("extras", e.count(), move |i, ctx| {
        let d = e.get(i);
        run(&d, &around(&d), 2, ctx)
    }));
    let x = Mix::new(&[1], &[1], &[1.0], 1_000_000);
    fams.push(Family::new("mix", x.count(), move |i, ctx| {
        let d = x.get(i).0;
        run(&d, &around(&d), if d.n() * d.c() < 3000 { 2 } else { 1 }, ctx)
    }).chunk(4));
    main_run(Check {
        id: "D05",
        level: "model_checking",
        rule: "every weak ordering of the columns, every sequence of splits (column, value) up to the depth, following both sides including empty ones".into(),
        assumptions: vec!["feature values are not NaN".into(), "all_labels are the labels of the unsplit data set, as at every call site".into()],
        families: fams,
        pool: true,
        bounds: "complete: n<=5, c<=3, 7 thresholds per column, split sequences to depth 3; structured up to 70000 rows; sizes up to 10001 rows, 2049 columns, 2049 targets along the axes; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) up to a cost bound".into(),
    });
}
