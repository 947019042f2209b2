// S01: the chosen split is a best split and its gain is true.
use multi_target_decision_tree::split_finder::{SplitFinder, SplitMetric};
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

fn check(d: &Data, ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| d.describe());
    let ds = d.ds();
    let f = SplitFinder::new(SplitMetric::Variance);
    let r = must("find_best_split", || (f.find_best_split)(&ds, d.t() as u32))?;
    let rows: Vec<usize> = (0..d.n()).collect();
    let cands = candidates(&d.rows, &d.labels, &rows);
    let best = best_gain(&cands);
    let eps = gain_eps(&d.labels, &rows, 0.0);
    ctx.state(d.hash(1));
    ctx.trans(cands.len() as u64 + 1);
    let mut h = H::new(1);
    h.f(r.gain).u(r.question.column as u64).f(r.question.value);
    ctx.outcome(h.get());
    if !r.gain.is_finite() || r.gain < 0.0 {
        return Err(format!("reported gain is {:?}", r.gain));
    }
    let (col, val) = (r.question.column as usize, r.question.value);
    if r.gain == 0.0 {
        if best > eps {
            let b = cands.iter().find(|c| c.gain == best).unwrap();
            return Err(format!("reports no gain although column {} >= {:?} gains {:e} (allowance {:e})", b.col, b.val, best, eps));
        }
        ctx.trace();
        return Ok(());
    }
    if col >= d.c() {
        return Err(format!("question on column {} of {}", col, d.c()));
    }
    let g = gain_of(&d.rows, &d.labels, &rows, col, val)
        .ok_or_else(|| format!("question column {} >= {:?} does not separate the rows but gain {:e} is reported", col, val, r.gain))?;
    if g < best - eps {
        let b = cands.iter().find(|c| c.gain == best).unwrap();
        return Err(format!("column {} >= {:?} gains {:e}, but column {} >= {:?} gains {:e} (allowance {:e})", col, val, g, b.col, b.val, best, eps));
    }
    if (g - r.gain).abs() > eps {
        return Err(format!("column {} >= {:?} is reported to gain {:e} but gains {:e} (allowance {:e})", col, val, r.gain, g, eps));
    }
    ctx.trace();
    Ok(())
}

fn main() {
    let th = thorough();
    let l5 = [-3.0, 0.0, 0.1, 7.0, 1e3];
    let mut spaces = vec![
        Space::new(1, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &l5),
        Space::new(1, 3, 3, &[0], &[0.0, 2.0]),
        Space::new(2, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[-1e6, -3.0, 0.0, 0.1, 7.0, 1e3, 1e-9]),
        Space::new(2, 2, 2, &[0, 1, 4, 6], &l5),
        Space::new(2, 3, 1, &[0, 1, 2, 3, 4, 6, 7, 8, 9], &l5),
        Space::new(3, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[-1e6, -3.0, 0.0, 0.1, 7.0, 1e3, 1e-9]),
        Space::new(3, 1, 2, &[0, 1, 4, 6, 8, 9], &l5),
        Space::new(3, 2, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &l5),
        Space::new(3, 2, 2, &[0, 4], &[0.0, 1.0, 4.0]),
        Space::new(3, 3, 1, &[0, 4], &[0.0, 1.0, 4.0]),
        Space::new(3, 1, 3, &[0], &[0.0, 1.0, 4.0]),
        Space::new(4, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &l5),
        Space::new(4, 1, 2, &[0], &[0.0, 1.0, 4.0]),
        Space::new(4, 2, 1, &[0], &[0.0, 1.0, 4.0]),
        Space::new(5, 1, 1, &[0, 1, 6], &[-3.0, 0.0, 0.1, 7.0]),
    ];
    if th {
        spaces.push(Space::new(4, 2, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &l5));
        spaces.push(Space::new(4, 1, 2, &[0, 1, 4, 6], &[-3.0, 0.0, 0.1, 7.0]));
        spaces.push(Space::new(4, 3, 1, &[0], &[0.0, 1.0, 4.0]));
        spaces.push(Space::new(5, 1, 2, &[0], &[0.0, 1.0, 4.0]));
        spaces.push(Space::new(5, 2, 1, &[0], &[0.0, 1.0, 4.0]));
        spaces.push(Space::new(5, 1, 1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &l5));
    }
    let mut fams = vec![];
    for s in spaces {
        fams.push(Family::new(format!("small-{}", s.name()), s.count(), move |i, ctx| check(&s.get(i), ctx)));
    }
    let all: Vec<usize> = (0..NPAT).collect();
    let sc = [(1.0, 0.0), (1e-3, 0.0), (12.5, 100.0), (1e5, -7.0)];
    let mut b = bigs(&[(5, 2, 2), (6, 3, 1), (8, 2, 2), (9, 3, 3), (16, 2, 1), (17, 5, 3), (33, 3, 2), (64, 9, 1), (100, 3, 5)], &all, &all, &sc);
    b.extend(bigs(&[(129, 3, 2), (257, 2, 2), (300, 40, 3), (513, 2, 1), (1025, 2, 2)], &all, &[0, 3, 4, 6, 8, 10, 13], &[(1.0, 0.0), (0.3, -7.0)]));
    b.extend(bigs(&[(20, 70, 2), (20, 300, 1), (12, 2, 40), (12, 2, 300), (300, 2, 12)], &all, &[0, 4, 10], &[(1.0, 0.0)]));
    b.extend(bigs(&[(5000, 2, 1), (70_000, 1, 1)], &[0, 1, 4, 7, 10, 12], &[0, 4, 9, 10, 13], &[(1.0, 0.0)]));
    fams.push(Family::new("structured", b.len() as u64, move |i, ctx| check(&b[i as usize].data(), ctx)).chunk(4));
    let sc = [(1e-6, 0.0), (1e-9, 0.0), (1e-12, 0.0), (1e-60, 0.0), (1e9, 0.0), (1e100, 0.0), (1e-5, 1.0), (1e-3, 1e3)];
    let b2 = bigs(&[(3, 1, 1), (6, 2, 2), (17, 3, 1), (40, 2, 3)], &all_pats(), &all_pats(), &sc);
    fams.push(Family::new("scales", b2.len() as u64, move |i, ctx| check(&b2[i as usize].data(), ctx)));
    for s in near_spaces() {
        fams.push(Family::new(format!("near-{}", s.name()), s.count(), move |i, ctx| check(&s.get(i), ctx)));
    }
    // one row (or one block) differs from all others: the best cut isolates it, wherever it is
    let ns: Vec<usize> = vec![2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129];
    let cnt: u64 = ns.iter().map(|n| (n * 6) as u64).sum();
    fams.push(Family::new("spike", cnt, move |mut i, ctx| {
        let mut n = 0;
        for &m in &ns {
            if i < (m * 6) as u64 {
                n = m;
                break;
            }
            i -= (m * 6) as u64;
        }
        let (p, v) = ((i / 6) as usize, i % 6);
        let rows: Vec<Vec<f64>> = (0..n)
            .map(|r| match v % 3 {
                0 => vec![r as f64, 1.0],
                1 => vec![1.0, (n - r) as f64],
                _ => vec![(r / 2) as f64, ((r * 7) % n) as f64],
            })
            .collect();
        let labels = (0..n).map(|r| if v < 3 { vec![if r == p { 5.0 } else { 0.0 }, 1.0] } else { vec![1.0, if r >= p { -2.0 } else { 3.5 }] }).collect();
        check(&Data { rows, labels }, ctx)
    }));
    // every size in turn
    // very many rows
    let hz = Sizes::huge();
    fams.push(Family::new("huge", hz.count() * 2, move |i, ctx| check(&if i % 2 == 0 { hz.get(i / 2) } else { hz.class(i / 2).0 }, ctx)).chunk(1));
    let z = Sizes::new(4097, 2049, 2049, if th { 2100 } else { 1100 });
    fams.push(Family::new("sizes", z.count() * 2, move |i, ctx| check(&if i % 2 == 0 { z.get(i / 2) } else { z.class(i / 2).0 }, ctx)).chunk(4));
    // twin columns; every magnitude of labels and features
    let e = Extras::new();
    fams.push(Family::new("extras", e.count() * 2, move |i, ctx| check(&if i % 2 == 0 { e.get(i / 2) } else { e.class(i / 2).0 }, ctx)));
    // every combination of coarse sizes and settings
    let x = Mix::new(&[1], &[1], &[1.0], 4_000_000);
    fams.push(Family::new("mix", x.count() * 2, move |i, ctx| {
        let d = x.get(i / 2).0;
        check(&if i % 2 == 1 { x.class(i / 2).0 } else { d }, ctx)
    }).chunk(4));
    main_run(Check {
        id: "S01",
        level: "model_checking",
        rule: "every data set of the listed small spaces; the reference enumerates every separating question and its exact gain; plus structured data and every single-row/suffix label pattern".into(),
        assumptions: vec!["feature values are not NaN; number_of_targets equals the label length".into(), "rounding allowance 64*n*eps*sum over targets of max|y|^2".into()],
        families: fams,
        pool: true,
        bounds: "complete: n<=5, c<=3, t<=3 over the alphabets; structured up to 70000 rows; sizes up to 4097 rows, 2049 columns, 2049 targets along the axes; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) up to a cost bound".into(),
    });
}
