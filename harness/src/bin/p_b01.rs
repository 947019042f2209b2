// B01: regression boosting is stagewise residual fitting.
use vharness::boost::*;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

fn main() {
    let th = thorough();
    let mut fams = vec![];
    let mut spaces = vec![
        Space::new(1, 1, 1, &[0, 1], &[0.0, 5.0, -1.0]),
        Space::new(2, 1, 1, &[0, 1, 2, 4, 8, 9], &[-3.0, 0.0, 0.1, 1e3]),
        Space::new(2, 1, 2, &[0, 1], &[-3.0, 0.0, 0.1]),
        Space::new(2, 2, 1, &[0, 4], &[-3.0, 0.0, 7.0]),
        Space::new(3, 1, 1, &[0, 1, 3, 4, 8], &[-3.0, 0.0, 0.1, 1e3]),
        Space::new(3, 1, 2, &[0], &[-3.0, 0.0, 7.0]),
        Space::new(3, 2, 1, &[0, 4], &[-3.0, 0.0, 7.0]),
        Space::new(4, 1, 1, &[0], &[-3.0, 0.0, 7.0]),
        Space::new(3, 2, 2, &[0], &[0.0, 1.0]),
    ];
    if th {
        spaces.push(Space::new(3, 2, 2, &[0], &[0.0, 1.0, 4.0]));
        spaces.push(Space::new(4, 1, 2, &[0], &[0.0, 1.0, 4.0]));
        spaces.push(Space::new(4, 2, 1, &[0], &[0.0, 1.0, 4.0]));
        spaces.push(Space::new(4, 1, 1, &[1, 3, 4], &[-3.0, 0.0, 0.1, 7.0]));
        spaces.push(Space::new(5, 1, 1, &[0], &[0.0, 1.0, 4.0]));
    }
    for s in spaces {
        let lv: Vec<u32> = vec![0, 1, 2, s.n as u32];
        let small = s.count() < 1000;
        let ni = if small { 5 } else { 1 };
        let nmt = if small { 2 } else { 1 };
        let nlr = if small || th { 4 } else { 2 };
        fams.push(Family::new(format!("small-{}", s.name()), s.count() * 4 * ni * nlr * nmt, move |i, ctx| {
            let mut cut = Cut(i);
            let iters = ITERS[4 - cut.take(ni)];
            let mt = cut.take(nmt) == 1;
            let lr = LRS[cut.take(nlr)];
            let levels = lv[cut.take(4)];
            let d = s.get(cut.0);
            stagewise_case(&d, Run { levels, iters, lr, mt }, Loss::Squared, ctx)
        }));
    }
    let mut b = bigs(&[(6, 2, 2), (9, 3, 1), (20, 3, 3), (40, 9, 1)], &(0..NPAT).collect::<Vec<_>>(), &(0..NPAT).collect::<Vec<_>>(), &[(1.0, 0.0), (0.3, -7.0)]);
    b.extend(bigs(&[(150, 3, 2), (300, 2, 1)], &[0, 4, 10, 14], &[4, 10, 14], &[(1.0, 0.0)]));
    b.extend(bigs(&[(12, 2, 40), (14, 40, 2)], &[0, 4, 10], &[0, 4, 10], &[(1.0, 0.0)]));
    if th {
        b.extend(bigs(&[(600, 3, 3), (1200, 2, 2)], &[0, 4, 10, 14], &[4, 10, 14], &[(1.0, 0.0)]));
    }
    let vars: Vec<(u32, u32, f64, bool)> = if th {
        vec![(0, 4, 0.5, false), (1, 70, 0.1, false), (2, 40, 1.0, true), (4, 25, 0.3, false), (40, 20, 0.1, true), (3, 150, 0.05, false)]
    } else {
        vec![(1, 30, 0.1, false), (2, 12, 1.0, true), (40, 8, 0.3, false)]
    };
    let nv = vars.len() as u64;
    fams.push(
        Family::new("structured", b.len() as u64 * nv, move |i, ctx| {
            let mut cut = Cut(i);
            let (levels, iters, lr, mt) = vars[cut.take(nv)];
            let big = &b[cut.take(b.len() as u64)];
            stagewise_case(&big.data(), Run { levels, iters, lr, mt }, Loss::Squared, ctx)
        })
        .chunk(2),
    );
    // the repository's data files
    fams.push(Family::new("files", REAL * 2, move |i, ctx| {
        let f = i % REAL;
        let Some(d) = real(f) else { ctx.skip(); return Ok(()) };
        let r = if i < REAL { Run { levels: 3, iters: if f == 10 || f == 7 { 3 } else { 12 }, lr: 0.1, mt: true } } else { Run { levels: 7, iters: 2, lr: 0.5, mt: false } };
        stagewise_case(&d, r, Loss::Squared, ctx)
    }).chunk(1));
    // thousands of rows: block sizes, sampling limits
    let ln: Vec<usize> = if th { vec![1023, 1024, 1025, 2047, 2048, 2049, 4097, 10_001, 33_000, 70_000] } else { vec![1023, 1025, 2049, 4097, 10_001] };
    let lnn = ln.len() as u64;
    fams.push(Family::new("large", lnn * 6, move |i, ctx| {
        let n = ln[(i % lnn) as usize];
        let v = (i / lnn) as usize;
        let (levels, iters, lr) = [(1u32, 3u32, 0.5), (3, 2, 0.3), (2, 12, 1.0)][v % 3];
        let d = Big { n, c: 2, t: 1 + v % 3, fp: [4, 10][v / 3], lp: [0, 14][v / 3], scale: 0.3, offset: 1.0 }.data();
        stagewise_case(&d, Run { levels, iters, lr, mt: v % 2 == 1 }, Loss::Squared, ctx)
    }).chunk(1));
    // magnitudes
    let b2 = bigs(&[(6, 2, 2), (20, 2, 1)], &[0, 4, 7, 10], &[0, 4, 6, 10, 14], &[(1e-6, 0.0), (1e-12, 0.0), (1e9, 0.0), (1e-3, 1e3), (1e100, 0.0), (1e-60, 0.0)]);
    fams.push(Family::new("scales", b2.len() as u64 * 3, move |i, ctx| {
        let (levels, iters, lr) = [(1u32, 9u32, 0.5), (3, 5, 1.0), (2, 20, 0.1)][(i % 3) as usize];
        stagewise_case(&b2[(i / 3) as usize].data(), Run { levels, iters, lr, mt: i % 2 == 1 }, Loss::Squared, ctx)
    }));
    // many iterations, deep trees
    fams.push(Family::new("long", 9 * 4, |i, ctx| {
        let iters = [63u32, 64, 65, 100, 128, 129, 256, 257, 1025][(i % 9) as usize];
        let (n, levels, lr) = [(3usize, 1u32, 0.02), (6, 2, 0.01), (4, 9, 0.05), (9, 1, 1.0)][(i / 9) as usize];
        let d = Big { n, c: 2, t: 2, fp: 4, lp: 10, scale: 0.3, offset: 1.0 }.data();
        stagewise_case(&d, Run { levels, iters, lr, mt: i % 2 == 1 }, Loss::Squared, ctx)
    }).chunk(1));
    fams.push(Family::new("deep", 10, |i, ctx| {
        let l = [32u32, 63, 64, 65, 100, 128, 255, 256, 257, u32::MAX][i as usize];
        let n = 300usize;
        let rows = (0..n).map(|r| vec![r as f64]).collect();
        let labels = (0..n).map(|r| vec![1.9f64.powi(r as i32)]).collect();
        stagewise_case(&Data { rows, labels }, Run { levels: l, iters: 1, lr: 1.0, mt: i % 2 == 1 }, Loss::Squared, ctx)
    }).chunk(1));
    // every size and number of iterations in turn
    // very many rows
    let hz = Sizes::huge();
    fams.push(Family::new("huge", hz.count(), move |i, ctx| stagewise_case(&hz.get(i), Run { levels: 1, iters: 2, lr: 0.5, mt: i / 4 % 2 == 1 }, Loss::Squared, ctx)).chunk(1));
    let z = Sizes::new(1025, 513, 513, if th { 2100 } else { 1100 });
    fams.push(Family::new("sizes", z.count(), move |i, ctx| stagewise_case(&z.get(i), Run { levels: 1 + (i % 3) as u32, iters: 3, lr: 0.5, mt: i / 4 % 2 == 1 }, Loss::Squared, ctx)).chunk(4));
    let its: Vec<u32> = counts(600, if th { 2100 } else { 1100 }).into_iter().map(|x| x as u32).chain([0]).collect();
    fams.push(Family::new("iterations", its.len() as u64 * 3, move |i, ctx| {
        let (n, levels, lr) = [(3usize, 1u32, 0.02), (6, 2, 0.3), (5, 9, 1.0)][(i % 3) as usize];
        let d = Big { n, c: 2, t: 2, fp: 4, lp: 10, scale: 0.3, offset: 1.0 }.data();
        stagewise_case(&d, Run { levels, iters: its[(i / 3) as usize], lr, mt: i % 2 == 1 }, Loss::Squared, ctx)
    }).chunk(4));
    // learning rates
    const RATES: [f64; 12] = [1e-300, 1e-9, 1e-6, 1e-4, 0.01, 0.25, 0.75, 0.9, 0.999, 1.0 / 3.0, 1.25, 2.0];
    let b3 = bigs(&[(6, 2, 2), (20, 2, 1)], &[0, 4, 10], &[4, 10], &[(1.0, 0.0)]);
    fams.push(Family::new("rates", 12 * b3.len() as u64, move |i, ctx| stagewise_case(&b3[(i / 12) as usize].data(), Run { levels: 2, iters: 6, lr: RATES[(i % 12) as usize], mt: i % 2 == 1 }, Loss::Squared, ctx)));
    // twin columns; every magnitude of labels and features
    let e = Extras::new();
    fams.push(Family::new("extras", e.count(), move |i, ctx| stagewise_case(&e.get(i), Run { levels: 1 + (i % 2) as u32 * 3, iters: 3, lr: 0.5, mt: i / 2 % 2 == 1 }, Loss::Squared, ctx)));
    // trees as deep as there are rows
    let ch = Chains::new(if th { 150 } else { 65 }, 490);
    fams.push(Family::new("chains", ch.count() * 2, move |i, ctx| stagewise_case(&ch.get(i / 2), Run { levels: [1000, 33][(i % 2) as usize], iters: 2, lr: 0.5, mt: i / 2 % 2 == 1 }, Loss::Squared, ctx)).chunk(1));
    // every combination of coarse sizes and settings
    let x = Mix::new(&MIX_LEVELS, &MIX_ITERS, &[1.0, 0.3, 0.05], 150_000);
    fams.push(Family::new("mix", x.count(), move |i, ctx| {
        let (d, levels, iters, lr, mt) = x.get(i);
        stagewise_case(&d, Run { levels, iters, lr, mt }, Loss::Squared, ctx)
    }).chunk(4));
    main_run(Check {
        id: "B01",
        level: "model_checking",
        rule: "every data set of the listed small spaces (all weak orderings of each feature column, all label assignments), level limits 0,1,2,n, numbers of iterations, learning rates and both builders; plus structured larger data; every tree is walked in step with the partition states of the residuals the model holds before it".into(),
        assumptions: vec![
            "feature values are not NaN; number_of_classes equals the label length".into(),
            "residuals are compared up to the rounding of the accumulated scores".into(),
        ],
        families: fams,
        pool: true,
        bounds: "complete: n<=4 (5 thorough), t<=2, up to 9 iterations; structured up to 300 (1200) rows with every size, 1025 rows / 513 columns / 513 targets along the axes, up to 600 iterations, rates 1e-300 to 2; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) and coarse settings up to a cost bound".into(),
    });
}
