// B07: training longer only appends trees.
use vharness::boost::*;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

fn train(d: &Data, kind: usize, r: Run) -> Result<Plain, String> {
    match kind {
        0 => Plain::reg(&train_reg(d, r)?, d.c()),
        1 => Plain::mc(&train_mc(d, r)?, d.c()),
        _ => Plain::amg(&train_amg(d, r)?, d.c(), d.t()),
    }
}

/// One history: trainings with the given numbers of iterations, one after another.
fn check(d: &Data, kind: usize, r: Run, lens: &[u32], ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| format!("{} {} {:?}, then trained for {:?} iterations", ["regression", "multi-class", "approximate"][kind], d.describe(), r, lens));
    let long = train(d, kind, r)?;
    if long.trees.len() != r.iters as usize {
        return Err(format!("{} trees after {} iterations", long.trees.len(), r.iters));
    }
    if long.lr != r.lr {
        return Err(format!("the model's learning rate is {:?} instead of {:?}", long.lr, r.lr));
    }
    for &k in lens {
        let short = train(d, kind, Run { iters: k, ..r })?;
        let mut h = H::new(7);
        h.u(d.hash(7)).u(k as u64).u(kind as u64).u(r.levels as u64).f(r.lr);
        ctx.state(h.get());
        ctx.trans(1);
        if short.trees.len() != k as usize {
            return Err(format!("{} trees after {} iterations", short.trees.len(), k));
        }
        if !same(&short.start, &long.start) {
            return Err(format!("start value {:?} for {} iterations, {:?} for {}", short.start, k, long.start, r.iters));
        }
        for i in 0..k as usize {
            if hash(&short, i) != hash(&long, i) {
                return Err(format!("tree {} of {} iterations is {:?}, of {} iterations {:?}", i, k, short.trees[i], r.iters, long.trees[i]));
            }
        }
    }
    ctx.outcome(long.hash());
    ctx.trace();
    Ok(())
}
fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}
fn hash(p: &Plain, i: usize) -> u64 {
    let mut h = H::new(1);
    p.trees[i].hash_shape(&mut h);
    p.trees[i].map(&mut |o| {
        h.fs(&o.iter().map(|x| x + 0.0).collect::<Vec<_>>());
    });
    h.get()
}

fn main() {
    let th = thorough();
    let mut fams = vec![];
    let mut spaces = vec![
        (Space::new(2, 1, 1, &[0, 4], &[-3.0, 0.1, 1e3]), 0usize, 6u32),
        (Space::new(3, 1, 1, &[0], &[-3.0, 0.0, 0.1]), 0, 6),
        (Space::new(3, 2, 2, &[0], &[0.0, 1.0]), 0, 4),
        (Space::new(4, 1, 1, &[0], &[0.0, 1.0, 4.0]), 0, 4),
    ];
    if th {
        spaces.push((Space::new(4, 2, 1, &[0], &[0.0, 1.0, 0.1]), 0, 6));
        spaces.push((Space::new(4, 1, 2, &[0], &[0.0, 1.0]), 0, 8));
        spaces.push((Space::new(5, 1, 1, &[0], &[0.0, 1.0, 0.1]), 0, 5));
    }
    for (s, kind, n) in spaces {
        let lv = [0u32, 1, 3];
        fams.push(Family::new(format!("regression-{}", s.name()), s.count() * 3 * 2 * 2, move |i, ctx| {
            let mut cut = Cut(i);
            let lr = [1.0, 0.3][cut.take(2)];
            let levels = lv[cut.take(3)];
            let mt = cut.take(2) == 1;
            let lens: Vec<u32> = (0..=n).collect();
            check(&s.get(cut.0), kind, Run { levels, iters: n, lr, mt }, &lens, ctx)
        }));
    }
    let mut cs = vec![(ClassSpace::new(2, 1, 2, &[0, 4]), 8u32), (ClassSpace::new(3, 1, 3, &[0]), 6), (ClassSpace::new(3, 2, 2, &[0]), 5), (ClassSpace::new(4, 1, 2, &[0]), 5)];
    if th {
        cs.push((ClassSpace::new(4, 1, 3, &[0]), 8));
        cs.push((ClassSpace::new(4, 2, 2, &[0]), 5));
        cs.push((ClassSpace::new(5, 1, 2, &[0]), 6));
    }
    for (s, n) in cs {
        let lv = [0u32, 1, 3];
        fams.push(Family::new(format!("classes-{}", s.name()), s.count() * 3 * 2 * 2 * 2, move |i, ctx| {
            let mut cut = Cut(i);
            let lr = [1.0, 0.3][cut.take(2)];
            let levels = lv[cut.take(3)];
            let mt = cut.take(2) == 1;
            let kind = 1 + cut.take(2);
            let lens: Vec<u32> = (0..=n).collect();
            check(&s.get(cut.0).0, kind, Run { levels, iters: n, lr, mt }, &lens, ctx)
        }));
    }
    let mut b = bigs(&[(12, 2, 1), (20, 3, 3), (40, 9, 1)], &[0, 2, 4, 10, 12], &[0, 3, 4, 6, 10], &[(1.0, 0.0), (0.3, -7.0)]);
    b.extend(bigs(&[(150, 3, 2)], &[0, 4, 10], &[4, 10], &[(1.0, 0.0)]));
    let top = if th { 130 } else { 40 };
    let lens: Vec<u32> = if th { vec![0, 1, 2, 3, 5, 9, 10, 11, 16, 17, 31, 32, 33, 50, 64, 65, 99, 100, 101, 129, 130] } else { vec![0, 1, 2, 3, 5, 9, 10, 11, 17, 33, 39, 40] };
    fams.push(
        Family::new("structured", b.len() as u64 * 3 * 2, move |i, ctx| {
            let mut cut = Cut(i);
            let kind = cut.take(3);
            let (levels, lr) = [(1, 0.1), (3, 0.5)][cut.take(2)];
            let big = &b[cut.take(b.len() as u64)];
            let d = if kind == 0 { big.data() } else { big.classes(1 + big.t).0 };
            check(&d, kind, Run { levels, iters: top, lr, mt: false }, &lens, ctx)
        })
        .chunk(2),
    );
    fams.push(Family::new("long", 3 * 2, |i, ctx| {
        let kind = (i % 3) as usize;
        let big = Big { n: 6, c: 2, t: 2, fp: 4, lp: 10, scale: 1.0, offset: 0.0 };
        let d = if kind == 0 { big.data() } else { big.classes(3).0 };
        let (levels, lr) = [(1, 0.02), (2, 0.01)][(i / 3) as usize];
        let lens = [0u32, 1, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 500, 512, 513, 1000, 1023, 1024, 1025];
        check(&d, kind, Run { levels, iters: 1025, lr, mt: false }, &lens, ctx)
    }).chunk(1));
    // every size in turn
    // very many rows
    let hz = Sizes::huge();
    fams.push(Family::new("huge", hz.count(), move |i, ctx| {
        let kind = (i % 3) as usize;
        let d = if kind == 0 { hz.get(i) } else { hz.class(i).0 };
        check(&d, kind, Run { levels: 1, iters: 2, lr: 0.3, mt: i / 3 % 2 == 1 }, &[0, 1, 2], ctx)
    }).chunk(1));
    let z = Sizes::new(513, 70, 70, if th { 2100 } else { 1100 });
    fams.push(Family::new("sizes", z.count() * 3, move |i, ctx| {
        let kind = (i % 3) as usize;
        let d = if kind == 0 { z.get(i / 3) } else { z.class(i / 3).0 };
        if kind > 0 && d.t() < 2 {
            ctx.skip();
            return Ok(());
        }
        check(&d, kind, Run { levels: 3, iters: 3, lr: 0.3, mt: i % 2 == 1 }, &[0, 1, 2, 3], ctx)
    }).chunk(4));
    // twin columns; every magnitude of features and labels
    let e = Extras::new();
    fams.push(Family::new("extras", e.count() * 3, move |i, ctx| {
        let kind = (i % 3) as usize;
        let d = if kind == 0 { e.get(i / 3) } else { e.class(i / 3).0 };
        check(&d, kind, Run { levels: 3, iters: 3, lr: 0.3, mt: i % 2 == 1 }, &[0, 1, 2, 3], ctx)
    }));
    // trees as deep as there are rows
    let ch = Chains::new(if th { 150 } else { 65 }, 490);
    fams.push(Family::new("chains", ch.count() * 3, move |i, ctx| {
        let kind = (i % 3) as usize;
        let d = if kind == 0 { ch.get(i / 3) } else { ch.class(i / 3).0 };
        check(&d, kind, Run { levels: 1000, iters: 3, lr: 0.3, mt: i % 2 == 1 }, &[0, 1, 2, 3], ctx)
    }).chunk(1));
    // every combination of coarse sizes and settings
    let x = Mix::new(&MIX_LEVELS, &[2, 6, 40, 110, 270], &[1.0, 0.05], 40_000);
    fams.push(Family::new("mix", x.count() * 3, move |i, ctx| {
        let kind = (i % 3) as usize;
        let (d, levels, iters, lr, mt) = if kind == 0 { x.get(i / 3) } else { let (d, _, a, b, c, e) = x.class(i / 3); (d, a, b, c, e) };
        check(&d, kind, Run { levels, iters, lr, mt }, &[iters / 2, iters - 1, iters], ctx)
    }).chunk(4));
    main_run(Check {
        id: "B07",
        level: "model_checking",
        rule: "every data set of the listed small spaces, three ensembles, level limits 0,1,3, two learning rates, both builders: a training of n iterations followed by one training for every k in 0..n, all models compared tree by tree; plus structured larger data".into(),
        assumptions: vec!["one pool thread (all schedules: C03)".into()],
        families: fams,
        pool: true,
        bounds: "complete: n<=4 (5 thorough) rows, up to 8 iterations; structured up to 150 rows, 40 (130) iterations; sizes up to 513 rows, 70 columns, 70 targets; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) and coarse settings up to a cost bound".into(),
    });
}
