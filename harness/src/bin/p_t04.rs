// T04: training does not depend on how the data are presented.
use vharness::boost::*;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

/// True when, along the reference greedy tree down to the level limit, every split decision is
/// unique by a clear margin (so no two candidate splits tie and rounding cannot matter).
fn tie_free(d: &Data, rows: &[usize], levels: u32) -> bool {
    if levels == 0 {
        return true;
    }
    let cands = candidates(&d.rows, &d.labels, rows);
    let best = best_gain(&cands);
    let eps = gain_eps(&d.labels, rows, 0.0) * 8.0;
    if best <= eps {
        // no split gains anything: fine as long as that is exactly so
        return rows.iter().all(|&i| d.labels[i] == d.labels[rows[0]]) && d.labels[rows[0]].iter().all(|x| x.fract() == 0.0)
            || cands.is_empty();
    }
    let margin = best * 1e-7 + eps;
    let mut near = cands.iter().filter(|c| c.gain > best - margin);
    let b = *near.next().unwrap();
    if near.next().is_some() {
        return false;
    }
    let (y, n): (Vec<usize>, Vec<usize>) = rows.iter().partition(|&&i| d.rows[i][b.col] >= b.val);
    tie_free(d, &y, levels - 1) && tie_free(d, &n, levels - 1)
}

fn test_points(d: &Data) -> Vec<Vec<f64>> {
    let mut p = d.rows.clone();
    for i in 0..d.n().min(6) {
        for j in 0..d.c().min(3) {
            for s in [-0.25, 0.25] {
                let mut r = d.rows[i].clone();
                r[j] += s;
                p.push(r);
            }
        }
    }
    p
}

fn pred(t: &Tree<Held>, r: &[f64]) -> Vec<f64> {
    let l = &t.leaf_of(r).labels;
    mean_of(l, &(0..l.len()).collect::<Vec<_>>())
}

/// Which leaf (numbered in depth-first order) each row ends in.
fn routes(t: &Tree<Held>, rows: &[Vec<f64>]) -> Vec<usize> {
    let mut k = 0;
    let numbered = t.map(&mut |_| {
        k += 1;
        k
    });
    rows.iter().map(|r| *numbered.leaf_of(r)).collect()
}

const MONO: [&str; 8] = ["x+1", "exp-like", "compress", "stretch", "tiny", "subnormal", "neighbouring numbers", "infinite ends"];
/// The values of a column under a strictly increasing map.
fn mono(which: usize, col: &[f64]) -> Vec<f64> {
    let mut vals = col.to_vec();
    vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
    vals.dedup();
    col.iter()
        .map(|&x| {
            let rank = vals.iter().take_while(|v| **v < x).count();
            match which {
                0 => x + 1.0,
                1 => if x <= 1.5 { x - 100.0 } else { x * x * x * 1e5 },
                2 => x * 0.001 - 7.0,
                3 => x * 1e12,
                4 => x * 1e-10,
                5 => f64::from_bits(1 + rank as u64),
                6 => f64::from_bits(1f64.to_bits() + rank as u64),
                _ => if rank + 1 == vals.len() { f64::INFINITY } else if rank == 0 { f64::NEG_INFINITY } else { x },
            }
        })
        .collect()
}
/// Data with the map applied to the columns that `sel` selects.
fn mapped(d: &Data, which: usize, sel: impl Fn(usize) -> bool) -> Data {
    let mut e = d.clone();
    for (k, col) in d.columns().iter().enumerate() {
        if sel(k) {
            for (r, x) in e.rows.iter_mut().zip(mono(which, col)) {
                r[k] = x;
            }
        }
    }
    e
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n > 4 {
        let id: Vec<usize> = (0..n).collect();
        let mut rev = id.clone();
        rev.reverse();
        let mut rot = id.clone();
        rot.rotate_left(n / 3 + 1);
        let mut sw = id.clone();
        sw.swap(0, n - 1);
        let mut il: Vec<usize> = (0..n).step_by(2).collect();
        il.extend((1..n).step_by(2));
        return vec![rev, rot, sw, il];
    }
    let mut out = vec![vec![]];
    for k in 0..n {
        let mut nx = vec![];
        for p in &out {
            for pos in 0..=p.len() {
                let mut q: Vec<usize> = p.clone();
                q.insert(pos, k);
                nx.push(q);
            }
        }
        out = nx;
    }
    out.retain(|p| p.iter().enumerate().any(|(i, x)| i != *x));
    out
}

fn check(d: &Data, levels: u32, mt: bool, ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| format!("{} max_levels={} multi_threading={}", d.describe(), levels, mt));
    let base = train_held(d, levels, mt)?;
    let base_routes = routes(&base, &d.rows);
    let m = max_abs(&d.labels);
    let tol = 1e-10 * m + 1e-300;
    ctx.state(d.hash(levels as u64));
    let mut h = H::new(4);
    base.hash_shape(&mut h);
    ctx.outcome(h.get());
    // strictly increasing maps, on each column and on all at once
    for w in 0..MONO.len() {
        for j in 0..=d.c().min(3) {
            if d.c() == 1 && j == 1 {
                continue;
            }
            let e = mapped(d, w, |k| k == j || j == d.c().min(3));
            let t = train_held(&e, levels, mt)?;
            ctx.trans(1);
            let rt = routes(&t, &e.rows);
            if rt != base_routes {
                return Err(format!("mapping column {} by the increasing map {} changes the rows' leaves from {:?} to {:?}", j, MONO[w], &base_routes[..d.n().min(16)], &rt[..d.n().min(16)]));
            }
            for i in 0..d.n() {
                let (x, y) = (base.leaf_of(&d.rows[i]), t.leaf_of(&e.rows[i]));
                if !same_multiset(&x.labels, &y.labels) {
                    return Err(format!("mapping column {} by the increasing map {} changes the leaf contents of row {}", j, MONO[w], i));
                }
            }
        }
    }
    let all: Vec<usize> = (0..d.n()).collect();
    if !tie_free(d, &all, levels) {
        ctx.skip();
        ctx.trace();
        return Ok(());
    }
    let pts = test_points(d);
    let want: Vec<Vec<f64>> = pts.iter().map(|p| pred(&base, p)).collect();
    let compare = |what: &str, t: &Tree<Held>, f: &dyn Fn(&[f64]) -> Vec<f64>, g: &dyn Fn(&[f64]) -> Vec<f64>, scale: f64| -> CaseResult {
        for (p, w) in pts.iter().zip(&want) {
            let got = pred(t, &f(p));
            let w = g(w);
            if !close_vec(&got, &w, tol * scale) {
                return Err(format!("{}: prediction for {:?} is {:?} instead of {:?}", what, p, got, w));
            }
        }
        Ok(())
    };
    let idf = |x: &[f64]| x.to_vec();
    for p in perms(d.n()) {
        let e = d.subset(&p);
        let t = train_held(&e, levels, mt)?;
        ctx.trans(1);
        compare(&format!("rows reordered {:?}", &p[..p.len().min(16)]), &t, &idf, &idf, 1.0)?;
    }
    if d.c() > 1 {
        for p in perms(d.c()) {
            let mv = |r: &[f64]| -> Vec<f64> { p.iter().map(|&k| r[k]).collect() };
            let e = Data { rows: d.rows.iter().map(|r| mv(r)).collect(), labels: d.labels.clone() };
            let t = train_held(&e, levels, mt)?;
            ctx.trans(1);
            compare(&format!("columns reordered {:?}", p), &t, &mv, &idf, 1.0)?;
        }
    }
    if d.t() > 1 {
        for p in perms(d.t()) {
            let mv = |r: &[f64]| -> Vec<f64> { p.iter().map(|&k| r[k]).collect() };
            let e = Data { rows: d.rows.clone(), labels: d.labels.iter().map(|r| mv(r)).collect() };
            let t = train_held(&e, levels, mt)?;
            ctx.trans(1);
            compare(&format!("targets reordered {:?}", p), &t, &idf, &mv, 1.0)?;
        }
    }
    for rep in [2usize, 3, 7] {
        if rep == 7 && d.n() > 200 {
            continue;
        }
        for interleaved in [false, true] {
            let idx: Vec<usize> = if interleaved { (0..d.n() * rep).map(|k| k / rep).collect() } else { (0..d.n() * rep).map(|k| k % d.n()).collect() };
            let t = train_held(&d.subset(&idx), levels, mt)?;
            ctx.trans(1);
            compare(&format!("every row repeated {} times", rep), &t, &idf, &idf, 1.0)?;
        }
    }
    for f in [0.25, 2.0, 1024.0, 1.0 / 1048576.0, 2f64.powi(-45), 2f64.powi(70)] {
        let mv = |r: &[f64]| -> Vec<f64> { r.iter().map(|x| x * f).collect() };
        let e = Data { rows: d.rows.clone(), labels: d.labels.iter().map(|r| mv(r)).collect() };
        let t = train_held(&e, levels, mt)?;
        ctx.trans(1);
        compare(&format!("labels multiplied by {}", f), &t, &idf, &mv, f)?;
    }
    ctx.trace();
    Ok(())
}

/// Like tie_free, but a node whose labels agree up to rounding may be split in any way: its parts
/// output the same up to rounding.
fn settled(d: &Data, rows: &[usize], levels: u32) -> bool {
    if levels == 0 {
        return true;
    }
    let m = rows.iter().map(|&i| d.labels[i].iter().fold(0.0f64, |a, x| a.max(x.abs()))).fold(0.0, f64::max);
    if rows.iter().all(|&i| close_vec(&d.labels[i], &d.labels[rows[0]], 1e-13 * m)) {
        return true;
    }
    let cands = candidates(&d.rows, &d.labels, rows);
    if cands.is_empty() {
        return true;
    }
    let best = best_gain(&cands);
    let eps = gain_eps(&d.labels, rows, 1e-12 * m) * 8.0;
    let margin = best * 1e-6 + eps;
    if best <= margin {
        return false;
    }
    let mut near = cands.iter().filter(|c| c.gain > best - margin);
    let b = *near.next().unwrap();
    if near.next().is_some() {
        return false;
    }
    let (y, n): (Vec<usize>, Vec<usize>) = rows.iter().partition(|&&i| d.rows[i][b.col] >= b.val);
    settled(d, &y, levels - 1) && settled(d, &n, levels - 1)
}

fn train(d: &Data, loss: Loss, r: Run) -> Result<Plain, String> {
    match loss {
        Loss::Squared => Plain::reg(&train_reg(d, r)?, d.c()),
        Loss::Softmax => Plain::mc(&train_mc(d, r)?, d.c()),
        Loss::SoftmaxApprox => Plain::amg(&train_amg(d, r)?, d.c(), d.t()),
    }
}

/// No tie anywhere in the run: every tree's splits, and every approximate leaf's class, are clear.
fn run_settled(d: &Data, p: &Plain, loss: Loss, r: Run) -> bool {
    let k = d.t();
    let mut scores: Vec<Vec<f64>> = vec![p.start.clone(); d.n()];
    let all: Vec<usize> = (0..d.n()).collect();
    for t in &p.trees {
        let res: Vec<Vec<f64>> = (0..d.n())
            .map(|i| {
                let q = if loss == Loss::Squared { scores[i].clone() } else { softmax(&scores[i]) };
                (0..k).map(|j| d.labels[i][j] - q[j]).collect()
            })
            .collect();
        let e = Data { rows: d.rows.clone(), labels: res };
        if !settled(&e, &all, r.levels) {
            return false;
        }
        if loss != Loss::Squared {
            let mut k2 = 0;
            let numbered = t.map(&mut |_| {
                k2 += 1;
                k2 - 1
            });
            let mut leaves: Vec<Vec<usize>> = vec![vec![]; k2];
            for i in 0..d.n() {
                leaves[*numbered.leaf_of(&d.rows[i])].push(i);
            }
            for rows in leaves.iter().filter(|l| !l.is_empty()) {
                let w: Vec<f64> = (0..k)
                    .map(|j| {
                        let num: f64 = rows.iter().map(|&i| e.labels[i][j]).sum();
                        let den: f64 = rows.iter().map(|&i| e.labels[i][j].abs() * (1.0 - e.labels[i][j].abs())).sum();
                        if den < 1e-3 { f64::NAN } else { num / den }
                    })
                    .collect();
                if w.iter().any(|x| x.is_nan()) {
                    return false;
                }
                let b = argmax_first(&w);
                if loss == Loss::SoftmaxApprox && (0..k).any(|j| j != b && w[j] > w[b] - 1e-6) {
                    return false;
                }
            }
        }
        for i in 0..d.n() {
            for (s, o) in scores[i].iter_mut().zip(t.leaf_of(&d.rows[i])) {
                *s += r.lr * o;
            }
        }
    }
    true
}

fn check_ensemble(d: &Data, loss: Loss, r: Run, ctx: &mut Ctx) -> CaseResult {
    ctx.describe(|| format!("{} {} {:?}", ["regression", "multi-class", "approximate"][loss as usize], d.describe(), r));
    let base = train(d, loss, r)?;
    let n = base.trees.len();
    ctx.state({ let mut h = H::new(44); h.u(d.hash(4)).u(loss as u64).u(r.levels as u64).u(r.iters as u64); h.get() });
    ctx.outcome(base.hash());
    let leafs = |p: &Plain, rows: &[Vec<f64>]| -> Vec<Vec<usize>> {
        p.trees.iter().map(|t| {
            let mut k = 0;
            let m = t.map(&mut |_| {
                k += 1;
                k
            });
            rows.iter().map(|x| *m.leaf_of(x)).collect()
        }).collect()
    };
    let want: Vec<Vec<f64>> = d.rows.iter().map(|x| base.score(x, r.lr, n)).collect();
    let mag = max_abs(&want).max(max_abs(&d.labels));
    let base_leafs = leafs(&base, &d.rows);
    for w in 0..MONO.len() {
        let e = mapped(d, w, |j| w < 3 || j == 0);
        let p = train(&e, loss, r)?;
        ctx.trans(1);
        if leafs(&p, &e.rows) != base_leafs {
            return Err(format!("mapping features by the increasing map {} changes the rows' leaves", MONO[w]));
        }
        for i in 0..d.n() {
            let got = p.score(&e.rows[i], r.lr, n);
            if !close_vec(&got, &want[i], 1e-9 * mag) {
                return Err(format!("mapping features by the increasing map {} changes the score of row {} from {:?} to {:?}", MONO[w], i, want[i], got));
            }
        }
    }
    if !run_settled(d, &base, loss, r) {
        ctx.skip();
        ctx.trace();
        return Ok(());
    }
    let same = |what: String, p: &Plain, f: &dyn Fn(&[f64]) -> Vec<f64>, g: &dyn Fn(&[f64]) -> Vec<f64>, scale: f64| -> CaseResult {
        for (x, w) in d.rows.iter().zip(&want) {
            let got = p.score(&f(x), r.lr, n);
            let w = g(w);
            if !close_vec(&got, &w, 1e-7 * mag * scale) {
                return Err(format!("{}: score of {:?} is {:?} instead of {:?}", what, x, got, w));
            }
        }
        Ok(())
    };
    let id = |x: &[f64]| x.to_vec();
    for p in perms(d.n()) {
        ctx.trans(1);
        same(format!("rows reordered {:?}", &p[..p.len().min(16)]), &train(&d.subset(&p), loss, r)?, &id, &id, 1.0)?;
    }
    for p in perms(d.c()) {
        let mv = |x: &[f64]| -> Vec<f64> { p.iter().map(|&k| x[k]).collect() };
        let e = Data { rows: d.rows.iter().map(|x| mv(x)).collect(), labels: d.labels.clone() };
        ctx.trans(1);
        same(format!("columns reordered {:?}", p), &train(&e, loss, r)?, &mv, &id, 1.0)?;
    }
    for p in perms(d.t()) {
        let mv = |x: &[f64]| -> Vec<f64> { p.iter().map(|&k| x[k]).collect() };
        let e = Data { rows: d.rows.clone(), labels: d.labels.iter().map(|x| mv(x)).collect() };
        ctx.trans(1);
        same(format!("targets reordered {:?}", p), &train(&e, loss, r)?, &id, &mv, 1.0)?;
    }
    for rep in [2usize, 5] {
        let idx: Vec<usize> = (0..d.n() * rep).map(|k| k % d.n()).collect();
        ctx.trans(1);
        same(format!("every row repeated {} times", rep), &train(&d.subset(&idx), loss, r)?, &id, &id, 1.0)?;
    }
    if loss == Loss::Squared {
        for f in [0.5, 1024.0, 2f64.powi(-45)] {
            let mv = |x: &[f64]| -> Vec<f64> { x.iter().map(|v| v * f).collect() };
            let e = Data { rows: d.rows.clone(), labels: d.labels.iter().map(|x| mv(x)).collect() };
            ctx.trans(1);
            same(format!("labels multiplied by {}", f), &train(&e, loss, r)?, &id, &mv, f)?;
        }
    }
    ctx.trace();
    Ok(())
}

fn main() {
    let th = thorough();
    let mut spaces = vec![
        Space::new(1, 1, 2, &[0], &[0.0, 5.0]),
        Space::new(2, 1, 1, &[0, 5], &[-3.0, 0.0, 7.0, 100.0]),
        Space::new(2, 2, 2, &[0], &[-3.0, 0.0, 7.0]),
        Space::new(3, 1, 1, &[0, 5], &[-3.0, 0.0, 1.0, 7.0, 100.0]),
        Space::new(3, 1, 2, &[0], &[-3.0, 0.0, 7.0]),
        Space::new(3, 2, 1, &[0], &[-3.0, 0.0, 7.0]),
        Space::new(4, 1, 1, &[0], &[-3.0, 0.0, 7.0]),
    ];
    if th {
        spaces.push(Space::new(4, 1, 1, &[0, 5], &[-3.0, 0.0, 7.0, 100.0]));
        spaces.push(Space::new(3, 2, 2, &[0], &[0.0, 1.0, 5.0]));
        spaces.push(Space::new(4, 1, 2, &[0], &[0.0, 1.0, 5.0]));
        spaces.push(Space::new(4, 2, 1, &[0], &[0.0, 1.0, 5.0]));
        spaces.push(Space::new(3, 3, 1, &[0], &[0.0, 1.0, 5.0]));
        spaces.push(Space::new(5, 1, 1, &[0], &[0.0, 1.0, 5.0]));
    }
    let mut fams = vec![];
    for s in spaces {
        let limits: Vec<u32> = vec![1, s.n as u32];
        fams.push(Family::new(format!("small-{}", s.name()), s.count() * 3, move |i, ctx| {
            let mut cut = Cut(i);
            let k = cut.take(3);
            check(&s.get(cut.0), limits[k % 2], k == 2, ctx)
        }));
    }
    let all: Vec<usize> = (0..NPAT).collect();
    let mut b = bigs(&[(6, 2, 2), (9, 3, 1), (17, 5, 3), (40, 3, 2)], &all, &all, &[(1.0, 0.0), (3.0, 100.0)]);
    b.extend(bigs(&[(130, 2, 2), (300, 3, 1), (12, 2, 20), (12, 40, 1)], &[0, 4, 7, 10, 12], &[0, 4, 8, 9, 10, 13], &[(1.0, 0.0)]));
    fams.push(Family::new("structured", b.len() as u64 * 4, move |i, ctx| {
        let mut cut = Cut(i);
        let k = cut.take(4);
        check(&b[cut.take(b.len() as u64)].data(), [1, 2, 4, 4][k], k == 3, ctx)
    }).chunk(2));
    // ensembles
    let mut reg = vec![
        Space::new(2, 2, 1, &[0], &[-3.0, 0.0, 7.0, 100.0]),
        Space::new(3, 1, 1, &[0, 5], &[-3.0, 0.0, 1.0, 7.0, 100.0]),
        Space::new(3, 1, 2, &[0], &[-3.0, 0.0, 7.0]),
        Space::new(3, 2, 1, &[0], &[-3.0, 0.0, 7.0]),
    ];
    let mut cls = vec![ClassSpace::new(2, 2, 2, &[0]), ClassSpace::new(3, 1, 2, &[0]), ClassSpace::new(3, 1, 3, &[0]), ClassSpace::new(3, 2, 2, &[0]), ClassSpace::new(4, 1, 2, &[0]), ClassSpace::new(4, 1, 3, &[0])];
    if th {
        reg.push(Space::new(4, 1, 1, &[0, 5], &[-3.0, 0.0, 7.0, 100.0]));
        reg.push(Space::new(3, 2, 2, &[0], &[0.0, 1.0, 5.0]));
        cls.push(ClassSpace::new(4, 2, 2, &[0]));
        cls.push(ClassSpace::new(5, 1, 3, &[0]));
    }
    const RUNS: [Run; 4] = [Run { levels: 1, iters: 3, lr: 0.5, mt: false }, Run { levels: 2, iters: 2, lr: 0.3, mt: false }, Run { levels: 4, iters: 2, lr: 0.1, mt: true }, Run { levels: 1, iters: 6, lr: 0.1, mt: false }];
    for s in reg {
        fams.push(Family::new(format!("ensemble-reg-{}", s.name()), s.count() * 4, move |i, ctx| check_ensemble(&s.get(i / 4), Loss::Squared, RUNS[(i % 4) as usize], ctx)));
    }
    for s in cls {
        fams.push(Family::new(format!("ensemble-class-{}", s.name()), s.count() * 8, move |i, ctx| {
            let loss = if i / 4 % 2 == 0 { Loss::Softmax } else { Loss::SoftmaxApprox };
            check_ensemble(&s.get(i / 8).0, loss, RUNS[(i % 4) as usize], ctx)
        }));
    }
    let b = bigs(&[(6, 2, 2), (9, 3, 1), (17, 5, 3), (40, 3, 2)], &all, &all, &[(1.0, 0.0)]);
    fams.push(Family::new("ensemble-structured", b.len() as u64 * 3, move |i, ctx| {
        let big = &b[(i / 3) as usize];
        let r = RUNS[((i / 3) % 4) as usize];
        match i % 3 {
            0 => check_ensemble(&big.data(), Loss::Squared, r, ctx),
            1 => check_ensemble(&big.classes(1 + big.t).0, Loss::Softmax, r, ctx),
            _ => check_ensemble(&big.classes(1 + big.t).0, Loss::SoftmaxApprox, r, ctx),
        }
    }).chunk(2));
    // every size in turn, every combination of coarse sizes
    let z = Sizes::new(257, 70, 70, 70);
    fams.push(Family::new("sizes", z.count(), move |i, ctx| check(&z.get(i), [1, 3][(i / 4 % 2) as usize], i % 2 == 1, ctx)).chunk(4));
    let x = Mix::new(&[1, 2, 4, 9, 40], &[1], &[1.0], if th { 20_000 } else { 12_000 });
    fams.push(Family::new("mix", x.count(), move |i, ctx| {
        let (d, l, _, _, mt) = x.get(i);
        check(&d, l, mt, ctx)
    }).chunk(2));
    let x = Mix::new(&[1, 2, 4, 9], &[1, 2, 6, 40, 110], &[0.5, 0.05], if th { 10_000 } else { 12_000 });
    fams.push(Family::new("mix-ensemble", x.count() * 3, move |i, ctx| {
        let kind = (i % 3) as usize;
        let (d, levels, iters, lr, mt) = if kind == 0 { x.get(i / 3) } else { let (d, _, a, b, c, e) = x.class(i / 3); (d, a, b, c, e) };
        check_ensemble(&d, [Loss::Squared, Loss::Softmax, Loss::SoftmaxApprox][kind], Run { levels, iters, lr, mt }, ctx)
    }).chunk(2));
    main_run(Check {
        id: "T04",
        level: "model_checking",
        rule: "every data set of the listed small spaces with every row, column and target permutation, 2/3/7-fold repetition, six power-of-two label factors and eight increasing maps per column (affine, cubic, subnormal, neighbouring numbers, infinite ends); the relations other than the increasing maps are required only where the reference search finds a clear winner at every split (others counted as skipped)".into(),
        assumptions: vec!["feature values are finite here; number_of_classes equals the label length".into(), "tie-free means: runner-up split worse by 1e-7 relative plus 8 rounding allowances, at every node down to the limit".into()],
        families: fams,
        pool: true,
        bounds: "complete: n<=4 (5 thorough), c<=3, t<=2 over the alphabets; structured up to 300 rows; sizes up to 257 rows, 70 columns, 70 targets along the axes; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) and coarse settings up to a cost bound".into(),
    });
}
