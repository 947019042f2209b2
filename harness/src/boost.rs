//! Reading and replaying trained ensembles against the stagewise model.
use crate::engine::{must, Ctx, H};
use crate::model::*;
use multi_target_grad_boost::boosting_ensemble::boosting_types::{AMGBoostModel, MultiClassBoostModel, RegressionBoostModel};
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Run {
    pub levels: u32,
    pub iters: u32,
    pub lr: f64,
    pub mt: bool,
}

pub fn train_reg(d: &Data, r: Run) -> Result<RegressionBoostModel, String> {
    let ds = d.ds();
    must("training a regression ensemble", || RegressionBoostModel::train(ds, config(d.t(), r.levels, r.mt), r.iters, r.lr))
}
pub fn train_mc(d: &Data, r: Run) -> Result<MultiClassBoostModel, String> {
    let ds = d.ds();
    must("training a multi-class ensemble", || MultiClassBoostModel::train(ds, config(d.t(), r.levels, r.mt), r.iters, r.lr))
}
pub fn train_amg(d: &Data, r: Run) -> Result<AMGBoostModel, String> {
    let ds = d.ds();
    must("training an approximate ensemble", || AMGBoostModel::train(ds, config(d.t(), r.levels, r.mt), r.iters, r.lr))
}

/// A trained ensemble as plain values: start and per tree the vector each leaf stands for.
#[derive(Clone, Debug, PartialEq)]
pub struct Plain {
    pub start: Vec<f64>,
    pub lr: f64,
    pub trees: Vec<Tree<Vec<f64>>>,
}
impl Plain {
    pub fn reg(m: &RegressionBoostModel, c: usize) -> Result<Plain, String> {
        let trees = m.trees.iter().map(|t| read_tree(t, c, &mut outp)).collect::<Result<Vec<_>, _>>()?;
        Ok(Plain { start: m.initial_guess.clone(), lr: m.learning_rate, trees })
    }
    pub fn mc(m: &MultiClassBoostModel, c: usize) -> Result<Plain, String> {
        let trees = m.trees.iter().map(|t| read_tree(t, c, &mut outp)).collect::<Result<Vec<_>, _>>()?;
        Ok(Plain { start: m.initial_guess.clone(), lr: m.learning_rate, trees })
    }
    pub fn amg(m: &AMGBoostModel, c: usize, k: usize) -> Result<Plain, String> {
        let mut trees = vec![];
        for t in &m.trees {
            let t = read_tree(t, c, &mut amg)?;
            let mut bad = None;
            let v = t.map(&mut |(x, j)| {
                if *j >= k {
                    bad = Some(*j);
                    return vec![0.0; k];
                }
                amg_vec(*x, *j, k)
            });
            if let Some(j) = bad {
                return Err(format!("an approximate leaf names class {} of {}", j, k));
            }
            trees.push(v);
        }
        Ok(Plain { start: m.initial_guess.clone(), lr: m.learning_rate, trees })
    }
    /// Accumulated score of a row after the first `k` trees.
    pub fn score(&self, row: &[f64], lr: f64, k: usize) -> Vec<f64> {
        let mut s = self.start.clone();
        for t in &self.trees[..k] {
            for (x, o) in s.iter_mut().zip(t.leaf_of(row)) {
                *x += lr * o;
            }
        }
        s
    }
    /// Classes whose score is the largest for certain to rounding; and whether class `a` ties
    /// exactly with an earlier one.
    pub fn allowed(&self, row: &[f64], lr: f64, k: usize) -> (Vec<usize>, Vec<f64>) {
        let s = self.score(row, lr, k);
        let m = s.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let mag: f64 = self.trees[..k].iter().map(|t| t.leaf_of(row).iter().fold(0.0f64, |a, x| a.max(x.abs()))).sum::<f64>() * lr.abs() + 1.0;
        let tol = 64.0 * U * mag;
        let near: Vec<usize> = (0..s.len()).filter(|&j| s[j] >= m - tol).collect();
        // a later class never wins against one with the very same contributions
        let ok = near
            .iter()
            .cloned()
            .filter(|&j| {
                !near.iter().any(|&i| {
                    i < j
                        && self.start[i] == self.start[j]
                        && self.trees[..k].iter().all(|t| {
                            let o = t.leaf_of(row);
                            o[i] == o[j]
                        })
                })
            })
            .collect();
        (ok, s)
    }
    pub fn hash(&self) -> u64 {
        let mut h = H::new(11);
        h.fs(&self.start);
        for t in &self.trees {
            t.hash_shape(&mut h);
            t.map(&mut |o| {
                h.fs(o);
            });
        }
        h.get()
    }
    pub fn finite(&self) -> Result<(), String> {
        if !self.start.iter().all(|x| x.is_finite()) {
            return Err(format!("start value {:?}", self.start));
        }
        for (i, t) in self.trees.iter().enumerate() {
            let mut bad = None;
            t.map(&mut |o| {
                if !o.iter().all(|x| x.is_finite()) {
                    bad = Some(o.clone());
                }
            });
            if let Some(o) = bad {
                return Err(format!("tree {} has a leaf output {:?}", i, o));
            }
        }
        Ok(())
    }
}

pub fn valid_onehot(p: &[f64], k: usize) -> Option<usize> {
    if p.len() != k {
        return None;
    }
    let j = p.iter().position(|x| *x == 1.0)?;
    if p == onehot(j, k) {
        Some(j)
    } else {
        None
    }
}

/// Rows to predict: the training rows and rows between and beyond them.
pub fn probe_rows(d: &Data) -> Vec<Vec<f64>> {
    let mut p = d.rows.clone();
    for i in 0..d.n().min(8) {
        for j in 0..d.c().min(3) {
            for s in [-0.25, 0.25] {
                let mut r = d.rows[i].clone();
                r[j] += s;
                p.push(r);
            }
        }
    }
    p
}

#[derive(Clone, Copy, PartialEq)]
pub enum Loss {
    Squared,
    Softmax,
    SoftmaxApprox,
}

/// Replays the stagewise rule with the ensemble's own trees: residuals before each tree, the tree
/// as a correct regression tree of them, every leaf value, then the update.
pub fn check_stagewise(d: &Data, p: &Plain, r: Run, loss: Loss, ctx: &mut Ctx) -> Result<(), String> {
    let n = d.n();
    let k = d.t();
    if p.trees.len() != r.iters as usize {
        return Err(format!("{} trees after {} iterations", p.trees.len(), r.iters));
    }
    let all: Vec<usize> = (0..n).collect();
    let m = max_abs(&d.labels);
    let start = if loss == Loss::Squared { mean_of(&d.labels, &all) } else { vec![1.0 / k as f64; k] };
    if !close_vec(&p.start, &start, 1e-12 * m.max(1e-300) + 1e-320) {
        return Err(format!("start value {:?} instead of {:?}", p.start, start));
    }
    let mut scores: Vec<Vec<f64>> = vec![p.start.clone(); n];
    let mut mag = if loss == Loss::Squared { m } else { 1.0 };
    for (it, t) in p.trees.iter().enumerate() {
        let res: Vec<Vec<f64>> = (0..n)
            .map(|i| {
                let q = if loss == Loss::Squared { scores[i].clone() } else { softmax(&scores[i]) };
                (0..k).map(|j| d.labels[i][j] - q[j]).collect()
            })
            .collect();
        // uncertainty of one residual: rounding of scores of magnitude `mag`
        let delta = match loss {
            Loss::Squared => 8.0 * U * (4.0 + it as f64) * mag,
            _ => 8.0 * U * (4.0 + it as f64) * (1.0 + mag),
        };
        let spec = TreeSpec { rows: &d.rows, labels: &res, max_levels: r.levels, delta };
        check_tree(&spec, t, ctx, &mut |rows, o, _| leaf_value(&res, rows, o, loss, delta, m))
            .map_err(|e| format!("tree {}: {}", it, e))?;
        for i in 0..n {
            let o = t.leaf_of(&d.rows[i]);
            for j in 0..k {
                scores[i][j] += r.lr * o[j];
                mag = mag.max(scores[i][j].abs());
            }
        }
        ctx.trans(1);
    }
    Ok(())
}

fn leaf_value(res: &[Vec<f64>], rows: &[usize], o: &[f64], loss: Loss, delta: f64, m: f64) -> Result<(), String> {
    let k = res[0].len();
    if o.len() != k {
        return Err(format!("output has {} entries instead of {}", o.len(), k));
    }
    if !o.iter().all(|x| x.is_finite()) {
        return Err(format!("output {:?}", o));
    }
    if loss == Loss::Squared {
        let w = mean_of(res, rows);
        let tol = 4.0 * delta + 4.0 * U * rows.len() as f64 * m + 1e-320;
        if !close_vec(o, &w, tol) {
            return Err(format!("output {:?}, the mean residuals are {:?}", o, w));
        }
        return Ok(());
    }
    let n = rows.len() as f64;
    let s = (k as f64 - 1.0) / k as f64;
    let mut w = vec![0.0; k];
    let mut tol = vec![0.0; k];
    for j in 0..k {
        let num: f64 = rows.iter().map(|&i| res[i][j]).sum();
        let abs: f64 = rows.iter().map(|&i| res[i][j].abs()).sum();
        let den: f64 = rows.iter().map(|&i| res[i][j].abs() * (1.0 - res[i][j].abs())).sum();
        let dn = n * delta + 8.0 * U * n * abs;
        if den > 4.0 * dn && den > 1e-100 {
            w[j] = s * num / den;
            tol[j] = 2.0 * s * (dn + (num.abs() / den) * dn) / den + 1e-12 * w[j].abs();
        } else {
            // the divisor is within rounding of zero: the output only has to be finite
            tol[j] = f64::INFINITY;
        }
    }
    if loss == Loss::Softmax {
        for j in 0..k {
            if !(o[j] == w[j] || (o[j] - w[j]).abs() <= tol[j]) {
                return Err(format!("output {:?}, by the residuals it is {:?} (class {})", o, w, j));
            }
        }
        return Ok(());
    }
    // approximate: o stands for (m at class, -m/(K-1) elsewhere); some class must explain it
    if tol.iter().any(|t| !t.is_finite()) {
        return Ok(());
    }
    let top = (0..k).map(|j| w[j] - tol[j]).fold(f64::NEG_INFINITY, f64::max);
    let ok = (0..k).any(|c| w[c] + tol[c] >= top && {
        let v = amg_vec(o[c], c, k);
        (o[c] - w[c]).abs() <= tol[c] + 1e-12 * w[c].abs() && close_vec(o, &v, 1e-12 * o[c].abs() + 1e-320)
    });
    if !ok {
        return Err(format!("stands for {:?}, the class outputs by the residuals are {:?}", o, w));
    }
    Ok(())
}

/// One stagewise case: train, replay the rule, then compare predictions of the probe rows.
pub fn stagewise_case(d: &Data, r: Run, loss: Loss, ctx: &mut Ctx) -> Result<(), String> {
    ctx.describe(|| format!("{} {:?}", d.describe(), r));
    let k = d.t();
    let probes = probe_rows(d);
    let ask = |f: &dyn Fn(&[f64]) -> Vec<f64>| must("predicting", || probes.iter().map(|p| f(p)).collect::<Vec<_>>());
    let (p, preds) = match loss {
        Loss::Squared => {
            let m = train_reg(d, r)?;
            (Plain::reg(&m, d.c())?, ask(&|x| m.predict(x))?)
        }
        Loss::Softmax => {
            let m = train_mc(d, r)?;
            (Plain::mc(&m, d.c())?, ask(&|x| m.predict(x))?)
        }
        Loss::SoftmaxApprox => {
            let m = train_amg(d, r)?;
            (Plain::amg(&m, d.c(), k)?, ask(&|x| m.predict(x))?)
        }
    };
    check_stagewise(d, &p, r, loss, ctx)?;
    let n = p.trees.len();
    let mut h = H::new(3);
    for (row, got) in probes.iter().zip(&preds) {
        ctx.trans(1);
        h.fs(got);
        if loss == Loss::Squared {
            let want = p.score(row, r.lr, n);
            let mag: f64 = max_abs(&[p.start.clone()]) + p.trees.iter().map(|t| r.lr.abs() * max_abs(&[t.leaf_of(row).clone()])).sum::<f64>();
            if !close_vec(got, &want, 4.0 * U * (2.0 + n as f64) * mag + 1e-320) {
                return Err(format!("row {:?} is predicted as {:?}, start plus weighted leaf outputs is {:?}", row, got, want));
            }
        } else {
            let c = valid_onehot(got, k).ok_or_else(|| format!("row {:?} is predicted as {:?}", row, got))?;
            let (ok, s) = p.allowed(row, r.lr, n);
            if !ok.contains(&c) {
                return Err(format!("row {:?} is predicted as class {}, the accumulated scores are {:?}", row, c, s));
            }
        }
    }
    h.u(p.hash());
    ctx.outcome(h.get());
    ctx.trace();
    Ok(())
}

pub const ITERS: [u32; 5] = [0, 1, 2, 5, 9];
pub const LRS: [f64; 4] = [1.0, 0.5, 0.1, 1.5];

/// Families for the classification variants.
pub fn class_families(loss: Loss, th: bool) -> Vec<crate::engine::Family> {
    use crate::cases::*;
    use crate::engine::Family;
    let mut fams = vec![];
    let mut spaces = vec![
        ClassSpace::new(1, 1, 2, &[0]),
        ClassSpace::new(2, 1, 2, &[0, 1, 4, 8, 9]),
        ClassSpace::new(2, 1, 3, &[0]),
        ClassSpace::new(2, 2, 2, &[0]),
        ClassSpace::new(3, 1, 2, &[0, 1, 3, 8]),
        ClassSpace::new(3, 1, 3, &[0]),
        ClassSpace::new(3, 1, 4, &[0]),
        ClassSpace::new(3, 2, 2, &[0]),
        ClassSpace::new(4, 1, 2, &[0]),
        ClassSpace::new(4, 1, 3, &[0]),
    ];
    if th {
        spaces.push(ClassSpace::new(3, 2, 3, &[0, 1]));
        spaces.push(ClassSpace::new(4, 1, 4, &[0, 3]));
        spaces.push(ClassSpace::new(4, 2, 2, &[0]));
        spaces.push(ClassSpace::new(5, 1, 2, &[0, 4]));
        spaces.push(ClassSpace::new(5, 1, 3, &[0]));
        spaces.push(ClassSpace::new(3, 1, 6, &[0]));
    }
    for s in spaces {
        let lv: Vec<u32> = vec![0, 1, 2, s.n as u32];
        // big spaces: the longest runs only (every prefix is judged anyway)
        let small = s.count() < 300;
        let ni = if small { 5 } else { 1 };
        let nmt = if small { 2 } else { 1 };
        let nlr = if small || th { 4 } else { 2 };
        fams.push(Family::new(format!("small-{}", s.name()), s.count() * 4 * ni * nlr * nmt, move |i, ctx| {
            let mut cut = Cut(i);
            let iters = ITERS[4 - cut.take(ni)];
            let mt = cut.take(nmt) == 1;
            let lr = LRS[cut.take(nlr)];
            let levels = lv[cut.take(4)];
            let (d, _) = s.get(cut.0);
            stagewise_case(&d, Run { levels, iters, lr, mt }, loss, ctx)
        }));
    }
    let mut b = bigs(&[(6, 2, 1), (9, 1, 2), (20, 3, 2), (30, 2, 9), (40, 9, 1), (60, 2, 4)], &(0..NPAT).collect::<Vec<_>>(), &(0..NPAT).collect::<Vec<_>>(), &[(1.0, 0.0)]);
    b.extend(bigs(&[(150, 3, 2), (300, 2, 3)], &[0, 4, 10, 14], &[4, 10, 14], &[(1.0, 0.0)]));
    b.extend(bigs(&[(24, 2, 29), (14, 40, 2)], &[0, 4, 10], &[0, 4, 10], &[(1.0, 0.0)]));
    if th {
        b.extend(bigs(&[(600, 3, 3), (1200, 2, 2)], &[0, 4, 10, 14], &[4, 10, 14], &[(1.0, 0.0)]));
    }
    let vars: Vec<(u32, u32, f64, bool)> = if th {
        vec![(0, 4, 0.5, false), (1, 70, 0.1, false), (2, 40, 1.0, true), (4, 25, 0.3, false), (40, 20, 0.1, true), (3, 150, 0.05, false)]
    } else {
        vec![(1, 30, 0.1, false), (2, 12, 1.0, true), (40, 8, 0.3, false)]
    };
    let nv = vars.len() as u64;
    fams.push(
        Family::new("structured", b.len() as u64 * nv, move |i, ctx| {
            let mut cut = Cut(i);
            let (levels, iters, lr, mt) = vars[cut.take(nv)];
            let big = &b[cut.take(b.len() as u64)];
            let (d, _) = big.classes(1 + big.t);
            stagewise_case(&d, Run { levels, iters, lr, mt }, loss, ctx)
        })
        .chunk(2),
    );
    // the repository's data files
    fams.push(Family::new("files", 8 * 2, move |i, ctx| {
        let f = i % 8;
        let Some(d) = real(f) else { ctx.skip(); return Ok(()) };
        let r = if f == 7 { Run { levels: 3, iters: if i < 8 { 2 } else { 1 }, lr: 0.1, mt: i >= 8 } } else if i < 8 { Run { levels: 3, iters: 12, lr: 0.1, mt: true } } else { Run { levels: 8, iters: 4, lr: 0.5, mt: false } };
        stagewise_case(&d, r, loss, ctx)
    }).chunk(1));
    // thousands of rows: block sizes, sampling limits
    let ln: Vec<usize> = if th { vec![1023, 1024, 1025, 2047, 2048, 2049, 4097, 10_001, 33_000, 70_000] } else { vec![1023, 1025, 2049, 4097, 10_001] };
    let lnn = ln.len() as u64;
    fams.push(Family::new("large", lnn * 6, move |i, ctx| {
        let n = ln[(i % lnn) as usize];
        let v = (i / lnn) as usize;
        let (levels, iters, lr) = [(1u32, 3u32, 0.5), (3, 2, 0.3), (2, 12, 1.0)][v % 3];
        let big = Big { n, c: 2, t: 1, fp: [4, 10][v / 3], lp: [10, 14][v / 3], scale: 1.0, offset: 0.0 };
        let (d, _) = big.classes(2 + v % 3);
        stagewise_case(&d, Run { levels, iters, lr, mt: v % 2 == 1 }, loss, ctx)
    }).chunk(1));
    // well separated classes: residuals become small
    fams.push(Family::new("separated", 6 * 4 * 2, move |i, ctx| {
        let n = [4usize, 30, 100, 257, 300, 600][(i % 6) as usize];
        let k = [2usize, 3, 5, 9][(i / 6 % 4) as usize];
        let rows = (0..n).map(|r| vec![r as f64, (r % 3) as f64]).collect();
        let labels = (0..n).map(|r| onehot(r * k / n, k)).collect();
        let (iters, lr) = [(12u32, 1.0), (40, 0.4)][(i / 24) as usize];
        stagewise_case(&Data { rows, labels }, Run { levels: 4, iters, lr, mt: false }, loss, ctx)
    }).chunk(1));
    // many iterations, deep trees
    fams.push(Family::new("long", 9 * 4, move |i, ctx| {
        let iters = [63u32, 64, 65, 100, 128, 129, 256, 257, 1025][(i % 9) as usize];
        let (n, levels, lr) = [(3usize, 1u32, 0.02), (6, 2, 0.01), (4, 9, 0.005), (9, 1, 0.05)][(i / 9) as usize];
        let (d, _) = Big { n, c: 2, t: 1, fp: 4, lp: 10, scale: 1.0, offset: 0.0 }.classes(2 + (i as usize / 9) % 2);
        stagewise_case(&d, Run { levels, iters, lr, mt: i % 2 == 1 }, loss, ctx)
    }).chunk(1));
    // every size and number of iterations in turn
    // very many rows
    let hz = Sizes::huge();
    fams.push(Family::new("huge", hz.count(), move |i, ctx| stagewise_case(&hz.class(i).0, Run { levels: 1, iters: 2, lr: 0.5, mt: i / 4 % 2 == 1 }, loss, ctx)).chunk(1));
    let z = Sizes::new(1025, 257, 257, if th { 2100 } else { 1100 });
    fams.push(Family::new("sizes", z.count(), move |i, ctx| {
        let d = z.class(i).0;
        if d.t() < 2 {
            ctx.skip();
            return Ok(());
        }
        stagewise_case(&d, Run { levels: 1 + (i % 3) as u32, iters: 3, lr: 0.5, mt: i / 4 % 2 == 1 }, loss, ctx)
    }).chunk(4));
    let its: Vec<u32> = counts(600, if th { 2100 } else { 1100 }).into_iter().map(|x| x as u32).chain([0]).collect();
    fams.push(Family::new("iterations", its.len() as u64 * 3, move |i, ctx| {
        let (n, levels, lr) = [(3usize, 1u32, 0.02), (6, 2, 0.05), (5, 9, 0.01)][(i % 3) as usize];
        let (d, _) = Big { n, c: 2, t: 1, fp: 4, lp: 10, scale: 1.0, offset: 0.0 }.classes(2 + (i as usize / 3) % 2);
        stagewise_case(&d, Run { levels, iters: its[(i / 3) as usize], lr, mt: i % 2 == 1 }, loss, ctx)
    }).chunk(4));
    // learning rates
    const RATES: [f64; 12] = [1e-300, 1e-9, 1e-6, 1e-4, 0.01, 0.25, 0.75, 0.9, 0.999, 1.0 / 3.0, 1.25, 2.0];
    let b3 = bigs(&[(6, 2, 2), (20, 2, 1), (9, 1, 2)], &[0, 4, 10], &[4, 10], &[(1.0, 0.0)]);
    fams.push(Family::new("rates", 12 * b3.len() as u64, move |i, ctx| {
        let big = &b3[(i / 12) as usize];
        stagewise_case(&big.classes(1 + big.t).0, Run { levels: 2, iters: 6, lr: RATES[(i % 12) as usize], mt: i % 2 == 1 }, loss, ctx)
    }));
    fams.push(Family::new("deep", 10 * 2, move |i, ctx| {
        let l = [32u32, 63, 64, 65, 100, 128, 255, 256, 257, u32::MAX][(i % 10) as usize];
        let k = 2 + (i / 10) as usize;
        let n = 540usize;
        let rows = (0..n).map(|r| vec![r as f64]).collect();
        let labels = (0..n).map(|r| crate::model::onehot(r % k, k)).collect();
        stagewise_case(&Data { rows, labels }, Run { levels: l, iters: 1, lr: 0.5, mt: i % 2 == 1 }, loss, ctx)
    }).chunk(1));
    // two classes sharing the largest score, wherever they lie
    let mut pairs = vec![];
    for k in (2..=if th { 80 } else { 40usize }).chain([65, 100, 128, 129, 200, 256, 257, 300]) {
        let place: Vec<usize> = if k <= if th { 80 } else { 40 } { (0..k).collect() } else { vec![0, 1, 7, 8, 9, 31, 32, 63, 64, k / 2, k - 2, k - 1] };
        for &i in &place {
            for &j in &place {
                if i < j {
                    pairs.push((k, i, j));
                }
            }
        }
    }
    fams.push(Family::new("ties", pairs.len() as u64 * 2, move |x, ctx| {
        let (k, mut i, mut j) = pairs[(x / 2) as usize];
        if x % 2 == 1 {
            std::mem::swap(&mut i, &mut j);
        }
        // two rows that cannot be told apart, and one of another class (or one of theirs)
        let d = Data { rows: vec![vec![0.0], vec![0.0], vec![1.0]], labels: vec![onehot(i, k), onehot(j, k), onehot((i + 1) % k, k)] };
        stagewise_case(&d, Run { levels: (x / 2 % 3) as u32, iters: 2, lr: 0.5, mt: false }, loss, ctx)
    }).chunk(16));
    // twin columns; every magnitude of features
    let e = Extras::new();
    fams.push(Family::new("extras", e.count() * 2, move |i, ctx| stagewise_case(&e.class(i / 2).0, Run { levels: 1 + (i % 2) as u32 * 3, iters: 3, lr: 0.5, mt: i / 2 % 2 == 1 }, loss, ctx)));
    // trees as deep as there are rows
    let ch = Chains::new(if th { 150 } else { 65 }, 490);
    fams.push(Family::new("chains", ch.count() * 2, move |i, ctx| stagewise_case(&ch.class(i / 2).0, Run { levels: [1000, 33][(i % 2) as usize], iters: 3, lr: 0.5, mt: i / 2 % 2 == 1 }, loss, ctx)).chunk(1));
    // every combination of coarse sizes and settings
    let x = Mix::new(&MIX_LEVELS, &MIX_ITERS, &[1.0, 0.3, 0.05], 150_000);
    fams.push(Family::new("mix", x.count(), move |i, ctx| {
        let (d, _, levels, iters, lr, mt) = x.class(i);
        stagewise_case(&d, Run { levels, iters, lr, mt }, loss, ctx)
    }).chunk(4));
    fams
}
