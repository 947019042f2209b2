// E01: single-tree predictions and scores are what the leaf says.
use common::data_processor::create_dataset_with_sorted_features;
use common::datasets::{MultiTargetDataSet, MultiTargetDataSetSortedFeatures};
use common::question::Question;
use multi_target_decision_tree::decision_trees::RegressionMultiTargetDecisionTreeNewPartition;
use multi_target_decision_tree::leaf::{RegressionLeaf, RegressionLeafNewPartition};
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::scorer::{classification, regression};
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

type Model = Tree<Vec<Vec<f64>>>; // leaf = label vectors of its training rows

fn build(t: &Model) -> TreeNode<RegressionLeaf> {
    match t {
        Tree::Leaf(l) => {
            let rows: Vec<Vec<f64>> = l.iter().enumerate().map(|(i, _)| vec![i as f64; 2]).collect();
            let d = Data { rows, labels: l.clone() };
            // the question stored in a leaf must not matter
            TreeNode::leaf_node(Question::new(1, 99.0), RegressionLeaf { data: Some(d.ds()) })
        }
        Tree::Node { col, val, yes, no } => TreeNode::new(Question::new(*col as u32, *val), Box::new(build(yes)), Box::new(build(no))),
    }
}
fn build_new<'a>(t: &'a Model) -> TreeNode<RegressionLeafNewPartition<'a>> {
    match t {
        Tree::Leaf(l) => TreeNode::leaf_node(
            Question::new(0, -99.0),
            RegressionLeafNewPartition {
                data: Some(MultiTargetDataSetSortedFeatures {
                    labels: l.iter().collect(),
                    sorted_feature_columns: vec![l.iter().enumerate().map(|(i, _)| (i as f64, i)).collect(); 2],
                }),
            },
        ),
        Tree::Node { col, val, yes, no } => TreeNode::new(Question::new(*col as u32, *val), Box::new(build_new(yes)), Box::new(build_new(no))),
    }
}

fn class_counts(l: &[Vec<f64>]) -> Vec<usize> {
    (0..l[0].len()).map(|k| l.iter().filter(|v| v[k] == 1.0).count()).collect()
}

/// Classification: labels are one-hot.
fn check_class(t: &Model, root: &Box<TreeNode<RegressionLeaf>>, tests: &Data, ctx: &mut Ctx) -> CaseResult {
    let mut right = 0usize;
    let mut preds = vec![];
    for (r, l) in tests.rows.iter().zip(&tests.labels) {
        let p = must("predict_class", || classification::predict_class(r, root))?;
        let counts = class_counts(t.leaf_of(r));
        let k = p.iter().position(|x| *x == 1.0).unwrap_or(usize::MAX);
        if p.len() != counts.len() || k == usize::MAX || p != onehot(k, counts.len()) {
            return Err(format!("prediction for {:?} is {:?}, not a one-hot vector of {} classes", r, p, counts.len()));
        }
        if counts[k] != *counts.iter().max().unwrap() {
            return Err(format!("prediction for {:?} is class {}, its leaf holds {:?} rows per class", r, k, counts));
        }
        ctx.trans(1);
        if p == *l {
            right += 1;
        }
        preds.push(k as u64);
    }
    let want = right as f64 / tests.n() as f64;
    let ds = tests.ds();
    let acc = must("calculate_accuracy", || classification::calculate_accuracy(&ds, root))?;
    if !close(acc, want, 1e-12) {
        return Err(format!("accuracy {:?} instead of {:?} ({} of {} rows)", acc, want, right, tests.n()));
    }
    let rev: Vec<usize> = (0..tests.n()).rev().collect();
    let rds = tests.subset(&rev).ds();
    let acc2 = must("calculate_accuracy", || classification::calculate_accuracy(&rds, root))?;
    if !close(acc, acc2, 1e-12) {
        return Err(format!("accuracy {:?} becomes {:?} when the test rows are reversed", acc, acc2));
    }
    let mut h = H::new(6);
    for p in preds {
        h.u(p);
    }
    ctx.outcome(h.get());
    Ok(())
}

fn check_reg<'a>(
    t: &Model,
    root: &Box<TreeNode<RegressionLeaf>>,
    root_new: &Box<TreeNode<RegressionLeafNewPartition<'a>>>,
    tests: &Data,
    ctx: &mut Ctx,
) -> CaseResult {
    let preds: Vec<Vec<f64>> = tests.rows.iter().map(|r| { let l = t.leaf_of(r); mean_of(l, &(0..l.len()).collect::<Vec<_>>()) }).collect();
    let want = mse(&preds, &tests.labels);
    let m = max_abs(&tests.labels).max(max_abs(&preds));
    let tol = 1e-10 * want + 1e-13 * m * m;
    ctx.trans(tests.n() as u64);
    for rev in [false, true] {
        let idx: Vec<usize> = if rev { (0..tests.n()).rev().collect() } else { (0..tests.n()).collect() };
        let ds = tests.subset(&idx).ds();
        let a = must("mean squared error", || regression::calculate_overall_mean_squared_error(&ds, root))?;
        let b = must("mean squared error (sorted columns)", || regression::calculate_overall_mean_squared_error_new_partition(&ds, root_new))?;
        if !close(a, want, tol) || !close(b, want, tol) {
            return Err(format!("mean squared errors {:?} (row tree) and {:?} (column tree), should be {:?}{}", a, b, want, if rev { " (test rows reversed)" } else { "" }));
        }
        // one row at a time: the error of a single row is the mean over targets
        if !rev && tests.n() <= 12 {
            for i in 0..tests.n() {
                let one: MultiTargetDataSet = tests.subset(&[i]).ds();
                let x = must("mean squared error", || regression::calculate_overall_mean_squared_error(&one, root))?;
                let w = mse(&preds[i..=i], &tests.labels[i..=i]);
                if !close(x, w, 1e-10 * w + 1e-13 * m * m) {
                    return Err(format!("mean squared error of the single row {:?} is {:?} instead of {:?}", tests.rows[i], x, w));
                }
            }
        }
        let mut h = H::new(7);
        h.f(a);
        ctx.outcome(h.get());
    }
    Ok(())
}

/// All small tree shapes with their questions; leaves are numbered.
fn shapes() -> Vec<Tree<usize>> {
    let q = [(0usize, 1.0), (0, 2.0), (1, 1.0), (1, 2.0)];
    let leaf = |k| Box::new(Tree::Leaf(k));
    let mut v = vec![Tree::Leaf(0)];
    for (c, x) in q {
        v.push(Tree::Node { col: c, val: x, yes: leaf(0), no: leaf(1) });
        for (c2, x2) in q {
            v.push(Tree::Node { col: c, val: x, yes: Box::new(Tree::Node { col: c2, val: x2, yes: leaf(0), no: leaf(1) }), no: leaf(2) });
            v.push(Tree::Node { col: c, val: x, yes: leaf(0), no: Box::new(Tree::Node { col: c2, val: x2, yes: leaf(1), no: leaf(2) }) });
        }
    }
    v
}

fn grid() -> Vec<Vec<f64>> {
    let mut g = vec![];
    for a in [0.0, 1.0, 1.5, 2.0, 3.0] {
        for b in [0.0, 1.0, 1.5, 2.0, 3.0] {
            g.push(vec![a, b]);
        }
    }
    g
}

fn class_seqs(k: usize, maxn: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for n in 1..=maxn {
        for code in 0..(k as u64).pow(n as u32) {
            out.push(digits(code, k as u64, n));
        }
    }
    out
}

fn main() {
    let th = thorough();
    let mut fams = vec![];
    // hand-built trees, classification
    for (k, maxn, _) in [(2usize, if th { 3 } else { 2 }, 0), (3, if th { 2 } else { 1 }, 0)] {
        let shapes = shapes();
        let seqs = class_seqs(k, maxn);
        let ns = seqs.len() as u64;
        let count = shapes.len() as u64 * ns.pow(3);
        fams.push(Family::new(format!("tree-class-K{}", k), count, move |i, ctx| {
            let mut cut = Cut(i);
            let sh = &shapes[cut.take(shapes.len() as u64)];
            let picks: Vec<usize> = (0..3).map(|_| cut.take(ns)).collect();
            if (sh.leaves()..3).any(|x| picks[x] != 0) {
                return Ok(()); // unused leaf slots: one representative only
            }
            let t = sh.map(&mut |l| seqs[picks[*l]].iter().map(|&c| onehot(c, k)).collect::<Vec<_>>());
            ctx.describe(|| format!("{:?}", t));
            let root = Box::new(build(&t));
            let g = grid();
            let tests = Data { labels: (0..g.len()).map(|i| onehot((i * 7 + 1) % k, k)).collect(), rows: g };
            ctx.state({ let mut h = H::new(6); h.u(i).u(k as u64); h.get() });
            check_class(&t, &root, &tests, ctx)?;
            ctx.trace();
            Ok(())
        }));
    }
    // one leaf: every multiset of classes up to n rows, every K
    for (k, n) in [(2usize, 8usize), (3, 6), (4, 5), (5, 4)] {
        let seqs = class_seqs(k, n);
        fams.push(Family::new(format!("leaf-class-K{}", k), seqs.len() as u64, move |i, ctx| {
            let s = &seqs[i as usize];
            let t: Model = Tree::Leaf(s.iter().map(|&c| onehot(c, k)).collect());
            ctx.describe(|| format!("leaf classes {:?} of {}", s, k));
            let root = Box::new(build(&t));
            let tests = Data { rows: vec![vec![0.0, 0.0]; k], labels: (0..k).map(|c| onehot(c, k)).collect() };
            ctx.state({ let mut h = H::new(8); h.u(i).u(k as u64); h.get() });
            check_class(&t, &root, &tests, ctx)?;
            ctx.trace();
            Ok(())
        }));
    }
    // large leaves: counts around byte and word limits, many classes
    fams.push(Family::new("leaf-class-large", 12 * 14, |i, ctx| {
        let k = [2usize, 3, 7, 10, 12, 16, 33, 65, 127, 129, 257, 300][(i % 12) as usize];
        let n = [1usize, 2, 9, 31, 63, 100, 128, 200, 255, 256, 257, 300, 1000, 66_000][(i / 12) as usize];
        let mut labels = vec![];
        for r in 0..n {
            labels.push(if r % 2 == 0 { k - 1 } else { (r * 7) % k });
        }
        if k * n > 3_000_000 {
            return Ok(());
        }
        let t: Model = Tree::Leaf(labels.iter().map(|&c| onehot(c, k)).collect());
        ctx.describe(|| format!("leaf of {} rows, {} classes", n, k));
        let root = Box::new(build(&t));
        let tests = Data { rows: vec![vec![0.0, 0.0]; 5], labels: (0..5).map(|c| onehot(if c < 3 { k - 1 } else { c % k }, k)).collect() };
        ctx.state({ let mut h = H::new(9); h.u(i); h.get() });
        check_class(&t, &root, &tests, ctx)?;
        ctx.trace();
        Ok(())
    }).chunk(1));
    // test labels that are no one-hot vectors: right means equal, nothing else
    {
        const L: [f64; 10] = [0.0, 1.0, -0.0, 0.5, 2.0, -1.0, 0.9999999999999999, 1.0000000000000002, 5e-324, f64::INFINITY];
        for k in [1usize, 2, 3] {
            let n = 10u64.pow(k as u32);
            fams.push(Family::new(format!("odd-labels-K{}", k), n * k as u64, move |i, ctx| {
                let label: Vec<f64> = digits(i / k as u64, 10, k).iter().map(|&x| L[x]).collect();
                let c = (i % k as u64) as usize;
                // every leaf of a two-leaf tree, the other one holding another class
                let t = Tree::Node { col: 0, val: 1.0, yes: Box::new(Tree::Leaf(vec![onehot(c, k)])), no: Box::new(Tree::Leaf(vec![onehot((c + 1) % k, k); 2])) };
                ctx.describe(|| format!("class {} of {}, test label {:?}", c, k, label));
                let root = Box::new(build(&t));
                ctx.state({ let mut h = H::new(12); h.u(i).u(k as u64); h.get() });
                for rows in [vec![vec![1.0, 0.0]], vec![vec![0.0, 0.0], vec![2.0, 0.0], vec![0.0, 1.0]]] {
                    let tests = Data { labels: vec![label.clone(); rows.len()], rows };
                    check_class(&t, &root, &tests, ctx)?;
                }
                ctx.trace();
                Ok(())
            }));
        }
    }
    // hand-built trees, regression
    {
        let shapes = shapes();
        let vals = [-2.0, 0.0, 1.0, 0.1];
        let mut leafs: Vec<Vec<Vec<f64>>> = vec![];
        for a in vals {
            leafs.push(vec![vec![a, 3.0 - a]]);
            for b in [-2.0, 1.0] {
                leafs.push(vec![vec![a, 3.0 - a], vec![b, a * 0.5]]);
            }
        }
        leafs.push(vec![vec![1.0, 1.0], vec![2.0, 5.0], vec![-0.5, 1e3]]);
        let nl = leafs.len() as u64;
        fams.push(Family::new("tree-reg", shapes.len() as u64 * nl.pow(3), move |i, ctx| {
            let mut cut = Cut(i);
            let sh = &shapes[cut.take(shapes.len() as u64)];
            let picks: Vec<usize> = (0..3).map(|_| cut.take(nl)).collect();
            if (sh.leaves()..3).any(|x| picks[x] != 0) {
                return Ok(());
            }
            let t = sh.map(&mut |l| leafs[picks[*l]].clone());
            ctx.describe(|| format!("{:?}", t));
            let root = Box::new(build(&t));
            let root_new = Box::new(build_new(&t));
            let g: Vec<Vec<f64>> = grid().into_iter().step_by(2).collect();
            let tests = Data { labels: (0..g.len()).map(|i| vec![i as f64 * 0.3 - 1.0, 2.0 - i as f64]).collect(), rows: g };
            ctx.state({ let mut h = H::new(10); h.u(i); h.get() });
            check_reg(&t, &root, &root_new, &tests, ctx)?;
            ctx.trace();
            Ok(())
        }));
    }
    // trained trees: classification and regression scores on training and shifted rows
    let mut spaces = vec![ClassSpace::new(3, 2, 2, &[0, 1, 6, 8]), ClassSpace::new(3, 1, 3, &[0, 4]), ClassSpace::new(4, 1, 3, &[0])];
    if th {
        spaces.push(ClassSpace::new(4, 2, 2, &[0]));
        spaces.push(ClassSpace::new(5, 1, 3, &[0]));
        spaces.push(ClassSpace::new(3, 2, 3, &[0, 1, 4, 6]));
    }
    let trained = |d: Data, l: u32, ctx: &mut Ctx, classes: bool| -> CaseResult {
        ctx.describe(|| format!("{} max_levels={}", d.describe(), l));
        let root = Box::new(train_tree(&d, l, false)?);
        let t: Model = read_tree(&root, d.c(), &mut held)?.map(&mut |h| h.labels.clone());
        // (the code goes through the whole leaf for each of them, so not all of very many)
        let few = d.subset(&(0..d.n()).rev().step_by(1 + d.n() / 1500).collect::<Vec<usize>>());
        let mut rows = few.rows;
        let mut labels = few.labels;
        rows.reverse();
        labels.reverse();
        for i in 0..d.n().min(20) {
            let mut r = d.rows[i].clone();
            let j = i % d.c();
            r[j] += if i % 2 == 0 { 0.25 } else { -0.25 };
            rows.push(r);
            labels.push(d.labels[(i + 1) % d.n()].clone());
        }
        let tests = Data { rows, labels };
        ctx.state(d.hash(l as u64));
        if classes {
            check_class(&t, &root, &tests, ctx)?;
        }
        let ds = d.ds();
        let cfg = config(d.t(), l, false);
        let rn = must("training from sorted columns", || {
            Box::new(RegressionMultiTargetDecisionTreeNewPartition::new(create_dataset_with_sorted_features(&ds), cfg).root)
        })?;
        let tn: Model = read_tree(&rn, d.c(), &mut held_new)?.map(&mut |h| h.labels.clone());
        if tn.shape() == t.shape() {
            check_reg(&t, &root, &rn, &tests, ctx)?;
        }
        ctx.trace();
        Ok(())
    };
    for s in spaces {
        fams.push(Family::new(format!("trained-{}", s.name()), s.count() * 3, move |i, ctx| {
            let mut cut = Cut(i);
            let l = [0, 1, 4][cut.take(3)];
            trained(s.get(cut.0).0, l, ctx, true)
        }));
    }
    let b = bigs(&[(9, 2, 1), (40, 3, 2), (130, 2, 3), (300, 5, 1), (1000, 2, 12)], &[0, 4, 7, 10], &(0..NPAT).collect::<Vec<_>>(), &[(1.0, 0.0), (0.37, 10.0)]);
    fams.push(Family::new("trained-structured", b.len() as u64 * 6, move |i, ctx| {
        let mut cut = Cut(i);
        let l = [0, 2, 9][cut.take(3)];
        let cls = cut.take(2) == 1;
        let big = &b[cut.take(b.len() as u64)];
        if cls {
            trained(big.classes(2 + big.t).0, l, ctx, true)
        } else {
            trained(big.data(), l, ctx, false)
        }
    }).chunk(2));
    // the repository's data files
    fams.push(Family::new("files", REAL * 3, move |i, ctx| {
        let f = i % REAL;
        let Some(d) = real(f) else { ctx.skip(); return Ok(()) };
        trained(d, [1, 3, 8][(i / REAL) as usize], ctx, f < 8)
    }).chunk(1));
    // deep hand-built chain
    fams.push(Family::new("chain", 8, |i, ctx| {
        let depth = [5usize, 17, 33, 64, 65, 129, 257, 600][i as usize];
        let mut t: Model = Tree::Leaf(vec![vec![depth as f64, -1.0]]);
        for k in (0..depth).rev() {
            t = Tree::Node { col: 0, val: k as f64 + 1.0, yes: Box::new(t), no: Box::new(Tree::Leaf(vec![vec![k as f64, 1.0], vec![k as f64 + 1.0, 0.0]])) };
        }
        ctx.describe(|| format!("chain of {} questions", depth));
        let root = Box::new(build(&t));
        let root_new = Box::new(build_new(&t));
        let rows: Vec<Vec<f64>> = (0..=depth).map(|k| vec![k as f64 + 0.5, 0.0]).collect();
        let tests = Data { labels: rows.iter().map(|r| vec![r[0] * 2.0, 0.25]).collect(), rows };
        check_reg(&t, &root, &root_new, &tests, ctx)?;
        ctx.trace();
        Ok(())
    }).chunk(1));
    // every size in turn
    // very many rows to be scored
    fams.push(Family::new("huge-tests", HUGE.len() as u64 * 4, |i, ctx| {
        let mut cut = Cut(i);
        let n = HUGE[cut.take(HUGE.len() as u64)];
        let (class, last) = (cut.take(2) == 1, cut.take(2) == 1);
        let big = Big { n: 40, c: 2, t: 2, fp: 4, lp: 10, scale: 1.0, offset: 0.0 };
        let d = if class { big.classes(3).0 } else { big.data() };
        ctx.describe(|| format!("{} rows to be scored, {}", n, d.describe()));
        let root = Box::new(train_tree(&d, 3, false)?);
        let t: Model = read_tree(&root, d.c(), &mut held)?.map(&mut |h| h.labels.clone());
        // mixed, or all alike but for the last
        let pick: Vec<usize> = (0..n).map(|j| if last { (j + 1 == n) as usize * 39 } else { (j * 17 + n) % 40 }).collect();
        let mut tests = d.subset(&pick);
        for (j, l) in tests.labels.iter_mut().enumerate() {
            if !last && j % 3 == 0 {
                *l = d.labels[(j / 3) % 40].clone();
            }
        }
        ctx.state({ let mut h = H::new(12); h.u(i); h.get() });
        if class {
            check_class(&t, &root, &tests, ctx)?;
        }
        let root_new = Box::new(build_new(&t));
        check_reg(&t, &root, &root_new, &tests, ctx)?;
        ctx.trace();
        Ok(())
    }).chunk(1));
    // very many rows
    let hz = Sizes::huge();
    fams.push(Family::new("huge", hz.count() * 2, move |i, ctx| {
        if i % 2 == 0 {
            trained(hz.get(i / 2), 2, ctx, false)
        } else {
            trained(hz.class(i / 2).0, 2, ctx, true)
        }
    }).chunk(1));
    let z = Sizes::new(1025, 257, 257, if th { 2100 } else { 1100 });
    fams.push(Family::new("sizes", z.count() * 2, move |i, ctx| {
        if i % 2 == 0 {
            trained(z.get(i / 2), [1, 3, 40][(i / 2 % 3) as usize], ctx, false)
        } else {
            trained(z.class(i / 2).0, [0, 1, 3][(i / 2 % 3) as usize], ctx, true)
        }
    }).chunk(4));
    // twin columns; every magnitude of labels and features
    let e = Extras::new();
    fams.push(Family::new("extras", e.count() * 2, move |i, ctx| {
        let l = [1, 30, 2][(i / 2 % 3) as usize];
        if i % 2 == 1 { trained(e.class(i / 2).0, l, ctx, true) } else { trained(e.get(i / 2), l, ctx, false) }
    }));
    // trees as deep as there are rows
    let ch = Chains::new(if th { 150 } else { 65 }, 490);
    fams.push(Family::new("chains", ch.count() * 4, move |i, ctx| {
        let l = [1000, 60][(i / 2 % 2) as usize];
        if i % 2 == 1 { trained(ch.class(i / 4).0, l, ctx, true) } else { trained(ch.get(i / 4), l, ctx, false) }
    }).chunk(1));
    // training rows of several classes at once, or of none
    for (k, n) in [(1usize, 4usize), (2, 4), (3, if th { 4 } else { 3 }), (4, if th { 3 } else { 2 })] {
        let per = 1u64 << k;
        let count: u64 = (1..=n as u32).map(|m| per.pow(m)).sum();
        fams.push(Family::new(format!("multilabel-K{}", k), count, move |i, ctx| {
            let (mut x, mut m) = (i, 1u32);
            while x >= per.pow(m) {
                x -= per.pow(m);
                m += 1;
            }
            let labels: Vec<Vec<f64>> = digits(x, per, m as usize).into_iter().map(|b| (0..k).map(|j| (b >> j & 1) as f64).collect()).collect();
            let t = Tree::Node { col: 0, val: 1.0, yes: Box::new(Tree::Leaf(labels.clone())), no: Box::new(Tree::Leaf(labels.iter().rev().take(1).cloned().collect())) };
            ctx.describe(|| format!("leaf labels {:?}", labels));
            let root = Box::new(build(&t));
            let mut tests = Data { rows: vec![], labels: vec![] };
            for b in 0..per {
                tests.rows.push(vec![(b % 3) as f64, 0.0]);
                tests.labels.push((0..k).map(|j| (b >> j & 1) as f64).collect());
            }
            ctx.state({ let mut h = H::new(14); h.u(i).u(k as u64); h.get() });
            check_class(&t, &root, &tests, ctx)?;
            ctx.trace();
            Ok(())
        }));
    }
    // every combination of coarse sizes and settings
    let x = Mix::new(&[0, 1, 2, 3, 4, 6, 9, 40], &[1], &[1.0], 300_000);
    fams.push(Family::new("mix", x.count() * 2, move |i, ctx| {
        let (d, l, _, _, _) = x.get(i / 2);
        if i % 2 == 1 { trained(x.class(i / 2).0, l, ctx, true) } else { trained(d, l, ctx, false) }
    }).chunk(4));
    main_run(Check {
        id: "E01",
        level: "model_checking",
        rule: "every tree shape with up to three leaves, every question and leaf content from the alphabets, evaluated on a grid of rows; every class sequence in a leaf; trained trees on complete small data; structured large leaves".into(),
        assumptions: vec!["classification leaves hold labels of 0 and 1 (the test labels need not be); where classes tie in a leaf any of them is accepted".into(), "errors compared up to 1e-10 relative".into()],
        families: fams,
        pool: true,
        bounds: "shapes with <=3 leaves, 2 columns x 2 thresholds, leaves of <=2 rows (3 thorough); leaf class sequences up to 8 rows / 5 classes; large leaves up to 66000 rows and 300 classes; trained trees of sizes up to 1025 rows, 257 columns, 257 targets; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) and coarse settings up to a cost bound".into(),
    });
}
