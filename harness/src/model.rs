//! The reference model: data sets, the state space of recursive partitioning (a state is the set
//! of rows that reach a node plus the level), split gains, leaf formulas, boosting scores.
//! Written from the property statements, with its own numerics (centred sums), and shared by all
//! checks of the enumeration engine.

use crate::engine::{must, Ctx, H};
use common::datasets::MultiTargetDataSet;
use multi_target_decision_tree::decision_trees::TreeConfig;
use multi_target_decision_tree::leaf::{
    AMGBoostLeaf, GradBoostLeaf, Leaf, RegressionLeaf, RegressionLeafNewPartition,
};
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::split_finder::{SplitFinder, SplitMetric};

pub const U: f64 = 2.220446049250313e-16;

#[derive(Clone, Debug, PartialEq)]
pub struct Data {
    pub rows: Vec<Vec<f64>>,
    pub labels: Vec<Vec<f64>>,
}

impl Data {
    pub fn n(&self) -> usize {
        self.rows.len()
    }
    pub fn c(&self) -> usize {
        self.rows[0].len()
    }
    pub fn t(&self) -> usize {
        self.labels[0].len()
    }
    pub fn columns(&self) -> Vec<Vec<f64>> {
        (0..self.c())
            .map(|j| self.rows.iter().map(|r| r[j]).collect())
            .collect()
    }
    pub fn ds(&self) -> MultiTargetDataSet {
        MultiTargetDataSet {
            feature_rows: self.rows.clone(),
            labels: self.labels.clone(),
            feature_columns: self.columns(),
        }
    }
    pub fn describe(&self) -> String {
        if self.n() > 24 || self.n() * (self.c() + self.t()) > 160 {
            let k = self.n().min(4);
            let mut s = format!("n={} c={} t={}", self.n(), self.c(), self.t());
            for i in 0..k {
                let cut = |v: &Vec<f64>| v.iter().take(6).cloned().collect::<Vec<_>>();
                s.push_str(&format!(
                    " {:?}->{:?}",
                    cut(&self.rows[i]),
                    cut(&self.labels[i])
                ));
            }
            s.push_str(" ...");
            s
        } else {
            format!("rows={:?} labels={:?}", self.rows, self.labels)
        }
    }
    pub fn hash(&self, tag: u64) -> u64 {
        let mut h = H::new(tag);
        for r in &self.rows {
            h.fs(r);
        }
        for l in &self.labels {
            h.fs(l);
        }
        h.get()
    }
    pub fn subset(&self, idx: &[usize]) -> Data {
        Data {
            rows: idx.iter().map(|&i| self.rows[i].clone()).collect(),
            labels: idx.iter().map(|&i| self.labels[i].clone()).collect(),
        }
    }
}

pub fn config(t: usize, max_levels: u32, mt: bool) -> TreeConfig {
    TreeConfig {
        split_finder: SplitFinder::new(SplitMetric::Variance),
        use_multi_threading: mt,
        number_of_classes: t as u32,
        max_levels,
    }
}

// ------------------------------------------------------------------ trees

#[derive(Clone, Debug, PartialEq)]
pub enum Tree<P> {
    Leaf(P),
    Node {
        col: usize,
        val: f64,
        yes: Box<Tree<P>>,
        no: Box<Tree<P>>,
    },
}

impl<P> Tree<P> {
    pub fn leaf_of(&self, row: &[f64]) -> &P {
        let mut t = self;
        loop {
            match t {
                Tree::Leaf(p) => return p,
                Tree::Node { col, val, yes, no } => {
                    t = if row[*col] >= *val { yes } else { no }
                }
            }
        }
    }
    pub fn depth(&self) -> u32 {
        match self {
            Tree::Leaf(_) => 0,
            Tree::Node { yes, no, .. } => 1 + yes.depth().max(no.depth()),
        }
    }
    pub fn leaves(&self) -> usize {
        match self {
            Tree::Leaf(_) => 1,
            Tree::Node { yes, no, .. } => yes.leaves() + no.leaves(),
        }
    }
    pub fn map<Q>(&self, f: &mut impl FnMut(&P) -> Q) -> Tree<Q> {
        match self {
            Tree::Leaf(p) => Tree::Leaf(f(p)),
            Tree::Node { col, val, yes, no } => Tree::Node {
                col: *col,
                val: *val,
                yes: Box::new(yes.map(f)),
                no: Box::new(no.map(f)),
            },
        }
    }
    pub fn shape(&self) -> Tree<()> {
        self.map(&mut |_| ())
    }
    pub fn hash_shape(&self, h: &mut H) {
        match self {
            Tree::Leaf(_) => {
                h.u(1);
            }
            Tree::Node { col, val, yes, no } => {
                h.u(2).u(*col as u64).f(*val);
                yes.hash_shape(h);
                no.hash_shape(h);
            }
        }
    }
}

/// Reads a tree of the implementation, checking that it is well formed.
pub fn read_tree<L: Leaf, P>(
    node: &TreeNode<L>,
    c: usize,
    f: &mut impl FnMut(&L) -> Result<P, String>,
) -> Result<Tree<P>, String> {
    match (&node.true_branch, &node.false_branch) {
        (None, None) => {
            if !node.is_leaf_node() {
                return Err("a node without branches is not reported as a leaf".into());
            }
            let l = node
                .leaf
                .as_ref()
                .ok_or("a node has neither branches nor leaf")?;
            Ok(Tree::Leaf(f(l)?))
        }
        (Some(a), Some(b)) => {
            if node.is_leaf_node() || node.leaf.is_some() {
                return Err("an inner node also carries a leaf".into());
            }
            let col = node.question.column as usize;
            if col >= c {
                return Err(format!("question on column {} of {}", col, c));
            }
            Ok(Tree::Node {
                col,
                val: node.question.value,
                yes: Box::new(read_tree(a, c, f)?),
                no: Box::new(read_tree(b, c, f)?),
            })
        }
        _ => Err("a node has exactly one branch".into()),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Held {
    pub rows: Vec<Vec<f64>>,
    pub labels: Vec<Vec<f64>>,
}
pub fn held(l: &RegressionLeaf) -> Result<Held, String> {
    let d = l.data.as_ref().ok_or("a leaf holds no data")?;
    if d.feature_rows.len() != d.labels.len() {
        return Err(format!(
            "a leaf holds {} rows but {} labels",
            d.feature_rows.len(),
            d.labels.len()
        ));
    }
    Ok(Held {
        rows: d.feature_rows.clone(),
        labels: d.labels.clone(),
    })
}
#[derive(Clone, Debug, PartialEq)]
pub struct HeldNew {
    pub labels: Vec<Vec<f64>>,
    pub columns: Vec<Vec<(f64, usize)>>,
}
pub fn held_new(l: &RegressionLeafNewPartition) -> Result<HeldNew, String> {
    let d = l.data.as_ref().ok_or("a leaf holds no data")?;
    Ok(HeldNew {
        labels: d.labels.iter().map(|x| x.to_vec()).collect(),
        columns: d.sorted_feature_columns.clone(),
    })
}
pub fn outp(l: &GradBoostLeaf) -> Result<Vec<f64>, String> {
    l.leaf_output
        .clone()
        .ok_or_else(|| "a leaf has no output".to_string())
}
pub fn amg(l: &AMGBoostLeaf) -> Result<(f64, usize), String> {
    match (l.max_value, l.class) {
        (Some(m), Some(k)) => Ok((m, k)),
        _ => Err("an approximate leaf lacks its value or class".into()),
    }
}

fn fcmp(a: &[f64], b: &[f64]) -> std::cmp::Ordering {
    for (x, y) in a.iter().zip(b) {
        match (x + 0.0).total_cmp(&(y + 0.0)) {
            std::cmp::Ordering::Equal => {}
            o => return o,
        }
    }
    a.len().cmp(&b.len())
}
pub fn same_multiset(a: &[Vec<f64>], b: &[Vec<f64>]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut x: Vec<&Vec<f64>> = a.iter().collect();
    let mut y: Vec<&Vec<f64>> = b.iter().collect();
    x.sort_by(|p, q| fcmp(p, q));
    y.sort_by(|p, q| fcmp(p, q));
    x == y
}
pub fn same_pairs(a: &Held, b: &Held) -> bool {
    let join = |h: &Held| -> Vec<Vec<f64>> {
        h.rows
            .iter()
            .zip(&h.labels)
            .map(|(r, l)| {
                let mut v = r.clone();
                v.extend(l);
                v
            })
            .collect()
    };
    same_multiset(&join(a), &join(b))
}

// ------------------------------------------------------------------ splits

#[derive(Clone, Copy, Debug)]
pub struct Cand {
    pub gain: f64,
    pub col: usize,
    pub val: f64,
}

/// Rounding allowance for a gain computed from `rows` rows, `scale2` = sum over targets of max y^2.
pub fn gain_eps(labels: &[Vec<f64>], rows: &[usize], delta: f64) -> f64 {
    let t = labels[0].len();
    let mut s2 = 0.0;
    let mut s1 = 0.0;
    for k in 0..t {
        let m = rows.iter().map(|&i| labels[i][k].abs()).fold(0.0, f64::max);
        s2 += m * m;
        s1 += m;
    }
    let n = rows.len() as f64;
    let d = delta;
    64.0 * n.max(2.0) * U * s2 + 4.0 * d * s1 + 4.0 * d * d * t as f64
}

pub fn centred(labels: &[Vec<f64>], rows: &[usize]) -> Vec<Vec<f64>> {
    let t = labels[0].len();
    let n = rows.len() as f64;
    let mut m = vec![0.0; t];
    for k in 0..t {
        let base = labels[rows[0]][k];
        m[k] = base + rows.iter().map(|&i| labels[i][k] - base).sum::<f64>() / n;
    }
    rows.iter()
        .map(|&i| (0..t).map(|k| labels[i][k] - m[k]).collect())
        .collect()
}

/// All separating questions of the rows, one per distinct partition per column.
pub fn candidates(d: &[Vec<f64>], labels: &[Vec<f64>], rows: &[usize]) -> Vec<Cand> {
    let c = d[0].len();
    let t = labels[0].len();
    let n = rows.len();
    let cen = centred(labels, rows);
    let mut out = vec![];
    let mut ord: Vec<usize> = (0..n).collect();
    let mut s = vec![0.0; t];
    for col in 0..c {
        ord.sort_by(|&a, &b| d[rows[a]][col].partial_cmp(&d[rows[b]][col]).unwrap());
        s.iter_mut().for_each(|x| *x = 0.0);
        for p in 0..n {
            let v = d[rows[ord[p]]][col];
            if p > 0 && v != d[rows[ord[p - 1]]][col] {
                let nl = p as f64;
                let nr = (n - p) as f64;
                let g: f64 = s.iter().map(|x| x * x).sum::<f64>() / (nl * nr);
                out.push(Cand { gain: g, col, val: v });
            }
            for k in 0..t {
                s[k] += cen[ord[p]][k];
            }
        }
    }
    out
}

pub fn best_gain(c: &[Cand]) -> f64 {
    c.iter().map(|x| x.gain).fold(0.0, f64::max)
}

/// Gain of an arbitrary question on these rows; None when it does not separate them.
pub fn gain_of(
    d: &[Vec<f64>],
    labels: &[Vec<f64>],
    rows: &[usize],
    col: usize,
    val: f64,
) -> Option<f64> {
    let t = labels[0].len();
    let cen = centred(labels, rows);
    let mut s = vec![0.0; t];
    let mut nl = 0usize;
    for (p, &i) in rows.iter().enumerate() {
        if !(d[i][col] >= val) {
            nl += 1;
            for k in 0..t {
                s[k] += cen[p][k];
            }
        }
    }
    let nr = rows.len() - nl;
    if nl == 0 || nr == 0 {
        return None;
    }
    Some(s.iter().map(|x| x * x).sum::<f64>() / (nl as f64 * nr as f64))
}

/// Labels on which every sum and square is exact, so zero variance is computed as exactly zero.
fn exact_constant(labels: &[Vec<f64>], rows: &[usize]) -> bool {
    let f = &labels[rows[0]];
    rows.len() <= 1 << 20
        && f.iter().all(|x| x.fract() == 0.0 && x.abs() <= 4096.0)
        && rows.iter().all(|&i| labels[i] == *f)
}

pub struct TreeSpec<'a> {
    pub rows: &'a [Vec<f64>],
    pub labels: &'a [Vec<f64>],
    pub max_levels: u32,
    /// uncertainty of the labels themselves (boosting residuals), 0 for plain trees
    pub delta: f64,
}

/// Walks the implementation's tree in step with the model's partition states.
pub fn check_tree<P>(
    spec: &TreeSpec,
    tree: &Tree<P>,
    ctx: &mut Ctx,
    leaf: &mut impl FnMut(&[usize], &P, &mut Ctx) -> Result<(), String>,
) -> Result<(), String> {
    let all: Vec<usize> = (0..spec.rows.len()).collect();
    let mut h = H::new(77);
    for r in spec.rows {
        h.fs(r);
    }
    for r in spec.labels {
        h.fs(r);
    }
    h.u(spec.max_levels as u64);
    let base = h.get();
    // Explicit stack: (node, rows, level)
    let mut stack: Vec<(&Tree<P>, Vec<usize>, u32)> = vec![(tree, all, 0)];
    while let Some((node, rows, level)) = stack.pop() {
        let mut hs = H(base);
        hs.u(level as u64);
        for &r in &rows {
            hs.u(r as u64);
        }
        ctx.state(hs.get());
        ctx.trans(1);
        let show = |rows: &[usize]| {
            if rows.len() > 16 {
                format!("{} rows {:?}..", rows.len(), &rows[..16])
            } else {
                format!("rows {:?}", rows)
            }
        };
        if level > spec.max_levels {
            return Err(format!("path longer than the limit {}", spec.max_levels));
        }
        match node {
            Tree::Leaf(p) => {
                if level < spec.max_levels {
                    let cands = candidates(spec.rows, spec.labels, &rows);
                    let best = best_gain(&cands);
                    let eps = gain_eps(spec.labels, &rows, spec.delta);
                    if best > eps {
                        return Err(format!(
                            "{} at level {} became a leaf although a split gains {:e} (allowance {:e}, level limit {})",
                            show(&rows), level, best, eps, spec.max_levels
                        ));
                    }
                }
                leaf(&rows, p, ctx)
                    .map_err(|e| format!("leaf of {} at level {}: {}", show(&rows), level, e))?;
            }
            Tree::Node { col, val, yes, no } => {
                if level >= spec.max_levels {
                    return Err(format!(
                        "inner node at level {} with level limit {}",
                        level, spec.max_levels
                    ));
                }
                if spec.delta == 0.0 && exact_constant(spec.labels, &rows) {
                    return Err(format!(
                        "{} all carry the same label but were split by column {} >= {:?}",
                        show(&rows),
                        col,
                        val
                    ));
                }
                let g = gain_of(spec.rows, spec.labels, &rows, *col, *val).ok_or_else(|| {
                    format!(
                        "{} at level {}: question column {} >= {:?} leaves one side empty",
                        show(&rows),
                        level,
                        col,
                        val
                    )
                })?;
                let cands = candidates(spec.rows, spec.labels, &rows);
                let best = best_gain(&cands);
                let eps = gain_eps(spec.labels, &rows, spec.delta);
                if g < best - eps {
                    let b = cands.iter().find(|c| c.gain == best).unwrap();
                    return Err(format!(
                        "{} at level {}: question column {} >= {:?} gains {:e}, but column {} >= {:?} gains {:e} (allowance {:e})",
                        show(&rows), level, col, val, g, b.col, b.val, best, eps
                    ));
                }
                let (mut a, mut b) = (vec![], vec![]);
                for &i in &rows {
                    if spec.rows[i][*col] >= *val {
                        a.push(i)
                    } else {
                        b.push(i)
                    }
                }
                stack.push((no, b, level + 1));
                stack.push((yes, a, level + 1));
            }
        }
    }
    Ok(())
}

/// Leaf rule of a plain regression tree: exactly the routed rows with their labels.
pub fn leaf_holds(d: &Data, rows: &[usize], h: &Held) -> Result<(), String> {
    let want = d.subset(rows);
    let want = Held {
        rows: want.rows,
        labels: want.labels,
    };
    if same_pairs(&want, h) {
        Ok(())
    } else if h.rows.len() > 24 {
        Err(format!(
            "holds {} rows that are not the {} rows routed there with their labels",
            h.rows.len(),
            rows.len()
        ))
    } else {
        Err(format!(
            "holds {:?} -> {:?} instead of {:?} -> {:?}",
            h.rows, h.labels, want.rows, want.labels
        ))
    }
}

// ------------------------------------------------------------------ numbers

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol
}
pub fn close_vec(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, tol))
}
pub fn max_abs(v: &[Vec<f64>]) -> f64 {
    v.iter().flatten().fold(0.0, |m, x| m.max(x.abs()))
}
pub fn mean_of(labels: &[Vec<f64>], rows: &[usize]) -> Vec<f64> {
    let t = labels[0].len();
    let n = rows.len() as f64;
    (0..t)
        .map(|k| {
            let base = labels[rows[0]][k];
            base + rows.iter().map(|&i| labels[i][k] - base).sum::<f64>() / n
        })
        .collect()
}
pub fn mse(pred: &[Vec<f64>], act: &[Vec<f64>]) -> f64 {
    let n = pred.len() as f64;
    pred.iter()
        .zip(act)
        .map(|(p, a)| {
            p.iter().zip(a).map(|(x, y)| (x - y) * (x - y)).sum::<f64>() / a.len() as f64
        })
        .sum::<f64>()
        / n
}
pub fn onehot(k: usize, n: usize) -> Vec<f64> {
    let mut v = vec![0.0; n];
    v[k] = 1.0;
    v
}
pub fn argmax_first(v: &[f64]) -> usize {
    let mut b = 0;
    for i in 1..v.len() {
        if v[i] > v[b] {
            b = i
        }
    }
    b
}
pub fn softmax(s: &[f64]) -> Vec<f64> {
    let m = s.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let e: Vec<f64> = s.iter().map(|x| (x - m).exp()).collect();
    let z: f64 = e.iter().sum();
    e.iter().map(|x| x / z).collect()
}
/// The vector an approximate leaf stands for.
pub fn amg_vec(m: f64, class: usize, k: usize) -> Vec<f64> {
    let mut v = vec![-m / (k as f64 - 1.0); k];
    v[class] = m;
    v
}

// ------------------------------------------------------------------ training helpers

pub fn train_tree(d: &Data, max_levels: u32, mt: bool) -> Result<TreeNode<RegressionLeaf>, String> {
    use multi_target_decision_tree::decision_trees::RegressionMultiTargetDecisionTree as R;
    let ds = d.ds();
    let cfg = config(d.t(), max_levels, mt);
    must("training a regression tree", || R::new(ds, cfg).root)
}
pub fn train_held(d: &Data, max_levels: u32, mt: bool) -> Result<Tree<Held>, String> {
    read_tree(&train_tree(d, max_levels, mt)?, d.c(), &mut held)
}

/// A boosting tree (regression outputs) and an approximate one for the labels of a data set.
pub fn train_outputs(d: &Data, max_levels: u32, mt: bool) -> Result<(Tree<Vec<f64>>, Tree<(f64, usize)>), String> {
    use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::{LeafOutputCalculator, LeafOutputType};
    use multi_target_decision_tree::grad_boost_decision_trees::{AMGBoostTree, GradBoostMultiTargetDecisionTree};
    let cfg = config(d.t(), max_levels, mt);
    let calc = LeafOutputCalculator::new(LeafOutputType::Regression);
    let a = must("training a boosting tree", || GradBoostMultiTargetDecisionTree::new(d.ds(), cfg, calc).root)?;
    let b = must("training an approximate boosting tree", || AMGBoostTree::new(d.ds(), cfg, calc).root)?;
    Ok((read_tree(&a, d.c(), &mut outp)?, read_tree(&b, d.c(), &mut amg)?))
}
/// Leaf rules of those trees: the mean label of the routed rows; its first largest entry.
pub fn mean_holds(d: &Data, rows: &[usize], o: &[f64]) -> Result<(), String> {
    let w = mean_of(&d.labels, rows);
    for j in 0..d.t() {
        let m = rows.iter().map(|&i| d.labels[i][j].abs()).fold(0.0, f64::max);
        if o.len() != d.t() || !close(o[j], w[j], 8.0 * U * rows.len() as f64 * m + 1e-320) {
            return Err(format!("outputs {:?}, the mean label there is {:?}", o, w));
        }
    }
    Ok(())
}
pub fn amg_holds(d: &Data, rows: &[usize], o: &(f64, usize)) -> Result<(), String> {
    let w = mean_of(&d.labels, rows);
    let m = rows.iter().map(|&i| d.labels[i].iter().fold(0.0f64, |a, x| a.max(x.abs()))).fold(0.0, f64::max);
    let tol = 8.0 * U * rows.len() as f64 * m + 1e-320;
    let top = w.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    if o.1 >= d.t() || !close(o.0, w[o.1], tol) || w[o.1] < top - 2.0 * tol {
        return Err(format!("keeps {:?}, the outputs there are {:?}", o, w));
    }
    Ok(())
}
