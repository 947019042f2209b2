// T05: the printed tree is the tree.
use common::question::Question;
use multi_target_decision_tree::leaf::RegressionLeaf;
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::printer::print_tree_regression;
use std::io::Write;
use vharness::cases::*;
use vharness::engine::*;
use vharness::model::*;

/// Runs f with file descriptor 1 pointing to a memory file; returns what was written.
fn capture(f: impl FnOnce()) -> Result<String, String> {
    unsafe {
        let fd = libc::syscall(libc::SYS_memfd_create, b"out\0".as_ptr(), 0) as i32;
        if fd < 0 {
            panic!("memfd_create failed");
        }
        let _ = std::io::stdout().flush();
        let old = libc::dup(1);
        libc::dup2(fd, 1);
        let r = must("print_tree_regression", f);
        let _ = std::io::stdout().flush();
        libc::dup2(old, 1);
        libc::close(old);
        let len = libc::lseek(fd, 0, libc::SEEK_END);
        libc::lseek(fd, 0, libc::SEEK_SET);
        let mut buf = vec![0u8; len as usize];
        let mut got = 0;
        while got < buf.len() {
            let k = libc::read(fd, buf[got..].as_mut_ptr() as *mut _, buf.len() - got);
            if k <= 0 {
                break;
            }
            got += k as usize;
        }
        libc::close(fd);
        r?;
        String::from_utf8(buf).map_err(|_| "output is not UTF-8".to_string())
    }
}

fn indent(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}

struct Printed<'a> {
    lines: Vec<&'a str>,
    pos: usize,
    names: &'a [String],
}

impl<'a> Printed<'a> {
    fn next(&mut self, what: &str) -> Result<&'a str, String> {
        let l = self.lines.get(self.pos).ok_or_else(|| format!("output ends where {} should be", what))?;
        self.pos += 1;
        Ok(l)
    }
    /// `above`: indentation of the enclosing question, -1 at the root.
    fn node(&mut self, t: &Tree<Held>, above: i64) -> CaseResult {
        match t {
            Tree::Leaf(h) => {
                let l = self.next("a prediction line")?;
                if !l.contains("Predict") || l.contains(" >= ") {
                    return Err(format!("line {:?} should be a prediction line", cutl(l)));
                }
                if (indent(l) as i64) <= above {
                    return Err(format!("prediction line {:?} is not indented deeper than its question ({} columns)", cutl(l), above));
                }
                for part in [format!("{:?}", h.labels), format!("{:?}", h.rows)] {
                    if !l.contains(&part) {
                        return Err(format!("prediction line {:?} does not show {}", cutl(l), cutl(&part)));
                    }
                }
                Ok(())
            }
            Tree::Node { col, val, yes, no } => {
                let l = self.next("a question line")?;
                let want = format!("{} >= {}", self.names[*col], val);
                // not as part of a longer name or number
                let ok = l.match_indices(&want).any(|(p, _)| {
                    (self.names[*col].is_empty() || self.names[*col].starts_with(' ') || !l[..p].ends_with(|c: char| c.is_alphanumeric())) && !l[p + want.len()..].starts_with(|c: char| c.is_ascii_digit() || c == '.' || c == 'e')
                });
                if !ok || l.contains("Predict") {
                    return Err(format!("line {:?} should ask {:?}", cutl(l), want));
                }
                let ind = indent(l) as i64;
                if ind <= above {
                    return Err(format!("question line {:?} is not indented deeper than the enclosing one ({} columns)", cutl(l), above));
                }
                let a = self.next("the True line")?;
                if !a.contains("True") || a.contains("False") || a.contains("Predict") {
                    return Err(format!("line {:?} should announce the True branch of {:?}", cutl(a), want));
                }
                self.node(yes, ind)?;
                let b = self.next("the False line")?;
                if !b.contains("False") || b.contains("True") || b.contains("Predict") {
                    return Err(format!("line {:?} should announce the False branch of {:?}", cutl(b), want));
                }
                self.node(no, ind)
            }
        }
    }
}
fn cutl(s: &str) -> String {
    s.chars().take(160).collect()
}

const VN: usize = 7;
fn names(c: usize, v: usize) -> Vec<String> {
    (0..c)
        .map(|j| match v % VN {
            // names that are parts of one another, that differ in blanks or case only, or are not ASCII
            3 => format!("{}f1{}", "x".repeat(j / 3), "0".repeat(j % 3)),
            4 => format!("{}a{}", " ".repeat(j % 4), " ".repeat(1 + j / 4)),
            5 => format!("{}{}", ["größe", "Größe", "长度", ""][j % 4], if j < 4 { String::new() } else { j.to_string() }),
            6 => format!("{}{}", "long name ".repeat(30), j),
            0 => format!("f{}", j),
            1 => format!("col {} (cm)", (j * 7 + 3) % 31 + 100 * j),
            _ => format!("{}_x", ["alpha", "beta", "gamma", "delta"][j % 4].repeat(1 + j / 4)),
        })
        .collect()
}

fn check(root: &Box<TreeNode<RegressionLeaf>>, c: usize, v: usize, ctx: &mut Ctx) -> CaseResult {
    let t = read_tree(root, c, &mut held)?;
    let names = names(c, v);
    let spacing = ["", "    "][v % 2].to_string();
    let out = capture(|| print_tree_regression(root, spacing, &names))?;
    let mut h = H::new(5);
    t.hash_shape(&mut h);
    ctx.state(h.get());
    let mut ho = H::new(6);
    for b in out.bytes() {
        ho.u(b as u64);
    }
    ctx.outcome(ho.get());
    let lines: Vec<&str> = out.lines().filter(|l| !l.trim().is_empty()).collect();
    ctx.trans(lines.len() as u64);
    let want = t.leaves() + 3 * (t.leaves() - 1);
    if lines.len() != want {
        return Err(format!("{} lines printed for a tree of {} leaves and {} questions ({} expected)", lines.len(), t.leaves(), t.leaves() - 1, want));
    }
    let mut p = Printed { lines, pos: 0, names: &names };
    p.node(&t, -1)?;
    ctx.trace();
    Ok(())
}

fn build(t: &Tree<usize>, c: usize) -> TreeNode<RegressionLeaf> {
    match t {
        Tree::Leaf(k) => {
            let n = 1 + k % 2;
            let d = Data {
                rows: (0..n).map(|r| (0..c).map(|j| [0.5, 0.1 + 0.2, 1e300, 5e-324][(k + j) % 4] + (k * r) as f64).collect()).collect(),
                labels: (0..n).map(|r| vec![*k as f64, -1.5 + r as f64, [0.1 + 0.2, -1e-7, 1e21][k % 3]]).collect(),
            };
            TreeNode::leaf_node(Question::new(0, 0.0), RegressionLeaf { data: Some(d.ds()) })
        }
        Tree::Node { col, val, yes, no } => TreeNode::new(Question::new(*col as u32, *val), Box::new(build(yes, c)), Box::new(build(no, c))),
    }
}

/// All binary tree shapes with the given number of leaves.
fn shapes(leaves: usize) -> Vec<Tree<()>> {
    if leaves == 1 {
        return vec![Tree::Leaf(())];
    }
    let mut v = vec![];
    for a in 1..leaves {
        for l in shapes(a) {
            for r in shapes(leaves - a) {
                v.push(Tree::Node { col: 0, val: 0.0, yes: Box::new(l.clone()), no: Box::new(r) });
            }
        }
    }
    v
}

const V: [f64; 8] = [0.0, 1.0, -2.5, 0.1, 1e21, 1e-7, 123456789.125, f64::INFINITY];

fn dress(t: &Tree<()>, q: &mut impl FnMut() -> (usize, f64), k: &mut usize) -> Tree<usize> {
    match t {
        Tree::Leaf(_) => {
            *k += 1;
            Tree::Leaf(*k - 1)
        }
        Tree::Node { yes, no, .. } => {
            let (col, val) = q();
            Tree::Node { col, val, yes: Box::new(dress(yes, q, k)), no: Box::new(dress(no, q, k)) }
        }
    }
}

fn main() {
    let th = thorough();
    let mut fams = vec![];
    // every shape with every question assignment
    for (leaves, cols, vals) in [(1usize, 2u64, 8u64), (2, 3, 8), (3, 3, 8), (4, 2, if th { 8 } else { 4 }), (5, 2, if th { 4 } else { 2 }), (6, 2, 1)] {
        let sh = shapes(leaves);
        let q = cols * vals;
        let count = sh.len() as u64 * q.pow(leaves as u32 - 1) * VN as u64;
        fams.push(Family::new(format!("shape-{}", leaves), count, move |i, ctx| {
            let mut cut = Cut(i);
            let v = cut.take(VN as u64);
            let s = &sh[cut.take(sh.len() as u64)];
            let mut qs = || { let c = cut.take(cols); (c, V[cut.take(vals)]) };
            let t = dress(s, &mut qs, &mut 0);
            ctx.describe(|| format!("{:?}", t));
            check(&Box::new(build(&t, cols as usize)), cols as usize, v, ctx)
        }));
    }
    // trained trees
    for s in [Space::new(3, 2, 1, &[0, 1], &[0.0, 12.0, 0.1]), Space::new(4, 1, 1, &[0, 5], &[0.0, 12.0, -7.5])] {
        fams.push(Family::new(format!("trained-{}", s.name()), s.count(), move |i, ctx| {
            let d = s.get(i);
            ctx.describe(|| d.describe());
            let root = Box::new(train_tree(&d, 5, false)?);
            check(&root, d.c(), (i % VN as u64) as usize, ctx)
        }));
    }
    let b = bigs(&[(17, 12, 2), (60, 3, 1), (300, 2, 3)], &[0, 4, 7, 10], &[0, 4, 7, 10, 13], &[(1.0, 0.0), (0.3, 1.0)]);
    fams.push(Family::new("structured", b.len() as u64 * 2, move |i, ctx| {
        let mut cut = Cut(i);
        let l = [3, 30][cut.take(2)];
        let d = b[cut.take(b.len() as u64)].data();
        ctx.describe(|| d.describe());
        let root = Box::new(train_tree(&d, l, false)?);
        check(&root, d.c(), (i % VN as u64) as usize, ctx)
    }).chunk(2));
    fams.push(Family::new("chain", 2 * 6, |i, ctx| {
        let depth = [10usize, 17, 33, 64, 100, 260][(i / 2) as usize];
        let mut t: Tree<usize> = Tree::Leaf(0);
        for k in 0..depth {
            let leaf = Box::new(Tree::Leaf(k + 1));
            t = if i % 2 == 0 {
                Tree::Node { col: k % 3, val: k as f64, yes: Box::new(t), no: leaf }
            } else {
                Tree::Node { col: k % 3, val: k as f64, yes: leaf, no: Box::new(t) }
            };
        }
        ctx.describe(|| format!("chain of {} questions", depth));
        check(&Box::new(build(&t, 3)), 3, 0, ctx)
    }).chunk(1));
    // every size in turn, every combination of coarse sizes
    let z = Sizes::new(257, 257, 257, 300);
    fams.push(Family::new("sizes", z.count(), move |i, ctx| {
        let d = z.get(i);
        ctx.describe(|| d.describe());
        let root = Box::new(train_tree(&d, 3, false)?);
        check(&root, d.c(), (i % VN as u64) as usize, ctx)
    }).chunk(4));
    let e = Extras::new();
    fams.push(Family::new("extras", e.count(), move |i, ctx| {
        let d = e.get(i);
        ctx.describe(|| d.describe());
        let root = Box::new(train_tree(&d, 3, false)?);
        check(&root, d.c(), (i % VN as u64) as usize, ctx)
    }).chunk(8));
    // trees as deep as there are rows
    let ch = Chains::new(if th { 150 } else { 65 }, 490);
    fams.push(Family::new("chains", ch.count(), move |i, ctx| {
        let d = ch.get(i);
        ctx.describe(|| d.describe());
        let root = Box::new(train_tree(&d, 1000, false)?);
        check(&root, d.c(), (i % VN as u64) as usize, ctx)
    }).chunk(1));
    let x = Mix::new(&[0, 1, 2, 4, 9, 40], &[1], &[1.0], 60_000);
    fams.push(Family::new("mix", x.count(), move |i, ctx| {
        let (d, l, _, _, mt) = x.get(i);
        ctx.describe(|| d.describe());
        let root = Box::new(train_tree(&d, l, mt)?);
        check(&root, d.c(), (i % VN as u64) as usize, ctx)
    }).chunk(4));
    main_run(Check {
        id: "T05",
        level: "model_checking",
        rule: "every binary tree shape with up to six leaves and every question assignment from the alphabets, printed to a captured stdout and parsed back in lockstep with the tree".into(),
        assumptions: vec!["feature names contain no quotes or line breaks".into(), "thresholds are shown as Rust displays them; leaf contents as the debug form of the leaf's rows and labels".into()],
        families: fams,
        pool: true,
        bounds: "complete: all shapes with <=6 leaves, up to 3 columns x 8 thresholds per question; chains of 260 questions; trained trees of sizes up to 257; every combination of nine numbers of rows (to 1100), seven of columns and of targets (to 30) and coarse settings up to a cost bound".into(),
    });
}
