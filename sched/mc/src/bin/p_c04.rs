// C04: calls made from several application threads at once give what they give one after the other.
use mc::explore::*;
use mc::scen::*;
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::{LeafOutputCalculator, LeafOutputType};
use multi_target_decision_tree::leaf::{RegressionLeaf, RegressionLeafNewPartition};
use multi_target_decision_tree::node::TreeNode;
use multi_target_decision_tree::scorer;
use multi_target_grad_boost::boosting_ensemble::boosting_types::{AMGBoostModel, MultiClassBoostModel, RegressionBoostModel};
use multi_target_grad_boost::boosting_ensemble::GradientBoostedEnsemble;
use std::rc::Rc;
use vharness::boost::*;
use vharness::engine::thorough;
use vharness::model::*;

#[derive(Clone, Copy, Debug)]
enum Op {
    /// train a tree: kind, levels, multi-threading
    Tree(usize, u32, bool),
    /// train an ensemble: kind, levels, iterations, multi-threading
    Ensemble(usize, u32, u32, bool),
    Split,
    Parts,
    /// classify every row and score with the shared tree
    Classify,
    /// mean squared error of the shared tree
    Error,
    ErrorNew,
    /// predict every row, then all at once, then score, with the shared ensemble of a kind
    Predict(usize),
    Score(usize),
    /// read the client's own file: with class labels, as features and labels, as one table, its header
    Read,
    ReadTwo,
    ReadPlain,
    Names,
    /// sorted columns, row partition, leaf outputs
    Sort,
    Filter,
    Leaf(usize),
    /// calls that cannot succeed: training on labels of unequal length, reading a file that is not there
    Fail(usize),
}

/// What one client works on.
struct Case {
    reg: Data,
    cls: Data,
}

struct Models {
    tree: Box<TreeNode<RegressionLeaf>>,
    new: Option<Box<TreeNode<RegressionLeafNewPartition<'static>>>>,
    reg: Option<RegressionBoostModel>,
    mc: Option<MultiClassBoostModel>,
    amg: Option<AMGBoostModel>,
}

const CSV: [(&str, &str); 4] = [
    ("/verif/.build/sched/c04.csv", "a,b,label\n1,2,0\n3,4,1\n5,6,2\n1,7,1\n"),
    ("/verif/.build/sched/c04b.csv", "x,y,z,w\n-1,20,0.5,2\n3e1,-4,7,2\n"),
    ("/verif/.build/sched/c04c.csv", "k\n1\n0\n2\n1\n"),
    ("/verif/.build/sched/c04d.csv", "m,n\n7,8\n-9,0.25\n"),
];
/// The rate of a training; calls with other levels have another one.
fn run(levels: u32, iters: u32, mt: bool) -> Run {
    Run { levels, iters, lr: [0.25, 0.5, 1.0][levels as usize % 3], mt }
}

fn models(c: &Case, ops: &[Vec<Op>]) -> Result<Models, String> {
    let want = |f: &dyn Fn(&Op) -> bool| ops.iter().flatten().any(|o| f(o));
    let uses = |k: usize| want(&|o| matches!(o, Op::Predict(j) | Op::Score(j) if *j == k));
    let r = run(2, 2, false);
    Ok(Models {
        tree: Box::new(train_tree(&c.cls, 2, false)?),
        new: if want(&|o| matches!(o, Op::ErrorNew)) {
            use multi_target_decision_tree::decision_trees::RegressionMultiTargetDecisionTreeNewPartition as N;
            let ds = Box::leak(Box::new(c.reg.ds()));
            Some(Box::new(N::new(common::data_processor::create_dataset_with_sorted_features(ds), config(c.reg.t(), 2, false)).root))
        } else {
            None
        },
        reg: if uses(0) { Some(train_reg(&c.reg, r)?) } else { None },
        mc: if uses(1) { Some(train_mc(&c.cls, r)?) } else { None },
        amg: if uses(2) { Some(train_amg(&c.cls, r)?) } else { None },
    })
}

fn parts(d: &Data) -> String {
    let ds = d.ds();
    let s = common::data_processor::create_dataset_with_sorted_features(&ds);
    let (a, b) = common::data_processor::new_partition(&s, d.c() - 1, d.rows[d.n() / 2][d.c() - 1], &s.labels);
    format!("{:?} {:?}", (a.labels, a.sorted_feature_columns), (b.labels, b.sorted_feature_columns))
}

/// Client i asks about the rows of the data set, starting at the i-th.
fn turned(d: &Data, i: usize) -> Data {
    let mut d = d.clone();
    let n = d.n();
    d.rows.rotate_left(i % n);
    d.labels.rotate_left(i % n);
    if i > 0 {
        d.rows.pop();
        d.labels.pop();
    }
    d
}

/// The rows of a client with other labels than the model fits: every row has its own error, every
/// other class is wrong.
fn scored(d: &Data, i: usize, class: bool) -> Data {
    let mut d = turned(d, i);
    for (r, l) in d.labels.iter_mut().enumerate() {
        if class {
            l.rotate_right((r + i) % 2);
        } else {
            l.iter_mut().enumerate().for_each(|(j, x)| *x += 0.25 * (1 + 3 * r + 2 * j + i) as f64);
        }
    }
    d
}

fn perform(op: Op, i: usize, c: &Case, m: &Models) -> Outcome {
    fn both<M: GradientBoostedEnsemble>(m: &Option<M>, d: &Data, i: usize, score: bool) -> String {
        let m = m.as_ref().unwrap();
        if score {
            return format!("{:?} {:?}", m.calculate_score(&scored(d, i, true).ds()), m.calculate_score(&scored(d, i, false).ds()));
        }
        let d = &turned(d, i);
        let each: Vec<Vec<f64>> = d.rows.iter().map(|r| m.predict(r)).collect();
        format!("{:?} {:?}", each, m.calculate_all_predictions(&d.ds()))
    }
    Ok(match op {
        Op::Tree(k, levels, mt) => tree(k, if k == 0 || k == 4 { &c.reg } else { &c.cls }, levels, mt)?,
        Op::Ensemble(k, levels, iters, mt) => format!("{:?}", ensemble(k, if k == 0 { &c.reg } else { &c.cls }, run(levels, iters, mt))?),
        Op::Split => format!("{:?}", split(&c.reg)),
        Op::Parts => parts(&c.reg),
        Op::Classify => {
            let each: Vec<Vec<f64>> = turned(&c.cls, i).rows.iter().map(|r| scorer::classification::predict_class(r, &m.tree)).collect();
            format!("{:?} {:?}", each, scorer::classification::calculate_accuracy(&scored(&c.cls, i, true).ds(), &m.tree))
        }
        Op::Error => format!("{:?}", scorer::regression::calculate_overall_mean_squared_error(&scored(&c.cls, i, false).ds(), &m.tree)),
        Op::ErrorNew => format!("{:?}", scorer::regression::calculate_overall_mean_squared_error_new_partition(&scored(&c.reg, i, false).ds(), m.new.as_ref().unwrap())),
        Op::Predict(k) | Op::Score(k) => {
            let s = matches!(op, Op::Score(_));
            match k {
                0 => both(&m.reg, &c.reg, i, s),
                1 => both(&m.mc, &c.cls, i, s),
                _ => both(&m.amg, &c.cls, i, s),
            }
        }
        Op::Read => {
            let d = common::data_reader::read_csv_data_one_hot_multi_target(CSV[i % 2].0, 3);
            format!("{:?} {:?} {:?}", d.feature_rows, d.labels, d.feature_columns)
        }
        Op::ReadTwo => {
            let d = common::data_reader::read_csv_data_multi_target(CSV[i % 2].0, CSV[2 + i % 2].0);
            format!("{:?} {:?} {:?}", d.feature_rows, d.labels, d.feature_columns)
        }
        Op::ReadPlain => {
            let d = common::data_reader::read_csv_data(CSV[i % 4].0);
            format!("{:?} {:?}", d.features, d.labels)
        }
        Op::Names => format!("{:?}", common::data_reader::get_feature_names(CSV[i % 4].0)),
        Op::Sort => {
            let ds = c.reg.ds();
            let s = common::data_processor::create_dataset_with_sorted_features(&ds);
            format!("{:?} {:?}", s.labels, s.sorted_feature_columns)
        }
        Op::Filter => {
            let q = common::question::Question::new(0, c.reg.rows[c.reg.n() / 2][0]);
            let (a, b) = multi_target_decision_tree::data_partitioner::partition(&c.reg.ds(), &q);
            format!("{:?} {:?}", (a.feature_rows, a.feature_columns, a.labels), (b.feature_rows, b.feature_columns, b.labels))
        }
        Op::Fail(k) => {
            let failed = vharness::engine::guard(|| match k {
                0 => {
                    let mut d = c.cls.clone();
                    let n = d.n();
                    d.labels[n - 1].pop();
                    tree(1, &d, 2, true).map(|_| ())
                }
                _ => {
                    common::data_reader::read_csv_data("/verif/.build/sched/none.csv");
                    Ok(())
                }
            });
            format!("{}", matches!(failed, Ok(Ok(()))))
        }
        Op::Leaf(k) => {
            let l = LeafOutputCalculator::new(if k == 0 { LeafOutputType::Regression } else { LeafOutputType::MultiClassClassification });
            let mut d = c.cls.ds();
            d.labels.iter_mut().enumerate().for_each(|(r, l)| l.iter_mut().for_each(|x| *x = *x * 0.75 - 0.125 * (r + 1) as f64));
            format!("{:?}", (l.calculate_leaf_output)(&d))
        }
    })
}

fn joined(r: Vec<Outcome>) -> Outcome {
    let mut v = vec![];
    for (i, x) in r.into_iter().enumerate() {
        v.push(x.map_err(|e| format!("thread {}: {}", i, e))?);
    }
    Ok(v.join("\n"))
}

/// Client i works on data set i % cases and the one shared set of models.
fn together(cases: &[Case], ops: &[Vec<Op>]) -> Outcome {
    let m = Share(prepared(|| models(&cases[0], ops))?);
    let cs = Share(cases);
    let (m, cs) = (&m, &cs);
    let r: Vec<Outcome> = std::thread::scope(|s| {
        let hs: Vec<_> = ops
            .iter()
            .enumerate()
            .map(|(i, list)| s.spawn(move || -> Outcome { client(i, list, cs.get(), m.get()) }))
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked".into()))).collect()
    });
    joined(r)
}
fn client(i: usize, list: &[Op], cases: &[Case], m: &Models) -> Outcome {
    let mut v = vec![];
    for op in list {
        // the shared models belong to the first data set
        let own = matches!(op, Op::Classify | Op::Error | Op::ErrorNew | Op::Predict(_) | Op::Score(_));
        v.push(perform(*op, i, &cases[if own { 0 } else { i % cases.len() }], m)?);
    }
    Ok(v.join(" | "))
}
fn one_by_one(cases: &[Case], ops: &[Vec<Op>]) -> Outcome {
    let m = prepared(|| models(&cases[0], ops))?;
    joined(ops.iter().enumerate().map(|(i, l)| guarded(|| client(i, l, cases, &m))).collect())
}

fn case(v: &mut Vec<Scenario>, name: &str, cases: &Rc<Vec<Case>>, ops: &[Vec<Op>], pool: usize, plan: Plan, memory: bool) {
    let what = format!("threads {:?} on {}, pool of {}", ops, cases.iter().map(|c| c.reg.describe()).collect::<Vec<_>>().join(" / "), pool);
    let (a, b, o, p) = (cases.clone(), cases.clone(), ops.to_vec(), ops.to_vec());
    add(v, name.to_string(), what, pool, ops.len(), &plan, memory, move || together(&a, &o), move || one_by_one(&b, &p));
}

fn main() {
    let th = thorough();
    let x = th as u32;
    let _ = std::fs::create_dir_all("/verif/.build/sched");
    for (path, text) in CSV {
        if std::fs::read(path).map_or(true, |b| b != text.as_bytes()) {
            std::fs::write(path, text).expect("the data file");
        }
    }
    let set = |n: usize, c: usize, k: usize, fp: usize| Case { reg: big(n, c, k, fp, 10), cls: classes(n, c, k, fp, 14) };
    let pair = Rc::new(vec![set(4, 2, 2, 4), set(3, 1, 3, 0)]);
    let same = Rc::new(vec![set(4, 1, 2, 2)]);
    let mut v = vec![];
    use Op::*;
    let two: Vec<(&str, Vec<Vec<Op>>)> = vec![
        ("trees", vec![vec![Tree(0, 2, false)], vec![Tree(0, 2, false)]]),
        ("trees-mt", vec![vec![Tree(0, 2, true)], vec![Tree(0, 2, true)]]),
        ("tree-kinds", vec![vec![Tree(1, 2, true)], vec![Tree(3, 2, true)]]),
        ("tree-kinds2", vec![vec![Tree(4, 2, false)], vec![Tree(2, 2, false)]]),
        ("reg-reg", vec![vec![Ensemble(0, 1, 2, false)], vec![Ensemble(0, 1, 2, true)]]),
        ("mc-mc", vec![vec![Ensemble(1, 1, 2, true)], vec![Ensemble(1, 1, 2, false)]]),
        ("amg-amg", vec![vec![Ensemble(2, 1, 2, true)], vec![Ensemble(2, 1, 2, true)]]),
        ("amg-mc", vec![vec![Ensemble(2, 1, 1, false)], vec![Ensemble(1, 1, 1, false)]]),
        ("reg-amg", vec![vec![Ensemble(0, 1, 1, false)], vec![Ensemble(2, 1, 1, false)]]),
        ("split-parts", vec![vec![Split, Parts], vec![Parts, Split]]),
        ("split-split", vec![vec![Split], vec![Split]]),
        ("predict-reg", vec![vec![Predict(0)], vec![Predict(0), Score(0)]]),
        ("predict-mc", vec![vec![Predict(1)], vec![Predict(1), Score(1)]]),
        ("predict-amg", vec![vec![Predict(2)], vec![Predict(2), Score(2)]]),
        ("predict-train", vec![vec![Predict(0), Score(0)], vec![Ensemble(0, 1, 1, false)]]),
        ("score-train", vec![vec![Score(1), Score(2)], vec![Ensemble(1, 1, 1, true)]]),
        ("classify", vec![vec![Classify], vec![Classify, Error]]),
        ("classify-train", vec![vec![Classify, Error], vec![Tree(0, 2, true)]]),
        ("error-new", vec![vec![ErrorNew], vec![ErrorNew, Error]]),
        ("read", vec![vec![Read], vec![Read, Tree(0, 1, false)]]),
    ];
    for (name, ops) in &two {
        for (cases, tag) in [(&pair, ""), (&same, "-same")] {
            for pool in 1..=2usize {
                let name = format!("{}{}", name, tag);
                let light = !ops.iter().flatten().any(|o| matches!(o, Tree(..) | Ensemble(..) | Parts | Split));
                let p = if light { plan(pool + 3, 3, 3 + x, 2 + x, Some(2 + x), th) } else { plan(pool + 3, 2, 1 + x, 1, Some(1), th) };
                case(&mut v, &name, cases, ops, pool, p, true);
            }
        }
    }
    // every two calls
    let all = [
        Tree(0, 1, false), Tree(0, 2, true), Tree(1, 1, true), Tree(2, 2, false), Tree(3, 2, true), Tree(4, 2, false),
        Ensemble(0, 1, 2, false), Ensemble(0, 2, 1, true), Ensemble(1, 1, 1, false), Ensemble(1, 2, 2, true), Ensemble(2, 1, 2, false), Ensemble(2, 0, 1, true),
        Split, Parts, Classify, Error, ErrorNew, Predict(0), Predict(1), Predict(2), Score(0), Score(1), Score(2),
        Read, ReadTwo, ReadPlain, Names, Sort, Filter, Leaf(0), Leaf(1), Fail(0), Fail(1),
    ];
    for (i, &a) in all.iter().enumerate() {
        for &b in &all[i..] {
            let heavy = |o: Op| matches!(o, Tree(..) | Ensemble(..) | Parts | Split | Fail(0));
            let p = match (heavy(a), heavy(b)) {
                (true, true) => plan(4, 1 + x, 1 + x, 1, Some(x), th),
                (false, false) => plan(4, 3, 3 + x, 2, Some(2), th),
                _ => plan(4, 2, 1 + x, 1, Some(1), th),
            };
            case(&mut v, &format!("two-{:?}-{:?}", a, b).replace(' ', ""), &pair, &[vec![a], vec![b]], 1, p, true);
        }
    }
    // three threads
    for (name, ops) in [
        ("three-trees", vec![vec![Tree(0, 2, true)], vec![Tree(1, 2, true)], vec![Tree(3, 2, true)]]),
        ("three-ensembles", vec![vec![Ensemble(0, 1, 1, true)], vec![Ensemble(1, 1, 1, true)], vec![Ensemble(2, 1, 1, true)]]),
        ("three-mixed", vec![vec![Predict(0), Split], vec![Score(0), Parts], vec![Ensemble(0, 1, 1, false)]]),
        ("three-predict", vec![vec![Predict(1)], vec![Predict(1)], vec![Score(1)]]),
        ("three-classify", vec![vec![Classify], vec![Error], vec![Classify]]),
    ] {
        for pool in 1..=2usize {
            case(&mut v, name, &pair, &ops, pool, plan(pool + 4, 1, 1, 1, Some(0), false), true);
        }
    }
    main_run(McCheck {
        id: "C04",
        rule: "a scenario starts 2 or 3 application threads that make 1 or 2 calls each (train trees and ensembles, search splits, sort, partition, leaf outputs, classify, predict and score with one shared model, read files; every two of 33 calls, two of them failing, and chosen longer ones) over a pool of 1 or 2 workers; every schedule within its bounds is executed on the real code and all results compared with those of the same calls made one after the other".into(),
        bounds: "per scenario, from the base schedules run-to-block, round robin and priority orders of workers and application threads: all schedules with up to pN preemptions (run-to-block) and up to dN decisions other than the base's".into(),
        assumptions: vec![
            "sequentially consistent executions; the pool is rayon-core 1.9.1 with its queues, latches and sleeping replaced by ones under the scheduler".into(),
            "the shared models are trained before the threads start".into(),
        ],
        scenarios: v,
    });
}
