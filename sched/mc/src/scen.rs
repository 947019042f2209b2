//! What the scenarios run, rendered as text so that results can be compared exactly.
use crate::explore::Outcome;
use multi_target_decision_tree::grad_boost_decision_trees::grad_boost_leaf_output::{LeafOutputCalculator, LeafOutputType};
use multi_target_decision_tree::grad_boost_decision_trees::{AMGBoostTree, GradBoostMultiTargetDecisionTree};
use multi_target_decision_tree::split_finder::{SplitFinder, SplitMetric};
use vharness::boost::*;
use vharness::cases::*;
use vharness::model::*;

pub const TREES: [&str; 5] = ["regression", "boosting", "boosting-classes", "approximate", "sorted-columns"];

/// Trains a tree and renders questions, branches and leaf contents.
pub fn tree(kind: usize, d: &Data, levels: u32, mt: bool) -> Outcome {
    let c = d.c();
    let cfg = config(d.t(), levels, mt);
    let calc = |k| LeafOutputCalculator::new(k);
    Ok(match kind {
        0 => format!("{:?}", train_held(d, levels, mt)?),
        1 => format!("{:?}", read_tree(&GradBoostMultiTargetDecisionTree::new(d.ds(), cfg, calc(LeafOutputType::Regression)).root, c, &mut outp)?),
        2 => format!("{:?}", read_tree(&GradBoostMultiTargetDecisionTree::new(d.ds(), cfg, calc(LeafOutputType::MultiClassClassification)).root, c, &mut outp)?),
        3 => format!("{:?}", read_tree(&AMGBoostTree::new(d.ds(), cfg, calc(LeafOutputType::MultiClassClassification)).root, c, &mut amg)?),
        _ => {
            use multi_target_decision_tree::decision_trees::RegressionMultiTargetDecisionTreeNewPartition as N;
            let ds = d.ds();
            let s = common::data_processor::create_dataset_with_sorted_features(&ds);
            let t = N::new(s, cfg);
            format!("{:?}", read_tree(&t.root, c, &mut held_new)?)
        }
    })
}

pub fn split(d: &Data) -> (f64, u32, f64) {
    let f = SplitFinder::new(SplitMetric::Variance);
    let r = (f.find_best_split)(&d.ds(), d.t() as u32);
    (r.gain, r.question.column, r.question.value)
}

pub const ENSEMBLES: [&str; 3] = ["regression", "multi-class", "approximate"];

pub fn ensemble(kind: usize, d: &Data, r: Run) -> Result<Plain, String> {
    match kind {
        0 => Plain::reg(&train_reg(d, r)?, d.c()),
        1 => Plain::mc(&train_mc(d, r)?, d.c()),
        _ => Plain::amg(&train_amg(d, r)?, d.c(), d.t()),
    }
}

/// Runs the closure on a worker of the pool.
pub fn inside(f: impl FnOnce() -> Outcome + Send) -> Outcome {
    rayon::scope(|_| f())
}

/// A data set from the structured family.
pub fn big(n: usize, c: usize, t: usize, fp: usize, lp: usize) -> Data {
    Big { n, c, t, fp, lp, scale: 0.1, offset: 0.0 }.data()
}
pub fn classes(n: usize, c: usize, k: usize, fp: usize, lp: usize) -> Data {
    Big { n, c, t: k, fp, lp, scale: 1.0, offset: 0.0 }.classes(k).0
}

/// Runs set-up code of a scenario without exploring its schedules.
pub fn prepared<T>(f: impl FnOnce() -> T) -> T {
    rayon_core::sched::stop();
    let r = f();
    rayon_core::sched::go();
    r
}

/// Shares a value between application threads whatever it is made of.
pub struct Share<T>(pub T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}
impl<T> Share<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
}
